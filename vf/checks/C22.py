"""What is drawn in a plot, against the data it was made from."""
import contextlib
import os
import socket

import numpy as np
from hypothesis import strategies as st

from vf import cli, gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Plots show the data: every point at its place, in the chart asked for',
    statement="""A plot of point or gridded data shows each value at its own coordinates, missing values nowhere and nothing else,
    in the chart type and on the axes asked for, whatever the order or shape of the dimensions: lines, points, cells, contours,
    histogram counts, and the standard deviations and correlations of Taylor diagrams. Times are drawn at their dates, axes are
    labelled with the names and units of what they show (pressure decreasing upwards), and limits, tick steps, logarithmic scales,
    titles, colour scales and sizes are as asked for.""",
    text='data in all orders and shapes, chart types, axes and options',
    why="""The image tests need reference images and observation files which are not distributed, so hardly any of this is run.""",
    files=['cis/plotting/plot.py', 'cis/plotting/genericplot.py', 'cis/plotting/formatted_plot.py', 'cis/plotting/heatmap.py',
           'cis/plotting/contourplot.py', 'cis/plotting/scatterplot.py', 'cis/plotting/lineplot.py', 'cis/plotting/histogram.py',
           'cis/plotting/histogram2d.py', 'cis/plotting/comparativescatter.py', 'cis/plotting/taylor.py', 'cis/parse.py'],
    mechanism=[('basic_plot, multilayer_plot, get_axis', 'cis/plotting/plot.py'), ('Generic2DPlot', 'cis/plotting/genericplot.py'),
               ('Plotter', 'cis/plotting/formatted_plot.py'), ('Taylor', 'cis/plotting/taylor.py')],
    observe=['cis plot', 'CommonData.plot'],
    note="""Hypothesis cases, plotted without a screen; the artists in the Matplotlib figure are compared with the data, contours
    with those Matplotlib draws from the same numbers.""")

RULE = 'A case is data and a way of plotting it. Non-trivial: at least two values are not missing.'

EPOCH = 135140.      # days from 1600-01-01 to 1970-01-01


@contextlib.contextmanager
def offline():
    """No network, at once (map plots would look for coastlines)."""
    def refuse(*args, **kw):
        raise socket.gaierror('no network here')
    real = socket.getaddrinfo
    socket.getaddrinfo = refuse
    import matplotlib.pyplot as plt
    import matplotlib
    plt.close('all')
    with matplotlib.rc_context():
        try:
            yield plt
        finally:
            socket.getaddrinfo = real
            plt.close('all')


def label_has(text, obj, what):
    name, units = obj.name(), str(obj.units)
    if 'since' in units:
        units = ''
    check(name in text and units in text, '%s is labelled %r, for %r in %r', what, text, name, units)


def times_shown(axis, xs, days):
    """A time axis: positions and labels."""
    import datetime
    check(gen.same(xs, days - EPOCH, rtol=1e-11), 'times drawn at %s instead of %s', list(xs), list(days - EPOCH))
    fmt = axis.get_major_formatter()
    lo, hi = sorted(axis.get_view_interval())
    for x in xs[np.isfinite(xs)][:2]:
        # (Matplotlib keeps microseconds at best)
        when = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=float(x))
        near = [(when + datetime.timedelta(milliseconds=m)) for m in (-2, 0, 2)]
        text = fmt(x)
        want = [str(w.date()) if hi - lo >= 1 else '%02d:%02d' % (w.hour, w.minute) for w in near]
        check(any(text.startswith(w) for w in want), 'a time axis %g days wide says %r for %s', hi - lo, text, when)


LINES = [('dashed', '--'), ('dotted', ':'), ('dashdot', '-.'), ('solid', '-')]
MARKERS = [('s', 's'), ('o', 'o'), ('^', '^'), ('x', 'x')]


# --- Series ----------------------------------------------------------------------------------------------------------

COORDS = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


@st.composite
def series(draw):
    gridded = draw(st.booleans())
    if gridded:
        dim = draw(st.sampled_from(COORDS))
        data = draw(gen.grid(dims=[dim], min_n=2, max_n=6))
        axes = [dim]
    else:
        data = draw(gen.ungridded(min_n=2, max_n=8, must=(), optional=COORDS, with_nan=False).filter(lambda d: d['coords']))
        axes = data['coords']
    how = draw(st.sampled_from(['line', 'scatter']))
    if data.get('shape'):
        how = 'scatter'
    x = draw(st.sampled_from(axes))
    y = draw(st.sampled_from(axes)) if draw(st.integers(0, 3)) == 0 else None
    guess = (gridded or len(axes) == 1) and draw(st.booleans())
    style = draw(st.sampled_from([{}, {}, {'color': 'red'}, {'itemwidth': 3}, {'edgecolor': 'blue'}, {'alpha': 0.5}, {'itemstyle': 0}, {'itemstyle': 1},
                                  {'itemstyle': 2}, {'itemstyle': 3}, {'color': 'olive', 'itemstyle': 3, 'itemwidth': 2.5}]))
    if how == 'line' and 'edgecolor' in style:
        style = {}
    return dict(gridded=gridded, data=data, how=how, x=x, y=y, guess=guess, style=style, label=draw(st.booleans()),
                scalar=gridded and draw(st.booleans()), two=draw(st.integers(0, 3)) == 0)


def series_of(case):
    if case['gridded']:
        obj = gen.build_grid(case['data'])
        if case['scalar']:
            from iris.coords import AuxCoord
            obj.add_aux_coord(AuxCoord(3., long_name='member'))
        x = np.array(case['data']['points'][case['x']])
        v = gen.filled(gen.grid_values(case['data']))
        shown = x if case['y'] else v
    else:
        obj = gen.make(case['data'])
        x = gen.col(case['data'], case['x'])
        shown = gen.col(case['data'], case['y']) if case['y'] else gen.vals_nan(case['data'])
    return obj, x, shown


def decide_series(case, ctx):
    obj, x, shown = series_of(case)
    ctx.nontrivial(np.isfinite(shown).sum() > 1)
    ctx.tag(case['how'], 'gridded' if case['gridded'] else 'points')
    kw = dict(case['style'])
    if 'itemstyle' in kw:
        style, drawn = (LINES if case['how'] == 'line' else MARKERS)[kw['itemstyle']]
        kw['itemstyle'] = style
    if not case['guess']:
        kw['xaxis'] = case['x']
    if case['y']:
        kw['yaxis'] = case['y']
    if case['label']:
        kw['label'] = 'my label'
    with offline() as plt:
        with ctx.sut('plotting'):
            ax = obj.plot(how=case['how'], **kw)
            if case['two']:
                # a second layer on the same axes
                obj.plot(how=case['how'], ax=ax, **kw)
            plt.gcf().canvas.draw()
        check(len(ax.lines) == (2 if case['two'] else 1), '%d lines', len(ax.lines))
        for line in ax.lines:
            xs, ys = gen.filled(line.get_xdata()).ravel(), gen.filled(line.get_ydata()).ravel()
            if case['x'] == 'time':
                times_shown(ax.xaxis, xs, x)
            else:
                check(gen.same(xs, x), 'drawn at %s instead of %s', xs.tolist(), x.tolist())
            if case['y'] == 'time':
                times_shown(ax.yaxis, ys, shown)
            else:
                check(gen.same(ys, shown), 'values %s drawn instead of %s', ys.tolist(), shown.tolist())
            points = line.get_linestyle() in ('None', 'none', '', ' ')
            check(points == (case['how'] == 'scatter'), 'a %s of %r and %r', case['how'], line.get_linestyle(), line.get_marker())
            from matplotlib.colors import to_rgb
            if 'color' in kw:
                check(to_rgb(line.get_color()) == to_rgb(kw['color']), 'colour %s', line.get_color())
            if 'edgecolor' in kw:
                check(to_rgb(line.get_markeredgecolor()) == to_rgb('blue'), 'edge colour %s', line.get_markeredgecolor())
            if 'itemwidth' in kw:
                check((line.get_linewidth() if case['how'] == 'line' else line.get_markersize()) == kw['itemwidth'], 'width')
            if 'itemstyle' in kw:
                check((line.get_linestyle() if case['how'] == 'line' else line.get_marker()) == drawn, 'style %s %s for %s',
                      line.get_linestyle(), line.get_marker(), style)
            if 'alpha' in kw:
                check(line.get_alpha() == 0.5, 'transparency %s', line.get_alpha())
        label_has(ax.get_xlabel(), obj.coord(case['x']), 'the x axis')
        label_has(ax.get_ylabel(), obj.coord(case['y']) if case['y'] else obj, 'the y axis')
        upside_down = ax.get_ylim()[0] > ax.get_ylim()[1]
        check(upside_down == (case['y'] == 'air_pressure'), 'the y axis goes from %g to %g', *ax.get_ylim())


# --- Two axes --------------------------------------------------------------------------------------------------------

@st.composite
def field(draw):
    dims = draw(st.lists(st.sampled_from(COORDS), min_size=2, max_size=2, unique=True))
    if draw(st.booleans()):
        dims = draw(st.permutations(['latitude', 'longitude']))
    data = draw(gen.grid(dims=dims, min_n=2, max_n=6, bounds=True))
    how = draw(st.sampled_from(['heatmap', 'heatmap', 'contour', 'contourf', 'scatter2d', 'default']))
    x, y = draw(st.permutations(dims))
    given_axes = draw(st.sampled_from(['xy', 'xy', 'x', 'y', '']))
    opts = {}
    if draw(st.booleans()):
        opts['colourbar'] = False
    if draw(st.integers(0, 3)) == 0:
        opts['vmin'], opts['vmax'] = draw(gen.fixed(-50, 0)), draw(gen.fixed(1, 50))
    if how.startswith('contour'):
        pick = draw(st.integers(0, 3))
        if pick == 0:
            opts['contlevels'] = sorted(draw(st.lists(gen.fixed(-50, 50), min_size=2, max_size=5, unique=True)))
        elif pick == 1:
            opts['contnlevels'] = draw(st.integers(2, 12))
        elif pick == 2 and how == 'contour':
            opts['color'] = 'red'
    if draw(st.integers(0, 2)) == 0:
        opts['vstep'] = draw(st.sampled_from([5, 10, 20]))
    return dict(data=data, how=how, x=x, y=y, axes=given_axes, opts=opts, scalar=draw(st.booleans()), label=draw(st.booleans()),
                coast=draw(st.booleans()), extra=draw(st.integers(0, 2)), central=draw(st.sampled_from([None, None, 0., 180., -120.])))


def expected_axes(case):
    dims = case['data']['dims']
    if case['axes'] == 'xy':
        return case['x'], case['y']
    if case['axes'] == 'x':
        return case['x'], [d for d in dims if d != case['x']][0]
    if case['axes'] == 'y':
        return [d for d in dims if d != case['y']][0], case['y']
    return None


def edges(case, dim):
    b = case['data']['bounds'].get(dim)
    p = np.array(case['data']['points'][dim], float)
    if b is not None:
        b = np.array(b, float)
        return np.append(b[:, 0], b[-1, 1])
    mid = (p[1:] + p[:-1]) / 2
    e = np.concatenate([[p[0] - (p[1] - p[0]) / 2], mid, [p[-1] + (p[-1] - p[-2]) / 2]])
    return np.clip(e, -90, 90) if dim == 'latitude' else e


def vertices(cs):
    """The points on the contours of each level, in order of position."""
    out = []
    for path in cs.get_paths():
        v = np.round(path.vertices[np.isfinite(path.vertices).all(axis=1)], 6) + 0.
        out.append(np.unique(v, axis=0))
    return out


def decide_field(case, ctx):
    obj = gen.build_grid(case['data'])
    dims = case['data']['dims']
    if case['extra'] and case['how'] != 'default':
        from iris.util import new_axis
        from iris.coords import DimCoord
        from cis.data_io.gridded_data import make_from_cube
        obj.add_aux_coord(DimCoord(7., long_name='member'))
        obj = make_from_cube(new_axis(obj, 'member'))
    elif case['scalar']:
        from iris.coords import AuxCoord
        obj.add_aux_coord(AuxCoord(3., long_name='member'))
    vals = gen.filled(gen.grid_values(case['data']))
    good = vals[np.isfinite(vals)]
    how = 'heatmap' if case['how'] == 'default' else case['how']
    if good.size == 0 or (good.min() == good.max() and how.startswith('contour')):
        return
    ctx.nontrivial(good.size > 1)
    ctx.tag(how, 'axes ' + case['axes'])
    kw = dict(case['opts'])
    if 'x' in case['axes']:
        kw['xaxis'] = case['x']
    if 'y' in case['axes']:
        kw['yaxis'] = case['y']
    if case['label']:
        kw['label'] = 'my label'
    if case['how'] != 'default':
        kw['how'] = case['how']
    if case['central'] is not None:
        kw['central_longitude'] = case['central']
    if not case['coast']:
        kw['coastlines'] = False
    if how.startswith('contour'):
        for k in ('vmin', 'vmax'):
            kw.pop(k, None)
    axes = expected_axes(case)
    if axes is None:
        # The X axis is along the longitude, the Y axis along the latitude; what is left is on the other
        if 'longitude' in dims:
            axes = 'longitude', [d for d in dims if d != 'longitude'][0]
        elif 'latitude' in dims:
            axes = [d for d in dims if d != 'latitude'][0], 'latitude'
    with offline() as plt:
        with ctx.sut('plotting'):
            ax = obj.plot(**kw)
            fig = plt.gcf()
            fig.canvas.draw()
        if axes is None:
            got = [[d for d in dims if d in t] for t in (ax.get_xlabel(), ax.get_ylabel())]
            check(sorted(sum(got, [])) == sorted(dims) and all(got), 'the axes are %s', got)
            axes = got[0][0], got[1][0]
        xn, yn = axes
        is_map = axes == ('longitude', 'latitude')
        v = vals if dims == [yn, xn] else vals.T
        px, py = np.array(case['data']['points'][xn], float), np.array(case['data']['points'][yn], float)
        shift, up = (-EPOCH if n == 'time' else 0. for n in (xn, yn))
        main = [c for c in ax.collections]
        check(main, 'nothing is drawn')
        art = main[0]
        if how == 'heatmap':
            a = gen.filled(art.get_array())
            check(gen.same(a.ravel(), v.ravel()), 'cells of %s instead of %s', a.tolist(), v.tolist())
            grid = np.asarray(art.get_coordinates(), float)
            ex, ey = np.meshgrid(edges(case, xn) + shift, edges(case, yn) + up)
            check(grid.shape[:2] == ex.shape, 'cells with edges %s', grid.tolist())
            check(gen.same(grid[..., 0], ex, rtol=1e-11) and gen.same(grid[..., 1], ey), 'edges at %s instead of %s and %s',
                  grid.tolist(), ex[0].tolist(), ey[:, 0].tolist())
        elif how == 'scatter2d':
            xx, yy = np.meshgrid(px + shift, py + up)
            scattered(art, xx.ravel(), yy.ravel(), v.ravel(), case['data']['circular'] and 'longitude' in axes)
        else:
            levels = case['opts'].get('contlevels')
            if levels is None and not case['opts'].get('vstep'):
                levels = case['opts'].get('contnlevels', 7)
            if levels is None:
                lv = np.asarray(art.levels)
                check(np.allclose(np.diff(lv), case['opts']['vstep']), 'contours at %s with a step of %g', lv, case['opts']['vstep'])
                check(lv[0] <= good.min() and lv[-1] >= good.max() or how == 'contour' and lv[0] <= good.min() + case['opts']['vstep']
                      and lv[-1] >= good.max() - case['opts']['vstep'], 'contours at %s of data from %g to %g', lv, good.min(), good.max())
                levels = lv
            masked = np.ma.masked_invalid(v)
            answers = []
            for wrap in ([False, True] if case['data']['circular'] and 'longitude' in axes else [False]):
                X, Y, Z = px + shift, py + up, masked
                if wrap:
                    first = [slice(None), slice(0, 1)] if xn == 'longitude' else [slice(0, 1), slice(None)]
                    Z = np.ma.concatenate([Z, Z[tuple(first)]], axis=1 if xn == 'longitude' else 0)
                    ext = lambda p: np.append(p, 2 * p[-1] - p[-2])
                    X, Y = (ext(X), Y) if xn == 'longitude' else (X, ext(Y))
                fig2 = plt.figure()
                if is_map:
                    import cartopy.crs as ccrs
                    ax2 = fig2.add_subplot(projection=ax.projection)
                    extra = dict(transform=ccrs.PlateCarree())
                else:
                    ax2 = fig2.add_subplot()
                    extra = {}
                X, Y = np.meshgrid(X, Y)
                cs = (ax2.contour if how == 'contour' else ax2.contourf)(X, Y, Z, levels, **extra)
                answers.append((np.asarray(cs.levels), vertices(cs)))
            got = np.asarray(art.levels), vertices(art)
            check(any(gen.same(got[0], a[0]) and len(got[1]) == len(a[1]) and
                      all(p.shape == q.shape and np.allclose(p, q, atol=1e-5) for p, q in zip(got[1], a[1])) for a in answers),
                  'contours at %s through %s instead of %s', got[0], [p.tolist() for p in got[1]],
                  [(a[0], [p.tolist() for p in a[1]]) for a in answers])
        if is_map and how in ('heatmap', 'scatter2d'):
            on_map(ax, art.get_transform() if how == 'heatmap' else art.get_offset_transform(), px, py)
        if 'vmin' in kw:
            check(art.norm.vmin == kw['vmin'] and art.norm.vmax == kw['vmax'], 'colours from %s to %s', art.norm.vmin, art.norm.vmax)
        if xn == 'time':
            times_shown(ax.xaxis, px + shift, px)
        if yn == 'time':
            times_shown(ax.yaxis, py + up, py)
        if not is_map:
            label_has(ax.get_xlabel(), obj.coord(xn), 'the x axis')
            label_has(ax.get_ylabel(), obj.coord(yn), 'the y axis')
            check((ax.get_ylim()[0] > ax.get_ylim()[1]) == (yn == 'air_pressure'), 'the y axis goes from %g to %g', *ax.get_ylim())
        colour_bar(fig, ax, case, obj)


def on_map(ax, transform, lons, lats):
    """Longitudes and latitudes are at their place on the map."""
    lon0 = ax.projection.proj4_params.get('lon_0') or ax.projection.proj4_params.get('pm', 0.)
    for lon, lat in [(lons[0], lats[0]), (lons[-1], lats[-1])]:
        x, y = ax.transData.inverted().transform(transform.transform((lon, lat)))
        check(abs(y - lat) < 1e-6 and abs((x + lon0 - lon + 180) % 360 - 180) < 1e-6, '%g, %g is drawn at %g, %g', lon, lat, x + lon0, y)


def colour_bar(fig, ax, case, obj):
    bars = [a for a in fig.axes if a is not ax]
    want = 'my label' if case['label'] else obj.name()
    if case['opts'].get('colourbar', True):
        check(len(bars) == 1, '%d colour bars', len(bars))
        text = bars[0].get_xlabel() + bars[0].get_ylabel()
        check(want in text, 'the colour bar is labelled %r', text)
    else:
        check(not bars, '%d colour bars', len(bars))
        check(want in ax.get_title(), 'the title is %r', ax.get_title())


def scattered(art, x, y, v, wraps=False):
    off = np.ma.asarray(art.get_offsets())
    a = gen.filled(art.get_array()).ravel()
    keep = ~np.ma.getmaskarray(off).any(axis=1) & np.isfinite(a)
    got = np.column_stack([gen.filled(off)[keep], a[keep]])
    ok = np.isfinite(v) & np.isfinite(x) & np.isfinite(y)
    want = np.column_stack([x, y, v])[ok]
    order = lambda m: m[np.lexsort(np.round(m, 9).T)]
    if wraps and len(got) != len(want):
        # (a global grid may be closed by repeating its first longitude)
        got = np.array([g for g in got if any(np.allclose(g, w) for w in want)]).reshape(-1, 3)
    check(gen.same(order(got), order(want), rtol=1e-11), 'points %s drawn instead of %s', order(got).tolist(), order(want).tolist())

# --- Several data sets -----------------------------------------------------------------------------------------------

def data_sets(min_vars=3):
    return cli.files(st, min_vars=min_vars, max_vars=3, points_kw=dict(min_n=3, two_d=True), max_files=1)


@st.composite
def compare(draw):
    data = draw(data_sets())
    how = draw(st.sampled_from(['histogram', 'histogram2d', 'comparativescatter', 'taylor', 'taylor', 'taylor', 'scatter2d']))
    case = dict(data=data, how=how)
    if how.startswith('histogram'):
        case['bins'] = draw(st.one_of(st.none(), st.integers(1, 12)))
        case['ybins'] = draw(st.one_of(st.none(), st.integers(1, 12)))
        case['style'] = draw(st.sampled_from([None, None, 'step', 'bar', 'stepfilled']))
        case['logv'] = draw(st.integers(0, 3)) == 0
    case['coordinate'] = draw(st.integers(0, 3)) == 0
    if how == 'scatter2d':
        case['axes'] = draw(st.permutations(data['data']['coords'] if data['kind'] == 'ungridded' else []))[:2]
        if draw(st.booleans()):
            case['axes'] = ['longitude', 'latitude']
    if how == 'taylor':
        case['labels'] = draw(st.booleans())
        case['n'] = draw(st.integers(2, 3))
        opts = {}
        if draw(st.integers(0, 4)) == 0:
            opts['logv'] = True
        if draw(st.integers(0, 2)) == 0:
            opts['gammamax'] = draw(gen.fixed(1, 40, 10))
        if draw(st.integers(0, 2)) == 0:
            opts['extend'] = draw(st.sampled_from([-0.5, -1., 0.]))
        if draw(st.integers(0, 2)) == 0:
            opts['fold'] = True
        if draw(st.booleans()):
            opts['bias'] = draw(st.sampled_from(['size', 'colour', 'color', 'flag']))
            if draw(st.booleans()):
                opts['stdbiasmax'] = draw(gen.fixed(1, 20, 10))
        if draw(st.booleans()):
            opts['solid'] = True
        case['opts'] = opts
    return case


def decide_compare(case, ctx):
    objs = cli.objects(case['data'])
    raw = [gen.filled(o.data).ravel() for o in objs]
    a, b = raw[0], raw[1]
    both = np.isfinite(a) & np.isfinite(b)
    ctx.tag(case['how'], case['data']['kind'])
    ctx.nontrivial(both.sum() > 1)
    if not both.any():
        return
    decider = dict(histogram=a_histogram, histogram2d=a_histogram2d, comparativescatter=a_comparison, taylor=a_taylor,
                   scatter2d=a_scatter)[case['how']]
    with offline() as plt:
        decider(case, ctx, plt, objs, raw, both)


def a_histogram(case, ctx, plt, objs, raw, both):
    kw = {}
    if case['bins']:
        kw['xbins'] = case['bins']
    if case['style']:
        kw['itemstyle'] = case['style']
    with ctx.sut('plotting'):
        ax = objs[0].plot(how='histogram', **kw)
        plt.gcf().canvas.draw()
    vals = raw[0][np.isfinite(raw[0])]
    counts, edges_ = np.histogram(vals, bins=case['bins'] or 10)
    if case['style'] in (None, 'bar'):
        got = [(p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in ax.patches]
        want = list(zip(edges_[:-1], edges_[1:], counts))
        check(gen.same(np.array(got), np.array(want)), 'bars %s instead of %s', got, want)
    else:
        check(len(ax.patches) == 1, '%d patches', len(ax.patches))
        xy = np.unique(np.round(ax.patches[0].get_xy(), 9), axis=0)
        corners = [(edges_[0], 0), (edges_[-1], 0)]
        for lo, hi, n in zip(edges_[:-1], edges_[1:], counts):
            corners += [(lo, n), (hi, n)]
        want = np.unique(np.round(np.array(corners), 9), axis=0)
        inside = [c for c in want.tolist() if min(np.abs(xy - c).sum(axis=1)) > 1e-6]
        outside = [c for c in xy.tolist() if min(np.abs(want - c).sum(axis=1)) > 1e-6 and c[1] != 0]
        check(not inside and not outside, 'steps through %s instead of %s', xy.tolist(), want.tolist())
    check(objs[0].name() in ax.get_xlabel() and 'Frequency' in ax.get_ylabel(), 'labels %r %r', ax.get_xlabel(), ax.get_ylabel())
    check(ax.get_ylim()[0] < ax.get_ylim()[1], 'the y axis goes from %g to %g', *ax.get_ylim())


def a_pair(case, ctx, plt, objs, raw, **kw):
    """Draws the first data set on the x, the second on the y axis; or else a coordinate."""
    from cis.data_io.ungridded_data import UngriddedData
    coordinate = case['coordinate'] and case['data']['kind'] == 'ungridded'
    with ctx.sut('plotting'):
        if coordinate:
            x = objs[1].coord(standard_name='latitude')
            raw = [gen.filled(x.points).ravel(), raw[1]]
            from cis.plotting.plot import plot_types
            ax = plt.figure().add_subplot()
            plot_types[case['how']](objs[1], xaxis=x, yaxis=objs[1], **kw)(ax)
        elif case['bins' if 'bins' in case else 'coordinate']:
            ax = objs[1].plot(how=case['how'], xaxis=objs[0], **kw)
            x = objs[0]
        else:
            ax = cli.listed(objs[:2]).plot(how=case['how'], **kw)
            x = objs[0]
        plt.gcf().canvas.draw()
    check(x.name() in ax.get_xlabel() and objs[1].name() in ax.get_ylabel(), 'labels %r %r', ax.get_xlabel(), ax.get_ylabel())
    line = ax.lines[-1]
    check(np.array_equal(line.get_xdata(), line.get_ydata()), 'a line through %s and %s', line.get_xdata(), line.get_ydata())
    return ax, raw


def a_comparison(case, ctx, plt, objs, raw, both):
    ax, raw = a_pair(case, ctx, plt, objs, raw)
    check(len(ax.lines) == 2, '%d lines', len(ax.lines))
    xs, ys = (gen.filled(d).ravel() for d in ax.lines[0].get_data())
    check(gen.same(xs, raw[0]) and gen.same(ys, raw[1]), 'points at %s and %s instead of %s and %s', xs.tolist(), ys.tolist(),
          raw[0].tolist(), raw[1].tolist())


def a_histogram2d(case, ctx, plt, objs, raw, both):
    kw = {}
    if case['bins']:
        kw['xbins'] = case['bins']
    if case['ybins']:
        kw['ybins'] = case['ybins']
    if case['logv']:
        kw['logv'] = True
    ax, raw = a_pair(case, ctx, plt, objs, raw, **kw)
    both = np.isfinite(raw[0]) & np.isfinite(raw[1])
    counts, ex, ey = np.histogram2d(raw[0][both], raw[1][both], bins=[case['bins'] or 10, case['ybins'] or 10])
    art = ax.collections[0]
    shown = gen.filled(art.get_array()).ravel()
    # (the cells without points are left out)
    got = {}
    quads = [np.round([p.vertices.min(axis=0), p.vertices.max(axis=0)], 6) for p in art.get_paths()]
    check(len(quads) == shown.size, '%d cells with %d values', len(quads), shown.size)
    got = sorted(q.ravel().tolist() + [v] for q, v in zip(quads, shown) if np.isfinite(v))
    want = sorted(np.round([ex[i], ey[j], ex[i + 1], ey[j + 1]], 6).tolist() + [counts[i, j]]
                  for i in range(counts.shape[0]) for j in range(counts.shape[1]) if counts[i, j])
    check(len(got) == len(want) and np.allclose(got, want, atol=1e-5), 'cells %s instead of %s', got, want)
    check((type(art.norm).__name__ == 'LogNorm') == case['logv'], 'colours by %s', type(art.norm).__name__)


def a_scatter(case, ctx, plt, objs, raw, both):
    if case['data']['kind'] != 'ungridded':
        return
    xn, yn = case['axes']
    with ctx.sut('plotting'):
        ax = objs[0].plot(how='scatter2d', xaxis=xn, yaxis=yn)
        plt.gcf().canvas.draw()
    x, y = (gen.col(case['data']['data'], n) - (EPOCH if n == 'time' else 0.) for n in (xn, yn))
    scattered(ax.collections[0], x, y, raw[0])
    if (xn, yn) == ('longitude', 'latitude'):
        on_map(ax, ax.collections[0].get_offset_transform(), x, y)
    if 'time' == xn:
        times_shown(ax.xaxis, x, x + EPOCH)
    if 'time' == yn:
        times_shown(ax.yaxis, y, y + EPOCH)
    if (xn, yn) != ('longitude', 'latitude'):
        label_has(ax.get_xlabel(), objs[0].coord(xn), 'the x axis')
        label_has(ax.get_ylabel(), objs[0].coord(yn), 'the y axis')
        check((ax.get_ylim()[0] > ax.get_ylim()[1]) == (yn == 'air_pressure'), 'the y axis goes from %g to %g', *ax.get_ylim())


def taylor_answer(raw, opts):
    """(correlation, standard deviation, bias), the latter two over the standard deviation of the first data set."""
    if opts.get('logv'):
        with np.errstate(all='ignore'):
            raw = [np.where(r > 0, np.log(np.where(r > 0, r, 1.)), np.nan) for r in raw]
    out = []
    for r in raw:
        both = np.isfinite(r) & np.isfinite(raw[0])
        if both.sum() < 2 or min(np.std(r[both]), np.std(raw[0][both])) < 1e-6:
            return None
        corr = np.corrcoef(r[both], raw[0][both])[0, 1]
        out.append([corr, np.nanstd(r, ddof=1), np.nanmean(r)])
    out = np.array(out)
    bias = (out[:, 2] - out[0, 2]) / out[0, 1]
    return np.clip(out[:, 0], -1, 1), out[:, 1] / out[0, 1], bias


def a_taylor(case, ctx, plt, objs, raw, both):
    objs, raw, opts = objs[:case['n']], raw[:case['n']], case['opts']
    answer = taylor_answer(raw, opts)
    if answer is None:
        return
    corr, gamma, bias = answer
    extend, gmax, bmax = opts.get('extend', 0.), opts.get('gammamax'), opts.get('stdbiasmax')
    # what is shown must not depend on rounding, and something must be on show for the range of biases
    if min(abs(corr - extend)) < 1e-6 or (gmax and min(abs(gamma - gmax)) < 1e-6) or (bmax and min(abs(abs(bias) - bmax)) < 1e-6):
        return
    if opts.get('bias') and max(abs(bias)) < 1e-6:
        return
    layer_opts = [dict(label='set %d' % i) for i in range(len(objs))] if case['labels'] else None
    with ctx.sut('plotting'):
        ax = cli.listed(objs).plot(how='taylor', layer_opts=layer_opts, **opts)
        plt.gcf().canvas.draw()
    ax2 = ax.parasites[0]
    labels = [('set %d' % i if case['labels'] else o.name()) for i, o in enumerate(objs)]
    if extend > -1:
        labels = [l + (' $-$' if c < extend else '') for l, c in zip(labels, corr)]
        if opts.get('fold'):
            corr = abs(corr) if extend == 0 else np.maximum(corr, extend)
    # (the largest of those which are not out of range otherwise)
    shown = gmax or np.max(gamma if not (opts.get('bias') and bmax) else gamma[abs(bias) <= bmax])
    gmax = shown * (1 + 1e-12)
    if gmax:
        labels = [l + (' $>$' if g > gmax else '') for l, g in zip(labels, gamma)]
        if opts.get('fold'):
            gamma = np.minimum(gamma, gmax)
    if opts.get('bias') and bmax:
        labels = [l + (' B-' if s < -bmax else ' B+' if s > bmax else '') for l, s in zip(labels, bias)]
        if opts.get('fold'):
            bias = np.clip(bias, -bmax, bmax)
    legend = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
    ctx.tag('bias %s' % opts.get('bias'))
    if opts.get('bias') in ('color', 'colour'):
        arts = ax2.collections
        check(len(arts) == len(objs), '%d points', len(arts))
        got = np.array([a.get_offsets()[0].tolist() + [float(a.get_array()[0])] for a in arts])
        check(gen.same(got, np.column_stack([corr, gamma, bias]), rtol=1e-6, atol=1e-6), 'points %s instead of %s',
              got.tolist(), [corr, gamma, bias])
        names = [a.get_label() for a in arts]
    else:
        arts = [l for l in ax2.lines if l.get_linestyle() == 'None']
        check(len(arts) == len(objs), '%d points', len(arts))
        got = np.array([[np.ravel(a.get_xdata())[0], np.ravel(a.get_ydata())[0]] for a in arts], float)
        check(gen.same(got, np.column_stack([corr, gamma]), rtol=1e-6, atol=1e-6), 'points %s instead of %s', got.tolist(),
              [corr, gamma])
        names = [a.get_label() for a in arts]
        if opts.get('bias') == 'size':
            marks = ['v' if s < 0 else '^' if s > 0 else 's' for s in np.round(bias, 9)]
            check([a.get_marker() for a in arts] == marks, 'markers %s for biases of %s', [a.get_marker() for a in arts], bias)
            sizes = np.array([a.get_markersize() for a in arts])
            order = np.argsort(abs(bias))
            check((np.diff(sizes[order]) >= -1e-9).all(), 'sizes %s for biases of %s', sizes, bias)
    check(names == labels, 'the points are labelled %s instead of %s', names, labels)


# --- The command -----------------------------------------------------------------------------------------------------

COLOURS = ['red', 'blue', 'green', 'darkorange']
UNIQUE = ['alpha', 'beta', 'gamma']


@st.composite
def limits(draw, dim, values, positive=False):
    """Some of minimum, maximum and step of an axis, as numbers: within or around the values shown."""
    out = {}
    lo, hi = min(values), max(values)
    span = (hi - lo) or 1.
    for k, centre in (('min', lo), ('max', hi)):
        if draw(st.booleans()):
            v = centre + draw(gen.fixed(-0.3, 0.3, 10)) * span
            v = round(v * 24) / 24. if dim == 'time' else round(v, 3)
            out[k] = max(v, lo / 2 if positive else -1e9)
    if 'min' in out and 'max' in out and out['max'] - out['min'] < span / 10:
        del out['max']
    if draw(st.integers(0, 2)) == 0 and not positive:
        out['step'] = max(round(span / draw(st.integers(2, 7)), 2), 0.01) if dim != 'time' else draw(st.sampled_from([1, 2, 5]))
    return out


@st.composite
def command(draw):
    chart = draw(st.sampled_from(['series', 'series', 'field', 'field', 'points']))
    if chart == 'series':
        kind = draw(st.sampled_from(['gridded', 'ungridded']))
        dim = draw(st.sampled_from(COORDS))
        data = draw(cli.files(st, kinds=(kind,), min_vars=3, max_files=1, grid_kw=dict(dims=[dim], min_n=3, max_n=6),
                              points_kw=dict(min_n=3, max_n=6, coords=[dim], clustered=False)))
        n = draw(st.integers(1, 3))
        x = y = dim
    else:
        dims = draw(st.sampled_from([['latitude', 'longitude'], ['longitude', 'latitude'], ['time', 'latitude'],
                                     ['altitude', 'time'], ['longitude', 'air_pressure'], ['altitude', 'latitude']]))
        kind = 'ungridded' if chart == 'points' else 'gridded'
        data = draw(cli.files(st, kinds=(kind,), min_vars=3, max_files=1, grid_kw=dict(dims=dims, min_n=3, max_n=6),
                              points_kw=dict(min_n=3, max_n=6, coords=dims, clustered=False)))
        n = draw(st.sampled_from([1, 1, 2]))
        x, y = dims
    if len(set(axis_values(data, x))) < 2:
        data = dict(data, kind='')
    case = dict(chart=chart, data=data, x=x, y=y, options={}, layers=[])
    same_type = draw(st.booleans())
    for i in range(n):
        layer = {}
        if chart == 'series':
            kinds = [None, 'line', 'scatter']
        elif chart == 'points':
            kinds = ['scatter2d']
        else:
            kinds = ['heatmap', 'contourf', 'contour', 'scatter2d'] + [None] * (n == 1)
        layer['type'] = draw(st.sampled_from(kinds)) if i == 0 or not same_type else case['layers'][0]['type']
        if draw(st.booleans()):
            layer['label'] = UNIQUE[i]
        if layer['type'] in (None, 'line', 'scatter') and chart == 'series':
            if draw(st.booleans()):
                layer['color'] = draw(st.sampled_from(COLOURS))
            if draw(st.integers(0, 2)) == 0:
                layer['itemwidth'] = draw(st.integers(1, 9))
        else:
            if draw(st.booleans()):
                layer['cmap'] = draw(st.sampled_from(['viridis', 'RdBu', 'Blues']))
            if draw(st.booleans()):
                layer['vmin'], layer['vmax'] = draw(gen.fixed(-20, 0)), draw(gen.fixed(1, 20))
            if draw(st.integers(0, 2)) == 0:
                layer['cbarlabel'] = 'bar ' + UNIQUE[i]
            if draw(st.integers(0, 2)) == 0:
                layer['cbarorient'] = draw(st.sampled_from(['horizontal', 'vertical']))
            if draw(st.integers(0, 3)) == 0:
                layer['colourbar'] = draw(st.sampled_from(['False', 'true']))
            if layer['type'] in ('contour', 'contourf'):
                if draw(st.booleans()):
                    layer['contlevels'] = sorted(draw(st.lists(gen.fixed(-50, 50), min_size=2, max_size=4, unique=True)))
                if layer['type'] == 'contour' and draw(st.booleans()):
                    layer['contlabel'] = 'true'
        if draw(st.integers(0, 2)) == 0:
            layer['alpha'] = draw(st.sampled_from([0.25, 0.5]))
        case['layers'].append(layer)
    case['global_type'] = same_type and draw(st.booleans())
    # Options of the whole
    o = case['options']
    for name, value in (('xlabel', 'Along the X'), ('ylabel', 'Along the Y'), ('title', 'My: title')):
        if draw(st.integers(0, 2)) == 0:
            o[name] = value
    if draw(st.integers(0, 2)) == 0:
        o['fontsize'] = draw(st.sampled_from([6, 15, 22.5]))
    for name in ('width', 'height'):
        if draw(st.integers(0, 2)) == 0:
            o[name] = draw(gen.fixed(3, 14, 2))
    if draw(st.integers(0, 2)) == 0:
        o['grid'] = True
    is_map = (x, y) == ('longitude', 'latitude')
    if chart != 'series' and draw(st.integers(0, 3)) == 0 and not any('vmin' in l for l in case['layers']):
        o['vmin'], o['vmax'] = draw(gen.fixed(-20, 0)), draw(gen.fixed(1, 20))
    if chart != 'series' and draw(st.integers(0, 4)) == 0:
        o['colourbar'] = False
    xs = axis_values(data, x)
    if is_map and data['kind'] and chart != 'series':
        start = -180 if min(xs) < 0 else 0
        for a, lo, hi in (('x', start, start + 360), ('y', -90, 90)):
            vs = axis_values(data, a == 'x' and x or y)
            if len(set(vs)) < 2:
                continue
            for k, v in draw(limits('', vs)).items():
                if k != 'step':
                    o[a + k] = min(max(v, lo), hi)
    if not is_map and data['kind']:
        log = draw(st.sampled_from(['', '', 'x', 'y', 'xy']))
        if min(xs) <= 0 or x == 'time' or (chart != 'series' and (min(axis_values(data, y)) <= 0 or y == 'time')):
            log = ''
        if chart == 'series':
            log = log.replace('y', '')
        for a in log:
            o['log' + a] = True
        for k, v in draw(limits(x, xs, 'x' in log)).items():
            o['x' + k] = v
        ys = axis_values(data, y) if chart != 'series' else [-20, 20]
        if len(set(ys)) > 1:
            for k, v in draw(limits(y if chart != 'series' else '', ys, 'y' in log)).items():
                o['y' + k] = v
    case['output'] = draw(st.sampled_from(['', '', 'p', 'p.png', 'p.pdf', 'p.svg']))
    case['typed'] = draw(st.integers(0, 5))
    return case


def axis_values(data, dim):
    if data['kind'] == 'gridded':
        return data['data']['points'][dim]
    return gen.col(data['data'], dim).tolist() if data['kind'] else [0.]


def as_date(days, style):
    import datetime
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=round((days - EPOCH) * 86400) / 86400.)
    t = t.replace(microsecond=0)
    if t.hour == t.minute == t.second == 0 and style % 2:
        return t.strftime('%Y-%m-%d')
    return t.strftime('%Y-%m-%d') + 'T: '[style % 3] + t.strftime('%H:%M:%S')


def limit_misses(case, raw):
    """Whether a limit is the only one of its axis, and beyond the other one, which is left to what is drawn."""
    o, d = case['options'], case['data']
    for axis, dim in (('x', case['x']), ('y', case['y'])):
        seen = []
        for v in raw:
            if axis == 'y' and case['chart'] == 'series':
                p = v
            elif d['kind'] == 'gridded':
                shape = [-1 if name == dim else 1 for name in d['data']['dims']]
                p = np.broadcast_to(np.array(axis_values(d, dim)).reshape(shape), v.shape)
            else:
                p = np.array(axis_values(d, dim)).reshape(v.shape)
            seen += p[np.isfinite(v)].tolist()
        if axis + 'min' in o and axis + 'max' not in o and o[axis + 'min'] >= max(seen):
            return True
        if axis + 'max' in o and axis + 'min' not in o and o[axis + 'max'] <= min(seen):
            return True
    return False


def decide_command(case, ctx):
    if not case['data']['kind']:
        return
    d = case['data']
    objs = cli.objects(d)[:len(case['layers'])]
    folder = ctx.dir()
    path = os.path.join(folder, 'in:put.nc' if d['colon'] else 'input.nc')
    cli.listed(objs).save_data(path) if len(objs) > 1 else objs[0].save_data(path)
    args = ['plot']
    series = case['chart'] == 'series'
    raw = [gen.filled(o.data) for o in objs]
    good = [r[np.isfinite(r)] for r in raw]
    if any(g.size == 0 for g in good) or any(g.min() == g.max() for g in good):
        return
    if limit_misses(case, raw):
        return
    ctx.nontrivial(True)
    for k, (obj, layer) in enumerate(zip(objs, case['layers'])):
        opts = []
        for name in sorted(layer, reverse=case['typed'] % 2):
            v = layer[name]
            if v is None or (name == 'type' and case['global_type']):
                continue
            if name == 'contlevels':
                v = '[' + ','.join(cli.number(x, case['typed']) for x in v) + ']'
            elif isinstance(v, float):
                v = cli.number(v, case['typed'])
            opts.append('%s=%s' % (name, v))
        args.append('%s:%s' % (obj.var_name, cli.escape(path)) + (':' + ','.join(opts) if opts else ''))
        ctx.tag('type %s' % layer['type'])
    if case['global_type'] and case['layers'][0]['type']:
        args += ['--type', case['layers'][0]['type']]
    args += ['--xaxis', case['x']]
    if not series:
        args += ['--yaxis', case['y']]
    o = case['options']
    for name, v in o.items():
        if name == 'colourbar':
            args.append('--nocolourbar')
        elif v is True:
            args.append('--' + name)
        elif isinstance(v, str):
            args += ['--' + name, v]
        else:
            axis = case['x'] if name[0] == 'x' else case['y'] if name[0] == 'y' and not series else ''
            if name[1:] in ('min', 'max', 'step') and axis == 'time':
                text = 'P%dD' % v if name[1:] == 'step' else as_date(v, case['typed'])
            else:
                text = cli.number(v, case['typed'])
            args.append('--%s=%s' % (name, text))
    out = None
    if case['output']:
        out = os.path.join(folder, case['output'])
        args += ['-o', out]
    with offline() as plt:
        res = cli.run(args)
        check(res.ok, '%s failed: %s', args, res)
        check(len(plt.get_fignums()) == 1, '%d figures', len(plt.get_fignums()))
        fig = plt.gcf()
        fig.canvas.draw()
        if out:
            out += '' if '.' in case['output'] else '.png'
            head = {'png': b'\x89PNG', 'pdf': b'%PDF', 'svg': b'<?xml'}[out.rsplit('.', 1)[1]]
            check((cli.stamp(out) or b'').startswith(head), 'no %s file', out)
        a_command(case, ctx, fig, objs, raw)


def a_map(case, ax, raw, types):
    """What a map shows."""
    o, d = case['options'], case['data']
    x1, x2, y1, y2 = ax.get_extent()
    lon0 = ax.projection.proj4_params.get('lon_0') or ax.projection.proj4_params.get('pm', 0.)
    x1, x2 = x1 + lon0, x2 + lon0
    shown = 'a map of longitudes %g to %g (turning by 360), latitudes %g to %g' % (x1, x2, y1, y2)
    tol = 1e-3
    for k, got in (('ymin', y1), ('ymax', y2)):
        check(k not in o or abs(got - o[k]) < tol, '%s for %s', shown, o)
    for k, got in (('xmin', x1), ('xmax', x2)):
        check(k not in o or abs((got - o[k] + 180) % 360 - 180) < tol, '%s for %s', shown, o)
    if 'xmin' in o and 'xmax' in o:
        check(abs((x2 - x1) - (o['xmax'] - o['xmin'])) < tol, '%s for %s', shown, o)
    # the points within the limits are on the map
    lons, lats = (np.array(axis_values(d, n)) for n in ('longitude', 'latitude'))
    if d['kind'] == 'gridded':
        lons, lats = np.meshgrid(lons, lats)
        if d['data']['dims'] == ['longitude', 'latitude']:
            lons, lats = lons.T, lats.T
    for v in raw:
        for lon, lat in zip(lons[np.isfinite(v)], lats[np.isfinite(v)]):
            if abs((lon - lon0) % 360 - 180) < tol:
                continue        # (on the edge of the projection: drawn at one of its two sides only)
            if o.get('ymin', -90) <= lat <= o.get('ymax', 90) and o.get('xmin', -1e3) <= lon <= o.get('xmax', 1e3):
                check(y1 - tol <= lat <= y2 + tol and (lon - x1 + tol) % 360 <= x2 - x1 + 2 * tol, '%s does not show %g, %g', shown, lon, lat)


def a_command(case, ctx, fig, objs, raw):
    series, o, n = case['chart'] == 'series', case['options'], len(case['layers'])
    x, y = case['x'], case['y']
    ax = fig.axes[0]
    is_map = (x, y) == ('longitude', 'latitude') and not series
    # The layers
    if series:
        check(len(ax.lines) == n, '%d lines', len(ax.lines))
        for line, layer, v, obj in zip(ax.lines, case['layers'], raw, objs):
            check(gen.same(gen.filled(line.get_ydata()).ravel(), v.ravel()), 'values %s instead of %s', line.get_ydata(), v.tolist())
            xs = np.array(axis_values(case['data'], x)) - (EPOCH if x == 'time' else 0.)
            check(gen.same(gen.filled(line.get_xdata()).ravel(), xs, rtol=1e-11), 'at %s instead of %s', line.get_xdata(), xs.tolist())
            check((line.get_linestyle() == 'None') == (layer['type'] == 'scatter'), 'a %s of %r', layer['type'], line.get_linestyle())
            from matplotlib.colors import to_rgb
            if 'color' in layer:
                check(to_rgb(line.get_color()) == to_rgb(layer['color']), 'colour %s for %s', line.get_color(), layer['color'])
            if 'itemwidth' in layer:
                w = line.get_markersize() if layer['type'] == 'scatter' else line.get_linewidth()
                check(w == layer['itemwidth'], 'width %s for %s', w, layer['itemwidth'])
            check(line.get_alpha() == layer.get('alpha'), 'alpha %s for %s', line.get_alpha(), layer.get('alpha'))
    else:
        # (contours: one set of them per layer)
        arts = [c for c in ax.collections if type(c).__name__ != 'PolyQuadMesh']     # (cells across the edge of a map)
        check(len(arts) == n, '%d layers: %s', len(arts), arts)
        for art, layer, v, obj in zip(arts, case['layers'], raw, objs):
            kind = layer['type'] or 'heatmap'
            want = dict(heatmap='QuadMesh', contour='QuadContourSet', contourf='QuadContourSet', scatter2d='PathCollection')[kind]
            check(want in type(art).__name__.replace('GeoContourSet', 'QuadContourSet').replace('GeoQuadMesh', 'QuadMesh'),
                  'a %s instead of a %s', type(art).__name__, kind)
            if 'cmap' in layer:
                check(art.get_cmap().name == layer['cmap'], 'colours %s for %s', art.get_cmap().name, layer['cmap'])
            vmin, vmax = layer.get('vmin', o.get('vmin')), layer.get('vmax', o.get('vmax'))
            if vmin is not None:
                check(art.norm.vmin == vmin and art.norm.vmax == vmax, 'colours from %s to %s', art.norm.vmin, art.norm.vmax)
            if 'contlevels' in layer:
                check(list(art.levels) == layer['contlevels'], 'contours at %s', art.levels)
            if kind == 'scatter2d':
                px, py = (np.array(axis_values(case['data'], q)) - (EPOCH if q == 'time' else 0.) for q in (x, y))
                if case['chart'] == 'field':
                    px, py = (m.ravel() for m in np.meshgrid(px, py))
                    v = v.T if case['data']['data']['dims'] == [x, y] else v
                scattered(art, px, py, v.ravel(), case['chart'] == 'field' and case['data']['data']['circular'])
            elif kind == 'heatmap':
                a = np.sort(gen.filled(art.get_array()).ravel())
                check(gen.same(a, np.sort(v.ravel())), 'cells of %s instead of %s', a.tolist(), np.sort(v.ravel()).tolist())
            check(art.get_alpha() == layer.get('alpha'), 'alpha %s for %s', art.get_alpha(), layer.get('alpha'))
        # The colour bars
        bars = fig.axes[1:]
        shown = [l for l in case['layers'] if l.get('colourbar', str(o.get('colourbar', True))).lower() == 'true']
        check(len(bars) == len(shown), '%d colour bars of %d layers', len(bars), len(shown))
        for bar, layer in zip(bars, shown):
            text = layer.get('cbarlabel') or layer.get('label') or objs[case['layers'].index(layer)].name()
            check(text in bar.get_xlabel() + bar.get_ylabel(), 'a colour bar labelled %r, %r not %r', bar.get_xlabel(), bar.get_ylabel(), text)
            if 'cbarorient' in layer:
                box = bar.get_position()
                wide = box.width * fig.get_figwidth() > box.height * fig.get_figheight()
                check(wide == (layer['cbarorient'] == 'horizontal'), 'a colour bar of %s for %s', box, layer['cbarorient'])
    # The legend
    if n > 1 and series:
        texts = [t.get_text() for t in ax.get_legend().get_texts()]
        want = [l.get('label', obj.name()) for l, obj in zip(case['layers'], objs)]
        check(texts == want, 'the legend says %s, not %s', texts, want)
    # The frame
    if 'xlabel' in o:
        check(ax.get_xlabel() == o['xlabel'], 'the x axis is labelled %r', ax.get_xlabel())
    elif not is_map:
        label_has(ax.get_xlabel(), objs[0].coord(x), 'the x axis')
    if 'ylabel' in o:
        check(ax.get_ylabel() == o['ylabel'], 'the y axis is labelled %r', ax.get_ylabel())
    elif not is_map:
        label_has(ax.get_ylabel(), objs[-1] if series else objs[0].coord(y), 'the y axis')
    if 'title' in o:
        check(ax.get_title() == o['title'], 'the title is %r', ax.get_title())
    if 'fontsize' in o:
        sizes = [ax.xaxis.label.get_size(), ax.yaxis.label.get_size()] + [t.get_size() for t in ax.get_xticklabels()[:1]]
        check(set(sizes) == {o['fontsize']}, 'text of sizes %s', sizes)
    width, height = o.get('width'), o.get('height')
    if width is None:
        width = height * 4 / 3. if height else 8
    if height is None:
        height = width * 3 / 4. if 'width' in o else 6
    check(gen.same(np.array(fig.get_size_inches()), np.array([width, height])), 'a figure of %s inches', fig.get_size_inches())
    if 'grid' in o and not is_map:
        check(all(g.get_visible() for g in ax.get_xgridlines() + ax.get_ygridlines()), 'no grid lines')
    if is_map:
        a_map(case, ax, raw, [l['type'] for l in case['layers']])
        return
    check(ax.get_xscale() == ('log' if o.get('logx') else 'linear'), 'the x axis is %s', ax.get_xscale())
    check(ax.get_yscale() == ('log' if o.get('logy') else 'linear'), 'the y axis is %s', ax.get_yscale())
    for a, dim in (('x', x), ('y', '' if series else y)):
        shift = EPOCH if dim == 'time' else 0.
        first, last = ax.get_xlim() if a == 'x' else ax.get_ylim()
        check((first > last) == (a == 'y' and dim == 'air_pressure'), 'the %s axis goes from %g to %g', a, first, last)
        lo, hi = sorted([first, last])
        tol = 1e-6 * max(abs(lo), abs(hi))
        for k, got in (('min', lo), ('max', hi)):
            if a + k in o:
                check(abs(got + shift - o[a + k]) <= tol, '%s%s of %r is %r', a, k, o[a + k] - shift, got)
        labels = ax.get_xticklabels() if a == 'x' else ax.get_yticklabels()
        inside = (ax.get_xticks() if a == 'x' else ax.get_yticks())
        check('log' + a in o or not any(lo <= t <= hi for t in inside) or any(l.get_visible() and l.get_text() for l in labels),
              'no numbers along the %s axis', a)
        if a + 'step' in o:
            ticks = np.array(ax.get_xticks() if a == 'x' else ax.get_yticks())
            step = o[a + 'step']
            want = lo + step * np.arange(int((hi - lo) / step + 1e-6) + 1)
            check(len(ticks) >= len(want) and np.allclose(np.sort(ticks)[:len(want)], want, atol=1e-6 * step + tol),
                  'ticks at %s with a step of %g from %g to %g', ticks, step, lo, hi)



SUBS = [Sub('series', series(), decide_series, quick=250, thorough=5000),
        Sub('field', field(), decide_field, quick=300, thorough=6000),
        Sub('compare', compare(), decide_compare, quick=300, thorough=6000),
        Sub('command', command(), decide_command, quick=200, thorough=4000)]
