"""Ungridded onto gridded collocation (bin and box) against a brute-force search over all cells."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, large
from vf.core import Sub, check
from vf.checks import C01

PROPERTY = dict(
    title='Points are collocated onto the right grid cells, with the right statistics',
    statement="""Collocating ungridded data onto a grid with bin gives in each cell the kernel of exactly the non-missing
    points inside the cell (cells given by the coordinate bounds, or the mid-points between grid points; lower edge
    inclusive, upper edge exclusive; longitudes taken round the globe), and with box the kernel of exactly the points
    within the separations of the grid point, missing where there are none. This holds for increasing and decreasing
    coordinates, any order of dimensions, uneven cells and cells with gaps, any longitude convention, and several
    variables at once; the output has the sample's dimensions (those the data has) in the sample's order. Where
    missing sample values are to be honoured exactly those cells are missing whose sample value is missing. The
    results have the names and units of the data (_std_dev and _num_points added for moments).""",
    text='all point sets, grids, kernels, separation limits and missing-value patterns',
    why="""The tests bin a few points into the same increasing 5x3 grid and some variations of it; indexing errors show
    only for particular combinations of direction, order of dimensions, bounds and edges.""",
    files=['cis/collocation/col_implementations.py', 'cis/collocation/data_index.py', 'cis/collocation/col_framework.py',
           'cis/data_io/hyperpoint_view.py', 'cis/data_io/gridded_data.py'],
    mechanism=[('GridCellBinIndexInSlices', 'cis/collocation/data_index.py'),
               ('GeneralGriddedCollocator.collocate', 'cis/collocation/col_implementations.py'),
               ('BinnedCubeCellOnlyConstraint', 'cis/collocation/col_implementations.py')],
    observe=['UngriddedData.collocated_onto', 'GriddedData.sampled_from'],
    note="""Hypothesis cases against brute force over all cells and points. Points on a cell edge are judged where the edge is
    a short binary fraction. Dimensions of a single point and data without any points are
    not generated.""")

RULE = ('A case is a grid, a set of points, a method, kernel and options. Non-trivial: at least one cell gets points and '
        'at least one cell or point does not take part, or two cells get different sets.')


@st.composite
def points_for(draw, grid, coords, n_max, missing=True):
    n = draw(st.integers(1, n_max))
    conv = draw(st.sampled_from([0, -180]))
    pts = []
    for _ in range(n):
        p = []
        for d in coords:
            if d not in grid['points']:
                v = {'time': 150000.0, 'altitude': 0.0, 'air_pressure': 500.0}.get(d, 0.0) + draw(st.integers(0, 40)) / 8.0
            else:
                cs = gen.cells(grid, d)
                lo, hi = min(c[0] for c in cs), max(c[1] for c in cs)
                where = draw(st.integers(0, 9))
                if where <= 2:
                    c = draw(st.sampled_from(cs))
                    v = draw(st.sampled_from([c[0], c[1], draw(st.sampled_from(grid['points'][d]))]))
                elif where == 3:
                    v = lo - draw(st.integers(0, 20)) * 0.5
                elif where == 4:
                    v = hi + draw(st.integers(0, 20)) * 0.5
                else:
                    v = lo + (hi - lo) * draw(st.integers(1, 199)) / 200.0
            if d == 'latitude':
                v = min(90.0, max(-90.0, v))
            elif d == 'longitude':
                v = float(gen.wrap_lon(v, conv))
            elif d == 'air_pressure':
                v = max(v, 1.0)
            p.append(round(v, 6))
        pts.append(p)
    vals = draw(st.lists(gen.values(missing), min_size=n, max_size=n))
    shape = [n // 2, 2] if n % 2 == 0 and n > 2 and draw(st.integers(0, 4)) == 0 else None
    return dict(coords=list(coords), pts=pts, vals=vals, shape=shape, force_mask=draw(st.booleans()))


def to_one_turn(grid):
    """Longitude cells spanning more than a turn make a point belong to two cells: keep to at most one turn."""
    if 'longitude' in grid['points']:
        cs = gen.cells(grid, 'longitude')
        return max(c[1] for c in cs) - min(c[0] for c in cs) <= 360 + 1e-9
    return True


@st.composite
def cases(draw, how):
    g = draw(gen.grid(bounds='gaps', max_n=4).filter(to_one_turn))
    extra = draw(st.lists(st.sampled_from([d for d in ('time', 'altitude', 'air_pressure') if d not in g['dims']]),
                          max_size=1))
    drop = []
    if draw(st.integers(0, 4)) == 0:
        drop = [d for d in g['dims'] if d not in ('latitude', 'longitude') or how == 'bin'][:1]
        if len(drop) == len(g['dims']):
            drop = []
    coords = draw(st.permutations([d for d in g['dims'] if d not in drop] + extra))
    if 'latitude' not in coords or 'longitude' not in coords:
        coords = coords + [d for d in ('latitude', 'longitude') if d not in coords and d not in drop]
    data = draw(points_for(g, coords, 12))
    vals2 = None
    if draw(st.integers(0, 2)) == 0:
        vals2 = draw(st.lists(gen.values(True), min_size=len(data['pts']), max_size=len(data['pts'])))
    kernels = [k for k in C01.KERNELS if C01.NEEDS.get(k) in [None] + [d for d in g['dims'] if d in coords]]
    if 'latitude' not in coords or 'longitude' not in coords:
        kernels = [k for k in kernels if k not in ('nn_h', 'nn_horizontal')]
    con = {}
    if how == 'box':
        if draw(st.integers(0, 5)):
            con['h_sep'] = draw(st.sampled_from([200, 700, 1500, 4000, 9000, 14000]))
        if 'altitude' in coords and 'altitude' in g['dims'] and draw(st.booleans()):
            con['a_sep'] = draw(st.sampled_from([10, 500, 2000]))
        if 'air_pressure' in coords and 'air_pressure' in g['dims'] and draw(st.booleans()):
            con['p_sep'] = draw(st.sampled_from([1.05, 1.5, 4]))
        if 'time' in coords and 'time' in g['dims'] and draw(st.booleans()):
            con['t_sep'] = draw(st.sampled_from(['PT6H', 'P1D', 'P5DT2H1M5S']))
    # Missing sample values cannot be honoured when the output has fewer dimensions than the sample
    miss = False if drop else draw(st.sampled_from([None, True, False]))
    return dict(grid=g, data=data, vals2=vals2, how=how, default_how=how == 'bin' and draw(st.booleans()),
                kernel=draw(st.sampled_from(kernels)), con=con, miss=miss, entry=draw(st.integers(0, 1)))


def exact(x):
    return x * 1024 == round(x * 1024)


def in_cells(grid, d, x, eps=1e-7):
    """(index of cell or -1, unsure) for a coordinate value."""
    cs = gen.cells(grid, d)
    if d == 'longitude':
        low = min(c[0] for c in cs)
        k = np.floor((x - low) / 360.0)
        x = x - 360 * k
        if abs(x - low - 360) < 1e-9:
            x = low
    unsure = False
    found = -1
    for i, (a, b) in enumerate(cs):
        for edge in (a, b, a + 360) if d == 'longitude' else (a, b):
            # Edges and points which are multiples of 1/1024 are exact, however computed
            if abs(x - edge) < eps and not (exact(x) and exact(edge)):
                unsure = True
        if a <= x < b:
            found = i
    return found, unsure


def decide(case, ctx):
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.exceptions import UserPrintableException
    case = gen.enlarged(case)
    g, d, how = case['grid'], case['data'], case['how']
    sample = gen.build_grid(g, var='samp')
    data = gen.make(d)
    variables = [d]
    if case['vals2']:
        variables.append(dict(d, vals=case['vals2'], dtype=None))
        data = UngriddedDataList([data, gen.make(variables[1], **gen.SNOW)])
        ctx.tag('two_variables')
    kw = dict(case['con'])
    if case['miss'] is not None:
        kw['missing_data_for_missing_sample'] = case['miss']
    if case['kernel']:
        kw['kernel'] = case['kernel']
    name = '' if case['default_how'] else how
    out_dims = [x for x in g['dims'] if x in d['coords']]
    honour = case['miss'] is not False
    nothing = [v for v in variables if np.isnan(gen.vals_nan(v)).all()]
    if len(out_dims) < len(g['dims']) and honour:
        raise AssertionError('not generated')
    with ctx.sut('collocation'):
        if case['entry'] == 0:
            out = data.collocated_onto(sample, how=name, **kw)
        else:
            out = sample.sampled_from(data, how=name, **kw)
    k = case['kernel']
    n_out = 3 if k in ('', 'moments') else 1
    check(len(out) == n_out * len(variables), 'expected %d output variables, got %d', n_out * len(variables), len(out))
    gen.described(data if case['vals2'] else [data], out)
    for i, v in enumerate(variables):
        judge(case, v, out[i * n_out:(i + 1) * n_out], out_dims, honour, ctx)
    ctx.tag(how, 'kernel_' + (k or 'default'), 'dims%d' % len(out_dims))
    if nothing:
        ctx.tag('all_missing')


def judge(case, d, out, out_dims, honour, ctx):
    g, k, con = case['grid'], case['kernel'], case['con']
    shape = tuple(len(g['points'][x]) for x in out_dims)
    for o in out:
        check(o.shape == shape, 'output has shape %s, expected %s', o.shape, shape)
        names = [c.name() for c in o.coords(dim_coords=True)]
        check([o.coords(dimensions=i, dim_coords=True)[0].name() for i in range(len(out_dims))] == out_dims,
              'dimensions of the output are %s, expected %s', names, out_dims)
    for x in out_dims:
        c = out[0].coord(x)
        check(gen.same(c.points, g['points'][x], atol=1e-9), 'output %s is %s, of the sample %s', x, c.points,
              g['points'][x])
    got = [gen.filled(o.data) for o in out]
    vals = gen.vals_nan(d)
    smask = np.ma.getmaskarray(np.ma.asarray(gen.grid_values(g)))
    n = len(d['pts'])
    cols = {x: gen.col(d, x) for x in d['coords']}
    usable = ~np.isnan(vals)
    unsure = np.zeros(n, bool)
    at = None
    if case['how'] == 'bin':
        at = []
        for x in out_dims:
            found = [in_cells(g, x, v, 1e-4 if d.get('coord_dtype') else 1e-7) for v in cols[x]]
            at.append(np.array([f[0] for f in found]))
            unsure |= np.array([f[1] for f in found])
    seen = set()
    some = False
    for ix in itertools.product(*[range(m) for m in shape]):
        have = tuple(v[ix] for v in got)
        if honour and smask[ix]:
            check(all(np.isnan(h) for h in have), 'sample cell %s is missing but the result is %s', ix, have)
            continue
        here = {x: g['points'][x][i] for x, i in zip(out_dims, ix)}
        if case['how'] == 'bin':
            keep = usable.copy()
            for a, i in zip(at, ix):
                keep &= a == i
            doubt = unsure & usable
        else:
            keep, doubt = usable.copy(), np.zeros(n, bool)

            def limit(v, lim, eps):
                keep[:] &= v < lim
                doubt[:] |= np.abs(v - lim) <= eps
            if 'h_sep' in con:
                limit(gen.great_circle(cols['latitude'], cols['longitude'], here['latitude'], here['longitude']),
                      con['h_sep'], 1e-3)
            if 'a_sep' in con:
                limit(np.abs(cols['altitude'] - here['altitude']), con['a_sep'], 1e-6)
            if 'p_sep' in con:
                p, q = cols['air_pressure'], here['air_pressure']
                limit(np.maximum(p / q, q / p), con['p_sep'], 1e-9)
            if 't_sep' in con:
                limit(np.abs(cols['time'] - here['time']), C01.seconds(con['t_sep']) / 86400.0, 1e-6)
            doubt &= usable
        if doubt.any():
            ctx.tag('ambiguous')
            continue
        seen.add(tuple(keep))
        some |= bool(keep.any())
        want = expected(case, k, here, keep, vals, cols)
        check(any(np.allclose(have, w, equal_nan=True, **gen.tolerance(d)) for w in want),
              'cell %s %s: got %s, expected %s (points %s)', ix, here, have, want, np.flatnonzero(keep).tolist())
    if some and len(seen) > 1:
        ctx.nontrivial()


def expected(case, k, here, keep, vals, cols):
    sample = dict(coords=list(here), pts=[list(here.values())])
    data = dict(coords=list(cols), pts=list(zip(*cols.values())), vals=[None if np.isnan(v) else v for v in vals])
    hd = None
    if k in ('nn_h', 'nn_horizontal'):
        hd = gen.great_circle(cols['latitude'], cols['longitude'], here['latitude'], here['longitude'])
    return C01.expected(dict(data=data, sample=sample, kernel=k), 0, keep, hd)


SUBS = [Sub('bin', gen.single(gen.typed(cases('bin')), 'data'), decide, quick=1600, thorough=50000),
        Sub('box', gen.single(gen.typed(cases('box')), 'data'), decide, quick=900, thorough=25000),
        Sub('many_points', st.one_of(gen.many(gen.typed(cases('bin'))), gen.many(cases('box'), 100)), decide, quick=160, thorough=6000),
        large.sub('collocate', quick=100, thorough=3000)]
