"""Gridded onto ungridded collocation (lin, nn) against an interpolation written out from its definition."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, large
from vf.core import Sub, check

PROPERTY = dict(
    title='Gridded data is interpolated correctly onto every ungridded point',
    statement="""Collocating gridded data onto ungridded points gives at each point the multilinear interpolation (lin) or
    the nearest grid value (nn) of the surrounding grid points, whatever the order and direction of the grid's
    dimensions, irregular spacing, regional or global (circular) longitudes and the longitude convention of grid and
    points, and also through a hybrid height or pressure vertical coordinate. Points outside of the grid are missing
    unless extrapolation is asked for, results that rest on missing grid values are missing, and missing sample points
    give missing results exactly when missing_data_for_missing_sample applies. The results have the names and units of the data.""",
    text='all grids (1 to 4 dimensions), sample points and options',
    why="""The tests interpolate a few small grids with increasing coordinates at hand-picked points; direction, order,
    circularity and convention combine to many cases.""",
    files=['cis/collocation/gridded_interpolation.py', 'cis/collocation/col_implementations.py',
           'cis/data_io/gridded_data.py'],
    mechanism=[('GriddedUngriddedInterpolator', 'cis/collocation/gridded_interpolation.py'),
               ('GriddedUngriddedCollocator.collocate', 'cis/collocation/col_implementations.py')],
    observe=['GriddedData.collocated_onto', 'UngriddedData.sampled_from'],
    note="""Hypothesis cases against a direct evaluation of the interpolation formula. Points exactly half-way between two
    grid points (nn) and on the border of a missing value's neighbourhood are judged leniently. Grids with a hybrid
    height where another dimension comes before those of the height are a known finding and left out (counted).""")

RULE = ('A case is a grid (dimension order, direction, irregular or circular, missing values), sample points in and out of '
        'it, and options. Non-trivial: at least one sample point lies inside the grid and one value is interpolated '
        'between different grid values, or one point is outside.')


@st.composite
def samples(draw, grid, extra_missing=True, n_max=8):
    """Sample points near and beyond the grid, all coordinates of the grid."""
    coords = draw(st.permutations(grid['dims']))
    n = draw(st.integers(1, n_max))
    conv = draw(st.sampled_from([0, -180]))
    pts = []
    for _ in range(n):
        p = []
        for d in coords:
            g = sorted(grid['points'][d])
            lo, hi = g[0], g[-1]
            where = draw(st.integers(0, 9))
            if where == 0:
                v = draw(st.sampled_from(g))
            elif where == 1:
                v = lo - draw(st.integers(1, 40)) * 0.25
            elif where == 2:
                v = hi + draw(st.integers(1, 40)) * 0.25
            else:
                v = lo + (hi - lo) * draw(st.integers(1, 199)) / 200.0
            if d == 'longitude':
                if grid['circular'] and draw(st.booleans()):
                    v = float(draw(st.integers(-180, 359)))
                v = float(gen.wrap_lon(v, conv))
            elif d == 'latitude':
                v = min(90.0, max(-90.0, v))
            p.append(round(v, 6))
        pts.append(p)
    vals = [None if draw(st.integers(0, 4)) == 0 and extra_missing else 1.0 for _ in range(n)]
    return dict(coords=coords, pts=pts, vals=vals, shape=[n // 2, 2] if n % 2 == 0 and draw(st.integers(0, 4)) == 0 else None,
                force_mask=draw(st.booleans()))


@st.composite
def plain_cases(draw):
    always = draw(st.sampled_from([['latitude', 'longitude']] * 4 + [['latitude'], ['longitude'], ['time']]))
    grid = draw(gen.grid(always=always, optional=[o for o in ('time', 'altitude', 'air_pressure') if o not in always],
                         bounds=True))
    return dict(grid=grid, sample=draw(samples(grid)), how=draw(st.sampled_from(['lin', 'nn', ''])),
                miss=draw(st.sampled_from([None, True, False])), coords_only=draw(st.integers(0, 4)) == 0,
                extrapolate=draw(st.sampled_from([None, None, False, True])), two=draw(st.integers(0, 3)) == 0,
                entry=draw(st.integers(0, 1)))


def locate(pts, x, lon, circular):
    """([(index pair, weight of the second)], inside) on one dimension. pts in grid order."""
    order = np.argsort(pts)
    g = np.asarray(pts, float)[order]
    idx = list(order)
    if lon:
        if circular:
            g = np.append(g, g[0] + 360)
            idx = idx + [idx[0]]
        for k in (0, -360, 360, -720, 720):
            if g[0] <= x + k <= g[-1]:
                x = x + k
                break
        else:
            mid = (g[0] + g[-1]) / 2
            x = min((x + k for k in (-720, -360, 0, 360, 720)), key=lambda v: abs(v - mid))
    inside = g[0] <= x <= g[-1]
    i = int(np.clip(np.searchsorted(g, x) - 1, 0, len(g) - 2))
    w = (x - g[i]) / (g[i + 1] - g[i])
    return (idx[i], idx[i + 1]), w, inside


def interpolate(values, where, how):
    """Set of acceptable answers (NaN: missing). where: one (index pair, weight) per dimension of values."""
    data, mask = np.ma.getdata(values), np.ma.getmaskarray(values)
    if how == 'nn':
        picks = []
        for (a, b), w in where:
            picks.append([a, b] if abs(w - 0.5) < 1e-9 else [a] if w < 0.5 else [b])
        return [np.nan if mask[i] else data[i] for i in itertools.product(*picks)]
    total, missing, lenient = 0.0, False, False
    for bits in itertools.product((0, 1), repeat=len(where)):
        ix = tuple(pair[b] for b, (pair, w) in zip(bits, where))
        weight = np.prod([w if b else 1 - w for b, (pair, w) in zip(bits, where)])
        if mask[ix]:
            if abs(weight) > 1e-9:
                missing = True
            else:
                lenient = True
        else:
            total += weight * data[ix]
    if missing:
        return [np.nan]
    return [total, np.nan] if lenient else [total]


def collocate(case, ctx, grids, sample, how):
    from cis.data_io.gridded_data import GriddedDataList
    kw = {}
    if case['miss'] is not None:
        kw['missing_data_for_missing_sample'] = case['miss']
    if case['extrapolate'] is not None:
        kw['extrapolate'] = case['extrapolate']
    data = GriddedDataList(grids) if len(grids) > 1 else grids[0]
    with ctx.sut('collocation'):
        if case['entry'] == 0:
            return data.collocated_onto(sample, how=how, **kw)
        return sample.sampled_from(data, how=how, **kw)


def make_sample(case):
    s = case['sample']
    if case['coords_only']:
        return gen.build_ungridded(s['coords'], s['pts'], None, s.get('shape'))
    return gen.make(s, var='samp', standard_name=None, long_name='sample')


def decide_plain(case, ctx):
    case = gen.enlarged(case)
    g = case['grid']
    grids = [gen.build_grid(g)]
    variants = [g]
    if case['two']:
        variants.append(dict(g, seed=g['seed'] + 1, missing=[]))
        grids.append(gen.build_grid(variants[1], **gen.SNOW))
    values = [gen.grid_values(v) for v in variants]
    out = collocate(case, ctx, grids, make_sample(case), case['how'])
    check(len(out) == len(grids), 'expected %d variables, got %d', len(grids), len(out))
    gen.described(grids, out)
    judge(case, ctx, out, values, lambda i, p: [locate(g['points'][d], p[case['sample']['coords'].index(d)],
                                                       d == 'longitude', g['circular']) for d in g['dims']])


def judge(case, ctx, out, values, locator):
    s = case['sample']
    honour = not case['coords_only'] and case['miss'] is not False
    how = case['how'] or 'lin'
    n_in = n_out = 0
    for o, v in zip(out, values):
        got = gen.filled(o.data).ravel()
        check(got.size == len(s['pts']), 'got %d values for %d points', got.size, len(s['pts']))
        for i, p in enumerate(s['pts']):
            if honour and s['vals'][i] is None:
                check(np.isnan(got[i]), 'sample point %d is missing but the result is %s', i, got[i])
                continue
            where = locator(i, p)
            if where is None:
                ctx.tag('ambiguous')
                continue
            inside = all(w[2] for w in where)
            n_in += inside
            n_out += not inside
            if not inside and not case['extrapolate']:
                want = [np.nan]
            else:
                want = interpolate(v, [w[:2] for w in where], how)
            check(any(np.allclose(got[i], w, rtol=1e-7, atol=1e-6, equal_nan=True) for w in want),
                  'point %d %s (%s): got %s, expected %s', i, p, s['coords'], got[i], want)
    lon = [c for c in s['coords'] if c == 'longitude']
    for name in s['coords']:
        have = np.asarray(out[0].coord(standard_name=name).data, float).ravel()
        want = gen.col(s, name)
        if lon and name == 'longitude':
            check(np.allclose((have - want + 180) % 360, 180, atol=1e-6), 'longitudes of the output are %s, of the '
                  'sample %s', have, want)
        else:
            check(gen.same(have, want, atol=1e-9), 'output %s is %s, of the sample %s', name, have, want)
    ctx.nontrivial(n_in > 0 or n_out > 0)
    ctx.tag(how, 'dims%d' % values[0].ndim)
    if n_in:
        ctx.tag('inside')
    if n_out:
        ctx.tag('outside')


# --- Hybrid vertical coordinates -------------------------------------------------------------------------------------

@st.composite
def hybrid_cases(draw):
    kind = draw(st.sampled_from(['altitude', 'air_pressure']))
    horizontal = ['latitude', 'longitude'] + (['time'] if draw(st.booleans()) else [])
    dims = draw(st.permutations(horizontal + ['model_level_number']))
    n = draw(st.integers(2, 5))
    lon = draw(gen.longitudes(2, 4))
    grid = draw(gen.grid(dims=[d for d in dims if d != 'model_level_number'], max_n=3, lon=lon))
    grid['dims'] = list(dims)
    grid['points']['model_level_number'] = [float(i) for i in range(n)]
    grid['bounds'] = {}
    grid['missing'] = []
    top = draw(st.booleans())     # levels counted from the top or from the surface
    if kind == 'altitude':
        delta = np.cumsum([300 + draw(st.integers(0, 8)) * 100.0 for _ in range(n)])
        sigma = np.linspace(1, 0.1, n)
    else:
        delta = np.cumsum([draw(st.integers(1, 8)) * 1000.0 for _ in range(n)])
        sigma = np.linspace(0.1, 1, n)
    if top:
        delta, sigma = delta[::-1], sigma[::-1]
    span = {'dims': [d for d in dims if d in ('latitude', 'longitude') or (d == 'time' and kind == 'air_pressure')]}
    sample = draw(samples(dict(grid, dims=[d for d in dims if d != 'model_level_number'],
                               points=grid['points']), extra_missing=False))
    sample['coords'] = list(sample['coords']) + [kind]
    lo, hi = (0, 3500) if kind == 'altitude' else (0, 140000)
    for p in sample['pts']:
        p.append(lo + (hi - lo) * draw(st.integers(0, 400)) / 400.0)
    return dict(grid=grid, sample=sample, kind=kind, delta=list(map(float, delta)), sigma=list(map(float, sigma)),
                surface_dims=span['dims'], surface_seed=draw(st.integers(0, 999)), how=draw(st.sampled_from(['lin', 'nn'])),
                miss=None, coords_only=draw(st.booleans()), extrapolate=None, two=draw(st.booleans()), entry=draw(st.integers(0, 1)))


def surface(case):
    rng = np.random.RandomState(case['surface_seed'])
    shape = [len(case['grid']['points'][d]) for d in case['surface_dims']]
    return rng.randint(0, 64, shape) * (5.0 if case['kind'] == 'altitude' else 500.0) + \
        (0.0 if case['kind'] == 'altitude' else 70000.0)


def build_hybrid(case, seed, var, extra=False):
    from iris.coords import AuxCoord
    from iris.aux_factory import HybridHeightFactory, HybridPressureFactory
    g = dict(case['grid'], seed=seed)
    cube = gen.build_grid(g, var=var)
    z = g['dims'].index('model_level_number')
    height = case['kind'] == 'altitude'
    unit = 'm' if height else 'Pa'
    delta = AuxCoord(np.array(case['delta']), long_name='level_height' if height else 'level_pressure', units=unit)
    sigma = AuxCoord(np.array(case['sigma']), long_name='sigma')
    surf = AuxCoord(surface(case), standard_name='surface_altitude' if height else 'surface_air_pressure', units=unit)
    if extra:
        from vf.checks import C06
        points, dims = C06.extra_coord(case)
        cube.add_aux_coord(AuxCoord(points, standard_name='forecast_period', units='hours'), [g['dims'].index(d) for d in dims])
    cube.add_aux_coord(delta, z)
    cube.add_aux_coord(sigma, z)
    cube.add_aux_coord(surf, [g['dims'].index(d) for d in case['surface_dims']])
    cube.add_aux_factory((HybridHeightFactory if height else HybridPressureFactory)(delta, sigma, surf))
    return cube


def known_hybrid(case):
    """K1: a dimension other than those of the hybrid height comes before some of them."""
    dims = [d for d in case['grid']['dims'] if d != 'model_level_number']
    spanned = [d for d in dims if d in case['surface_dims']]
    return dims[:len(spanned)] != spanned


def decide_hybrid(case, ctx):
    g, s = case['grid'], case['sample']
    seeds = [g['seed'], g['seed'] + 1] if case['two'] else [g['seed']]
    grids = [build_hybrid(case, seed, 'v%d' % i) for i, seed in enumerate(seeds)]
    values = [gen.grid_values(dict(g, seed=seed)) for seed in seeds]
    surf = surface(case)

    def locator(i, p):
        where = {d: locate(g['points'][d], p[s['coords'].index(d)], d == 'longitude', g['circular'])
                 for d in g['dims'] if d != 'model_level_number'}
        if case['how'] == 'nn' and any(abs(w[1] - 0.5) < 1e-9 for w in where.values()):
            return None
        under = interpolate(surf, [where[d][:2] for d in case['surface_dims']], case['how'])[0]
        column = np.array(case['delta']) + np.array(case['sigma']) * under
        z = p[s['coords'].index(case['kind'])]
        if np.abs(column - z).min() < 1e-6 * (1 + abs(z)):
            return None
        where['model_level_number'] = locate(list(column), z, False, False)
        if case['how'] == 'nn' and abs(where['model_level_number'][1] - 0.5) < 1e-6:
            return None
        return [where[d] for d in g['dims']]
    out = collocate(case, ctx, grids, make_sample(case), case['how'])
    gen.described(grids, out)
    judge(case, ctx, out, values, locator)
    ctx.tag(case['kind'])


SUBS = [Sub('plain_grids', gen.single(gen.typed(plain_cases(), 'grid'), 'sample'), decide_plain, quick=1200, thorough=40000),
        Sub('many_points', gen.many(plain_cases(), 400, 'sample'), decide_plain, quick=120, thorough=4000),
        Sub('hybrid_levels', gen.typed(hybrid_cases(), 'grid'), decide_hybrid, quick=800, thorough=25000, known=known_hybrid),
        large.sub('look_up', quick=100, thorough=3000)]
