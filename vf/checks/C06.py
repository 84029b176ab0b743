"""Collapse of gridded data over coordinates, against a direct evaluation."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, large, refused
from vf.core import Sub, check
from vf.checks import C02

PROPERTY = dict(
    title='Collapsed gridded data hold the right statistics along those dimensions',
    statement="""Collapsing gridded data over some of its coordinates gives for each remaining grid point the sum, minimum,
    maximum, count, corrected standard deviation or mean of the non-missing values along the collapsed dimensions, missing
    if there are none; the mean is weighted by the area of the grid cells when latitude is collapsed. The other dimensions
    stay as they are, collapsed coordinates become single points bounded by the outer cell edges, and coordinates
    spanning several dimensions (such as hybrid heights) are averaged over the collapsed ones; coordinates which the data do
    not have are refused. This holds for any choice and
    naming of coordinates, order and direction of dimensions, and for each variable of a list. The
    results have the names and units of the data (_std_dev and _num_points added for moments).""",
    text='all grids, choices of coordinates to collapse, kernels and missing-value patterns',
    why="""The tests collapse a few small grids over one or two dimensions.""",
    files=['cis/aggregation/gridded_collapsor.py', 'cis/aggregation/collapse_kernels.py', 'cis/data_io/gridded_data.py'],
    mechanism=[('GriddedCollapsor', 'cis/aggregation/gridded_collapsor.py'),
               ('StddevKernel, CountKernel', 'cis/aggregation/collapse_kernels.py'),
               ('_collapse_gridded', 'cis/data_io/gridded_data.py')],
    observe=['GriddedData.collapsed', 'GriddedDataList.collapsed'],
    note="""Hypothesis cases against loops over the collapsed dimensions with cell areas from the sine of the latitude
    bounds. Grids always have latitude and longitude.""")

RULE = ('A case is a grid, coordinates to collapse and a kernel. Non-trivial: more than one value goes into a result, and '
        'the results differ from each other or from a plain (unweighted, unmasked) mean.')

NAMES = {'latitude': ['latitude', 'y', 'lat'], 'longitude': ['longitude', 'x', 'lon'], 'altitude': ['altitude', 'z', 'alt'],
         'air_pressure': ['air_pressure', 'pres'], 'time': ['time', 't'], 'model_level_number': ['model_level_number']}


@st.composite
def cases(draw):
    grid = draw(gen.grid(optional=('time', 'altitude', 'air_pressure', 'model_level_number'), bounds=True, max_n=4,
                         always=['latitude', 'longitude']))
    if 'altitude' in grid['dims'] and 'model_level_number' in grid['dims']:
        NAMES_OK = False
    else:
        NAMES_OK = True
    coords = draw(st.lists(st.sampled_from(grid['dims']), min_size=1, max_size=len(grid['dims']), unique=True))
    names = [draw(st.sampled_from(NAMES[c] if NAMES_OK else NAMES[c][:1])) for c in coords]
    return dict(grid=grid, coords=coords, names=names, two=draw(st.integers(0, 3)) == 0,
                kernel=draw(st.sampled_from([None, '', 'moments', 'mean', 'sum', 'min', 'max'])))


def weights(g, dims_collapsed):
    """Weights of the values of the grid, with the shape of the grid."""
    shape = [len(g['points'][d]) for d in g['dims']]
    w = np.ones(shape)
    if 'latitude' in dims_collapsed:
        for d, f in (('latitude', np.sin), ('longitude', lambda x: x)):
            c = np.radians(np.array(gen.cells(g, d)))
            size = np.abs(f(c[:, 1]) - f(c[:, 0]))
            w = w * size.reshape([-1 if x == d else 1 for x in g['dims']])
    return w


def reduce(values, w, axes, kernel):
    """Per kernel output, the array reduced over axes (NaN missing)."""
    data, mask = np.ma.getdata(values), np.ma.getmaskarray(np.ma.asarray(values))
    rest = [i for i in range(data.ndim) if i not in axes]
    shape = [data.shape[i] for i in rest]
    fs = {'mean': [0], 'sum': [3], 'min': [4], 'max': [5]}.get(kernel, [0, 1, 2])
    out = [np.full(shape, np.nan) for _ in fs]
    many = False
    for ix in itertools.product(*[range(n) for n in shape]):
        pick = [slice(None)] * data.ndim
        for i, j in zip(rest, ix):
            pick[i] = j
        pick = tuple(pick)
        x, ok, ww = data[pick].ravel(), ~mask[pick].ravel(), w[pick].ravel()
        x, ww = x[ok], ww[ok]
        many |= len(x) > 1
        for o, f in zip(out, fs):
            if f == 2:
                o[ix] = len(x)
            elif len(x):
                o[ix] = [lambda: (x * ww).sum() / ww.sum(), lambda: x.std(ddof=1) if len(x) > 1 else np.nan, None,
                         x.sum, x.min, x.max][f]()
    return out, many


def decide(case, ctx):
    from cis.data_io.gridded_data import GriddedDataList
    g = case['grid']
    variants = [g] + ([dict(g, seed=g['seed'] + 1, missing=g['missing'][:1])] if case['two'] else [])
    grids = [gen.build_grid(v, var='v%d' % i, **gen.TWO[i]) for i, v in enumerate(variants)]
    data = GriddedDataList(grids) if case['two'] else grids[0]
    with ctx.sut('collapse'):
        names = case['names'] if len(case['names']) > 1 or case['two'] else case['names'][0]
        out = data.collapsed(names, how=case['kernel']) if case['kernel'] is not None else data.collapsed(names)
    axes = [g['dims'].index(c) for c in case['coords']]
    rest = [d for d in g['dims'] if d not in case['coords']]
    gen.described(grids, out if isinstance(out, list) else [out])
    pos = 0
    many = False
    for i, v in enumerate(variants):
        want, m = reduce(gen.grid_values(v), weights(g, case['coords']), axes, case['kernel'])
        many |= m
        for n, w in enumerate(want):
            check(pos < len(out), 'too few outputs: %d', len(out))
            o = out[pos]
            pos += 1
            got = gen.filled(o.data)
            names = [o.coords(dimensions=k, dim_coords=True)[0].name() for k in range(o.ndim)]
            check(names == rest, 'dimensions of the output are %s, expected %s', names, rest)
            # A count of no points may be nought or missing
            empty = (w == 0) & np.isnan(got) if case['kernel'] in (None, '', 'moments') and n == 2 else np.zeros(w.shape, bool)
            check(got.shape == w.shape and np.allclose(np.where(empty, w, got), w, equal_nan=True, **gen.tolerance(g)),
                  'output %d of %s over %s: got %s, expected %s', n, v, case['coords'], got.tolist(), w.tolist())
            check(o.var_name.startswith('v%d' % i), 'output variable %s for v%d', o.var_name, i)
            for d in g['dims']:
                c = o.coord(d)
                cs = gen.cells(g, d)
                if d in rest:
                    check(gen.same(c.points, g['points'][d], atol=1e-9), '%s is now %s', d, c.points)
                else:
                    edges = np.sort(np.asarray(c.bounds, float).ravel())
                    low = min(x[0] for x in cs)
                    high = low + 360 if d == 'longitude' and g['circular'] else max(x[1] for x in cs)
                    check(gen.same(edges, [low, high], atol=1e-6), 'collapsed %s has bounds %s for cells %s', d, edges, cs)
    check(pos == len(out), '%d outputs too many', len(out) - pos)
    ctx.nontrivial(many)
    ctx.tag('kernel_' + (case['kernel'] or 'default'), 'collapsed%d' % len(axes), 'left%d' % len(rest))


@st.composite
def hybrid(draw):
    case = draw(C02.hybrid_cases())
    g = case['grid']
    coords = draw(st.lists(st.sampled_from(g['dims']), min_size=1, max_size=3, unique=True))
    return dict(case, coords=coords, extra=draw(st.booleans()), kernel=draw(st.sampled_from(['mean', 'moments', 'max'])))


def extra_coord(case):
    dims = [d for d in case['grid']['dims'] if d != 'model_level_number'][:2]
    shape = [len(case['grid']['points'][d]) for d in dims]
    return np.arange(np.prod(shape)).reshape(shape) * 7.0 % 5, dims


def decide_hybrid(case, ctx):
    g = case['grid']
    cube = C02.build_hybrid(case, g['seed'], 'v', extra=case['extra'])
    kind = case['kind']
    levels = {'altitude': 'level_height', 'air_pressure': 'level_pressure'}[kind]
    with ctx.sut('collapse'):
        out = cube.collapsed(case['coords'], how=case['kernel'])
    axes = [g['dims'].index(c) for c in case['coords']]
    rest = [d for d in g['dims'] if d not in case['coords']]
    gb = dict(g, bounds={})
    want, many = reduce(gen.grid_values(g), weights(gb, case['coords']), axes, case['kernel'])
    surf = C02.surface(case)
    dims = case['surface_dims']
    surf = np.asarray(surf, float).mean(axis=tuple(i for i, d in enumerate(dims) if d in case['coords']))
    left = [d for d in dims if d not in case['coords']]
    if case['extra']:
        more, at = extra_coord(case)
        more = more.mean(axis=tuple(i for i, d in enumerate(at) if d in case['coords']))
        c = out[0].coord('forecast_period')
        at = [d for d in at if d in rest]
        check(gen.same(np.asarray(c.points).ravel(), np.ravel(more)) or not at, 'forecast_period is %s, expected %s',
              c.points, more)
    name = {'altitude': 'surface_altitude', 'air_pressure': 'surface_air_pressure'}[kind]
    for o, w in zip(out, want):
        check(gen.same(gen.filled(o.data), w, rtol=1e-9, atol=1e-9), 'got %s, expected %s', o.data, w)
        c = o.coord(name)
        if left:
            check([rest[i] for i in o.coord_dims(c)] == left, '%s spans %s, expected %s', name, o.coord_dims(c), left)
            check(gen.same(np.asarray(c.points), surf, rtol=1e-9), '%s is %s, expected %s', name, c.points, surf)
        if 'model_level_number' in rest and left and len(left) < len(dims):
            z = o.coord(kind)
            full = [d for d in rest if d in left or d == 'model_level_number']
            want_z = np.array(case['delta']).reshape([-1 if d == 'model_level_number' else 1 for d in full]) + \
                np.array(case['sigma']).reshape([-1 if d == 'model_level_number' else 1 for d in full]) * \
                np.transpose(surf, [left.index(d) for d in full if d in left]).reshape(
                    [1 if d == 'model_level_number' else len(g['points'][d]) for d in full])
            check([rest[i] for i in o.coord_dims(z)] == full, 'dimensions of %s: %s', kind, o.coord_dims(z))
            check(gen.same(np.asarray(z.points), want_z, rtol=1e-9), '%s is %s, expected %s', kind, z.points, want_z)
            ctx.tag('partial')
    ctx.nontrivial(many)


SUBS = [Sub('grids', gen.typed(cases(), 'grid'), decide, quick=1000, thorough=40000),
        Sub('hybrid_levels', hybrid(), decide_hybrid, quick=300, thorough=12000),
        refused.sub('refused', refused.grids(twice=False), lambda data, names, limits: data.collapsed(
            names if len(names) > 1 else names[0], how='mean'), 400, 4000),
        large.sub('collapse', quick=100, thorough=3000)]
