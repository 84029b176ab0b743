"""Subsetting of gridded data by limits, dates and shapes, against a selection of indices along each dimension."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, large, refused
from vf.core import Sub, check
from vf.checks import C07

PROPERTY = dict(
    title='Subsetting gridded data keeps exactly the grid points within the limits',
    statement="""Subsetting gridded data by any combination of coordinate limits and date limits keeps exactly the grid points
    within them (ends included; for latitude and longitude with cell bounds, the cells which reach into the limits), each with its
    value or missing value and all of its coordinates, in the order of the grid, and gives nothing at all when there are none.
    Longitude limits are circular and the longitudes come out in the requested range; a shape masks every other grid point of
    its bounding box; limits on coordinates which the data do not have, or two on the same one by different names, are refused. This holds for any order and direction of dimensions, any name of a coordinate and every variable of a
    list, and leaves the original data unaltered.""",
    text='all grids, combinations and spellings of limits, and shapes',
    why="""The tests subset a few small grids with ascending coordinates and latitude as the first dimension.""",
    files=['cis/subsetting/subset.py', 'cis/data_io/gridded_data.py', 'cis/time_util.py'],
    mechanism=[('GriddedSubsetConstraint', 'cis/subsetting/subset.py'), ('subset', 'cis/subsetting/subset.py'),
               ('GriddedDataList.extract, intersection', 'cis/data_io/gridded_data.py')],
    observe=['GriddedData.subset', 'GriddedDataList.subset'],
    note="""Hypothesis cases against indices found by a loop. Cells which only touch the limits after a shift by a turn, and
    grid points within 1e-9 of an edge of a shape, may go either way. Shapes need two-dimensional data.""")

RULE = 'A case is a grid and limits. Non-trivial: some grid points are kept unmasked and some are left out or masked.'

@st.composite
def cases(draw):
    shape = None
    if draw(st.integers(0, 2)) == 0:
        grid = draw(gen.grid(optional=(), bounds=True, max_n=6, time0=C07.T0))
        lons, lats = grid['points']['longitude'], grid['points']['latitude']
        shape = draw(C07.polygons(lons, lats))
        turn = draw(st.sampled_from([0, 0, 360, -360]))
        shape = [[[round(x + turn, 3), y] for x, y in r] for r in shape]
        xs = [p[0] for r in shape for p in r]
        if max(xs) - min(xs) >= 300:
            shape = shape[:1]
    else:
        grid = draw(gen.grid(bounds=True, time0=C07.T0 + draw(st.sampled_from(C07.MONTHS))))
    b = grid['bounds']['longitude']
    if b is not None and max(sum(b, [])) - min(sum(b, [])) > 360:       # cells of a circular grid would overlap
        grid['bounds']['longitude'] = None
    limits = draw(C07.limits_for(grid['dims'], lambda c: grid['points'][c] * (1 if grid['bounds'][c] is None else 2) +
                                 sum(grid['bounds'][c] or [], [])))
    for l in limits:
        if l[0] == 'longitude' and l[4] - l[3] > 300:
            l[4] = l[3] + 300.
        if l[0] == 'air_pressure':
            l[1] = draw(st.sampled_from(['air_pressure', 'pres']))
        if l[0] == 'time':       # dates to the microsecond
            l[3:5] = [round(v * 64) / 64. if isinstance(v, float) else v for v in l[3:5]]
    if shape:
        limits = [l for l in limits if l[0] != 'longitude']
        xs = [p[0] for r in shape for p in r]
    b = grid['bounds']['longitude']
    spans = [l[4] - l[3] for l in limits if l[0] == 'longitude'] + ([max(xs) - min(xs)] if shape else [])
    if b is not None and spans and spans[0] + 2 * max(abs(c[0] - c[1]) for c in b) > 355:
        # Iris itself fails to take the intersection if limits and cells together go around the globe
        grid['bounds']['longitude'] = None
    return dict(grid=grid, limits=limits, shape=shape, shape_first=draw(st.booleans()),
                shape_object=draw(st.booleans()), two=draw(st.integers(0, 3)) == 0)


@st.composite
def dated(draw):
    grid = draw(gen.grid(always=('time',), optional=('latitude', 'altitude'), min_n=2, max_n=5, bounds=False))
    ends = draw(st.lists(st.sampled_from(C07.ENDS), min_size=1, max_size=3))
    n = len(grid['points']['time'])
    times = sorted(draw(st.lists(st.tuples(st.sampled_from(ends), st.integers(-2, 10)).map(lambda t: t[0] + t[1] / 8.),
                                 min_size=n, max_size=n, unique=True)))
    grid['points']['time'] = times[::-1] if draw(st.booleans()) else times
    limits = draw(C07.limits_for(grid['dims'], lambda c: grid['points'][c], dates=True))
    return dict(grid=grid, limits=limits, shape=None, shape_first=False, two=draw(st.booleans()))


def reach(case, dim, i, lo, hi):
    """(turns by which index i of the dimension comes within the limits, turns by which it might)."""
    g = case['grid']
    p = g['points'][dim][i]
    a, b = p, p
    if dim in ('latitude', 'longitude') and g['bounds'].get(dim) is not None:
        a, b = sorted(g['bounds'][dim][i])
    yes, maybe = [], []
    for t in ((-720, -360, 0, 360, 720) if dim == 'longitude' else (0,)):
        if a + t <= hi and b + t >= lo:
            yes.append(t)
        if dim == 'longitude' and min(abs(b + t - lo), abs(a + t - hi)) < 1e-9 and (t or a != b):
            maybe.append(t)
    return yes, maybe


def select(case):
    """For each dimension of the grid, {index: shift} and the doubtful indices."""
    g = case['grid']
    keep = {d: {i: 0 for i in range(len(g['points'][d]))} for d in g['dims']}
    doubtful = {d: set() for d in g['dims']}
    limits = [list(l) for l in case['limits']]
    if case['shape']:
        xs, ys = [[p[k] for r in case['shape'] for p in r] for k in (0, 1)]
        limits.append(['longitude', '', '', min(xs), max(xs)])
        if 'latitude' not in [l[0] for l in limits]:
            limits.append(['latitude', '', '', min(ys), max(ys)])
    for d, name, form, lo, hi in limits:
        pts = g['points'][d]
        if form.startswith('partial'):
            a, b = C07.partial_range(lo)
            keep[d] = {i: 0 for i, p in enumerate(pts) if a <= C07.to_datetime(p) <= b}
            continue
        lo = min(pts) if lo is None else lo
        hi = max(pts) if hi is None else hi
        keep[d] = {}
        for i in range(len(pts)):
            yes, maybe = reach(case, d, i, lo, hi)
            # (Iris may leave cells which stick out of the limits in another turn)
            if len(yes) == 1 and not maybe and lo <= pts[i] + yes[0] <= hi:
                keep[d][i] = yes[0]
            elif yes or maybe:
                keep[d][i] = None
                if len(set(yes) - set(maybe)) == 0:
                    doubtful[d].add(i)
    return keep, doubtful


def decide(case, ctx):
    from cis.data_io.gridded_data import GriddedDataList, GriddedData
    g = case['grid']
    values = gen.filled(gen.grid_values(g))
    index = np.arange(values.size, dtype=float).reshape(values.shape)
    data = gen.build_grid(g)
    other = gen.build_grid(g, var='index', long_name='index of the grid point', data=index.copy())
    before = gen.build_grid(g)
    kw = C07.as_kwargs(case['limits'], case['shape'], case.get('shape_object'))
    if case['shape_first'] and 'shape' in kw:
        kw = dict([('shape', kw.pop('shape'))] + list(kw.items()))
    ctx.tag('shape' if case['shape'] else 'no shape', *[l[2] for l in case['limits']])
    keep, doubtful = select(case)
    objects = GriddedDataList([data, other] if case['two'] else [other, data])
    with ctx.sut('subset by %r' % (kw,)):
        single = data.subset(**kw)
    with ctx.sut('subset of a list by %r' % (kw,)):
        res = objects.subset(**kw)
    check(data.metadata == before.metadata and data.coords() == before.coords() and
          gen.same(gen.filled(data.data), values), 'the original data were altered')
    check(gen.same(gen.filled(other.data), index), 'the original data were altered')
    surely = all(set(keep[d]) - doubtful[d] for d in g['dims'])
    possibly = all(keep[d] for d in g['dims'])
    if not surely and single is None:
        check(res is None, 'nothing is selected from the data alone but %r from the list', res)
        ctx.nontrivial(False)
        return
    check(possibly or single is None, 'data was selected although none is within the limits %r: %s', kw, single)
    check(single is not None, 'nothing was selected although %s match %r', keep, kw)
    check(res is not None and len(res) == 2, 'the list gave %r', res)
    res = res if case['two'] else res[::-1]
    for r, var in ((single, 'rain'), (res[0], 'rain'), (res[1], 'index')):
        check(isinstance(r, GriddedData) and r.var_name == var and str(r.units) == 'kg m-2 s-1', 'metadata lost: %r', r)
        check(len(r.coords()) == len(g['dims']), 'coordinates %s', r.coords())
        # Which index of the grid is each index of the result?
        order, result_dims, result_shape = {}, [], []
        for d in g['dims']:
            coord = r.coord(standard_name=d)
            pts = np.array(g['points'][d])
            got = []
            for k, p in enumerate(coord.points):
                diff = np.abs(pts - p) if d != 'longitude' else np.abs((pts - p + 180) % 360 - 180)
                i = int(np.argmin(diff))
                check(diff[i] < 1e-9, '%s %s is not a point of the grid %s', d, p, pts)
                got.append(i)
                if d == 'longitude':
                    shift = keep[d].get(i)
                    check(shift is None or abs(pts[i] + shift - p) < 1e-9, 'longitude %s outside of the range %r', p, kw)
                if g['bounds'].get(d) is None:
                    check(coord.bounds is None, '%s has bounds', d)
                else:
                    check(np.allclose(sorted(np.array(g['bounds'][d][i]) - pts[i]), sorted(coord.bounds[k] - p), atol=1e-9),
                          'bounds %s of %s %s', coord.bounds[k], d, p)
            wrong = (set(got) ^ set(keep[d])) - doubtful[d]
            check(not wrong and len(set(got)) == len(got), 'by %r, %s of %s were selected, expected %s', kw, got, d,
                  sorted(keep[d]))
            back = sum(a > b for a, b in zip(got, got[1:] + got[:1]))
            check(back <= 1 if d == 'longitude' else got == sorted(got), '%s in order %s', d, coord.points)
            order[d] = got
            if len(r.coord_dims(coord)):
                check(r.coord_dims(coord) == (len(result_dims),), 'the order of the dimensions is not kept')
                result_dims.append(d)
                result_shape.append(len(got))
            else:
                check(len(got) == 1, 'dimension of %s lost', d)
        check(r.shape == tuple(result_shape), 'shape %s, expected %s', r.shape, result_shape)
        source = values if var == 'rain' else index
        expected = source[np.ix_(*[order[d] for d in g['dims']])]
        doubt = np.zeros(expected.shape, bool)
        if case['shape']:
            for k in itertools.product(*[range(n) for n in expected.shape]):
                x, y = [r.coord(standard_name=c).points[k[g['dims'].index(c)]] for c in ('longitude', 'latitude')]
                where = C07.inside(case['shape'], x, y)
                if where is None:
                    doubt[k] = True
                elif not where:
                    expected[k] = np.nan
        have = gen.filled(r.data).reshape(expected.shape)
        bad = ~(doubt | (have == expected) | (np.isnan(have) & np.isnan(expected)))
        check(not bad.any(), 'values %s\nexpected %s', have, expected)
    ctx.nontrivial(np.isfinite(have).any() and np.isfinite(have).sum() < values.size)


SUBS = [Sub('grids', gen.typed(cases(), 'grid'), decide, quick=2400, thorough=40000),
        Sub('dates', dated(), decide, quick=1000, thorough=20000),
        refused.sub('refused', refused.grids(), C07.by_limits, 400, 4000),
        large.sub('subset', quick=100, thorough=3000)]
