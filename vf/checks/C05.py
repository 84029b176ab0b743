"""Aggregation of ungridded data into cells, against a brute-force search."""
import datetime
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, large, refused
from vf.core import Sub, check
from vf.checks import C01
from vf.checks.C03 import exact

PROPERTY = dict(
    title='Aggregated cells hold the statistics of exactly the points in them',
    statement="""Aggregating ungridded data over [start, end, step] ranges gives cells of the step's size from the start
    to the end (the last reaching beyond the end if the step does not divide the range), each holding the count, mean,
    standard deviation, minimum, maximum or sum of exactly the non-missing points in it (lower edge inclusive, upper edge
    exclusive), missing where there are none; longitudes are circular, so -10 and 350 are the same. Coordinates that
    are not given are collapsed completely, into one cell from the least to the greatest value with its point half-way.
    Times can be given as dates with a period as step, coordinates by any of their names, and all variables of a list are
    aggregated. Coordinates which the data do not have, or which are given twice by different names, are refused. The
    results have the names and units of the data (_std_dev and _num_points added for moments; a variable with the name of
    one of its coordinates is called aggregated_ and that name).""",
    text='all point sets, coordinate orders, cell ranges and kernels',
    why="""The tests aggregate a handful of small data sets onto a few round ranges and compare some cells.""",
    files=['cis/aggregation/ungridded_aggregator.py', 'cis/data_io/ungridded_data.py', 'cis/collocation/data_index.py',
           'cis/collocation/col_implementations.py'],
    mechanism=[('UngriddedAggregator.aggregate', 'cis/aggregation/ungridded_aggregator.py'),
               ('aggregation_grid_array', 'cis/aggregation/ungridded_aggregator.py'),
               ('_aggregate_ungridded', 'cis/data_io/ungridded_data.py')],
    observe=['UngriddedData.aggregate', 'UngriddedDataList.aggregate'],
    note="""Hypothesis cases against brute force over all cells. Points within rounding of a cell edge are only judged where
    the edge is a short binary fraction.""")

RULE = ('A case is a set of points, ranges for some of the coordinates and a kernel. Non-trivial: at least two cells get '
        'points, or one gets some and another point is outside.')

NAMES = {'latitude': ['latitude', 'y', 'lat'], 'longitude': ['longitude', 'x', 'lon'], 'altitude': ['altitude', 'z', 'alt'],
         'air_pressure': ['air_pressure', 'p', 'pres'], 'time': ['time', 't']}
EPOCH = datetime.datetime(1600, 1, 1)


@st.composite
def cases(draw, decimals=True):
    data = draw(gen.ungridded(1, 16, coords=draw(st.permutations(
        ['latitude', 'longitude'] + [c for c in ('altitude', 'air_pressure', 'time') if draw(st.integers(0, 2)) == 0]))))
    spec = {}
    for c in data['coords']:
        if draw(st.integers(0, 3)) == 0:
            continue
        x = gen.col(data, c)
        unit = {'latitude': 1, 'longitude': 1, 'altitude': 50, 'air_pressure': 25, 'time': 0.25}[c]
        decimal = decimals and c in ('latitude', 'longitude') and draw(st.integers(0, 3)) == 0
        if decimal:
            step = draw(st.sampled_from([0.1, 0.2, 0.3, 0.7, 1.1]))
            start = round(float(draw(st.sampled_from(list(x)))) - draw(st.integers(0, 8)) / 10.0, 1)
            n = draw(st.integers(1, 12))
            end = round(start + n * step, 1)
        else:
            step = unit * draw(st.sampled_from([1, 2, 3, 5, 10, 20, 45]))
            start = float(np.floor(draw(st.sampled_from(list(x))) / unit) * unit - unit * draw(st.integers(0, 30)))
            end = start + draw(st.integers(1, 6)) * step - draw(st.sampled_from([0, 0, 0, 0.5])) * step
        start, end = float(start), float(end)
        if c == 'latitude':
            start = max(start, -90.0)
            if end > 90:
                end = 90.0
            if start >= end:
                start, end, step = -90.0, 90.0, 60.0
            # Iris cuts guessed cells off at the poles
            if np.ceil((end - start) / step - 1e-9) * step + start > 90:
                end = start + np.floor((90 - start) / step + 1e-9) * step
                if end <= start:
                    start, end, step = -90.0, 90.0, 60.0
        if c == 'longitude':
            n = np.ceil((end - start) / step - 1e-9)
            if n * step > 360:
                step, end = 60.0, start + 360
        spec[c] = dict(start=start, end=float(end), step=float(step), style=draw(st.integers(0, 3)),
                       name=draw(st.sampled_from(NAMES[c])))
    vals2 = None
    if draw(st.integers(0, 3)) == 0:
        vals2 = draw(st.lists(gen.values(True), min_size=len(data['pts']), max_size=len(data['pts'])))
    return dict(data=data, spec=spec, vals2=vals2,
                kernel=draw(st.sampled_from(['', 'moments', 'mean', 'min', 'max', 'sum', 'stddev'])),
                named=draw(st.sampled_from([None, None, None] + [[i, c] for i in (0, 1) for c in data['coords']])))


def grid_arg(c, s):
    if c == 'time' and s['style'] >= 2:
        a, b = [EPOCH + datetime.timedelta(days=v) for v in (s['start'], s['end'])]
        step = datetime.timedelta(days=s['step'])
        return slice(a, b, step) if s['style'] == 2 else [a, b, step]
    if s['style'] % 2:
        return [s['start'], s['end'], s['step']]
    return slice(s['start'], s['end'], s['step'])


def cell_edges(s):
    n = int(np.ceil((s['end'] - s['start']) / s['step'] - 1e-9))
    if n == 1:
        return [(s['start'], s['end'])]
    return [(s['start'] + i * s['step'], s['start'] + (i + 1) * s['step']) for i in range(n)]


def decide(case, ctx):
    from cis.data_io.ungridded_data import UngriddedDataList
    case = gen.enlarged(case)
    d, spec, k = case['data'], case['spec'], case['kernel']
    data = gen.make(d)
    variables = [d]
    named = case.get('named') or [None, None]
    if named[0] == 0:             # a variable with the name of a coordinate
        data = gen.make(d, var=named[1])
    if case['vals2']:
        variables.append(dict(d, vals=case['vals2'], dtype=None))
        data = UngriddedDataList([data, gen.make(variables[1], **dict(gen.SNOW, **({'var': named[1]} if named[0] == 1 else {})))])
        ctx.tag('two_variables')
    kw = {s['name']: grid_arg(c, s) for c, s in spec.items()}
    with ctx.sut('aggregation'):
        out = data.aggregate(how=k or 'moments', **kw) if k or len(spec) % 2 else data.aggregate(**kw)
    n_out = 3 if k in ('', 'moments') else 1
    if not isinstance(out, list):
        out = [out]
    check(len(out) == n_out * len(variables), 'expected %d output variables, got %d', n_out * len(variables), len(out))
    gen.described(data if case['vals2'] else [data], out, coords=d['coords'])
    cells = {c: cell_edges(s) for c, s in spec.items()}
    for i, v in enumerate(variables):
        judge(v, out[i * n_out:(i + 1) * n_out], cells, k, ctx)
    ctx.tag('kernel_' + (k or 'default'), 'binned%d' % len(spec))


def judge(d, out, cells, k, ctx):
    dims = d['coords']
    vals = gen.vals_nan(d)
    for o in out:
        names = [o.coords(dimensions=i, dim_coords=True)[0].name() for i in range(o.ndim)]
        check(names == dims, 'dimensions of the output are %s, expected %s', names, dims)
    for c in dims:
        x = gen.col(d, c)
        coord = out[0].coord(c)
        have = np.sort(np.asarray(coord.bounds, float), axis=1)
        want = cells[c] if c in cells else [(x.min(), x.max())]
        check(gen.same(have, want, atol=1e-7), 'cells of %s are %s, expected %s', c, have.tolist(), want)
        if c not in cells or len(want) > 1:
            mid = [(a + b) / 2 for a, b in want]
            check(gen.same(coord.points, mid, atol=1e-6 * max(map(abs, want[0])) if d.get('coord_dtype') else 1e-7), 'points of %s are %s', c, coord.points)
    at = []
    unsure = np.zeros(len(vals), bool)
    for c in dims:
        x = gen.col(d, c)
        if c not in cells:
            at.append(np.zeros(len(x), int))
            continue
        low = cells[c][0][0]
        if c == 'longitude':
            x = (x - low) % 360 + low
        found = np.full(len(x), -1)
        for i, (a, b) in enumerate(cells[c]):
            found[(x >= a) & (x < b)] = i
            for edge in (a, b, low + 360 if c == 'longitude' else b):
                sure = exact(a) and exact(b) and exact(edge)
                unsure |= (np.abs(x - edge) < (1e-4 if d.get('coord_dtype') else 1e-6)) & (not sure or np.array([not exact(v) for v in x]))
        at.append(found)
    usable = ~np.isnan(vals)
    used = set()
    got = [gen.filled(o.data) for o in out]
    if (unsure & usable).any():
        ctx.tag('ambiguous')
        return
    for ix in itertools.product(*[range(len(cells.get(c, [0]))) for c in dims]):
        keep = usable.copy()
        for a, i in zip(at, ix):
            keep &= a == i
        used.add(tuple(keep))
        have = tuple(g[ix] for g in got)
        want = C01.expected(dict(data=dict(d, vals=[None if np.isnan(v) else v for v in vals]), sample=None, kernel=k), 0, keep,
                            None)
        check(any(np.allclose(have, w, equal_nan=True, **gen.tolerance(d)) for w in want),
              'cell %s: got %s, expected %s (points %s)', ix, have, want, np.flatnonzero(keep).tolist())
    full = [u for u in used if any(u)]
    ctx.nontrivial(len(full) > 1 or (len(full) == 1 and sum(full[0]) < len(vals)))


SUBS = [Sub('cells', gen.single(gen.typed(cases()), 'data'), decide, quick=2400, thorough=60000),
        Sub('many_points', gen.many(gen.typed(cases(False))), decide, quick=200, thorough=8000),
        refused.sub('refused', refused.points(), lambda data, names, limits: data.aggregate(
            how='mean', **{n: [a, b, b - a] for n, (a, b) in limits.items()}), 400, 4000),
        large.sub('aggregate', quick=100, thorough=3000)]
