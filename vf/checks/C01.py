"""Ungridded onto ungridded collocation by separation, against a brute-force search."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Box collocation of points onto points selects exactly the data within limits',
    statement="""Collocating ungridded data onto ungridded sample points with the box method gives, at each sample point,
    the kernel (mean/standard deviation/count, mean, min, max, sum, stddev, or the value nearest horizontally, in
    altitude, pressure or time) of exactly the non-missing data points that lie within every separation limit given
    (great-circle distance, altitude difference, pressure ratio, time difference), whatever the order and number of
    points, the order of the coordinates, the longitude convention of either data set, the poles or the date line.
    Where no data point qualifies, the result is missing (and the count is missing too); the output has the sample's
    points in the sample's order. The
    results have the names and units of the data (_std_dev and _num_points added for moments).""",
    text='all data and sample point sets, separation limits in all documented notations, and kernels',
    why="""The tests collocate a few hand-made grids near the equator with one or two limits; the selection must be right
    for every arrangement of points on the globe, including index structures that are split several times.""",
    files=['cis/collocation/col_implementations.py', 'cis/collocation/kdtree.py', 'cis/collocation/haversinedistancekdtreeindex.py',
           'cis/data_io/hyperpoint_view.py', 'cis/collocation/col_framework.py'],
    mechanism=[('SepConstraintKdtree', 'cis/collocation/col_implementations.py'),
               ('HaversineDistanceKDTree.query_ball_tree', 'cis/collocation/kdtree.py'),
               ('GeneralUngriddedCollocator.collocate', 'cis/collocation/col_implementations.py')],
    observe=['UngriddedData.collocated_onto', 'sampled_from'],
    note="""Hypothesis cases, shrunk, against a brute-force search in a few lines using angles between position vectors;
    points within 1 m of a limit are not judged. No claim beyond the generated cases.""")

RULE = ('A case is a set of data points and a set of sample points (random order and subset of coordinates, 1-D or 2-D, '
        'missing and NaN values), separations and a kernel. Non-trivial: some sample point selects some but not all of '
        'the non-missing data, or two sample points select different sets.')

KERNELS = ['', 'moments', 'mean', 'min', 'max', 'sum', 'stddev', 'nn_h', 'nn_horizontal', 'nn_a', 'nn_altitude', 'nn_p',
           'nn_pressure', 'nn_t', 'nn_time']
NEEDS = {'nn_a': 'altitude', 'nn_altitude': 'altitude', 'nn_p': 'air_pressure', 'nn_pressure': 'air_pressure',
         'nn_t': 'time', 'nn_time': 'time'}


def iso(seconds, style):
    d, r = divmod(int(seconds), 86400)
    h, r = divmod(r, 3600)
    m, s = divmod(r, 60)
    if style == 0:
        return 'PT%dS' % seconds
    if style == 1:
        return 'P%dDT%dH%dM%dS' % (d, h, m, s)
    return 'P%dD:%dH%dM%dS' % (d, h, m, s)


@st.composite
def cases(draw):
    shared = [c for c in ('altitude', 'air_pressure', 'time') if draw(st.booleans())]
    base = ['latitude', 'longitude'] + shared
    lat = draw(st.sampled_from([(-90, 90), (-90, 90), (60, 90), (-90, -70), (-10, 10)]))
    data = draw(gen.ungridded(1, 16, coords=draw(st.permutations(base)), lat=lat, with_nan=True))
    extra = draw(st.sampled_from([[], [], ['altitude'], ['time']]))
    sample = draw(gen.ungridded(1, 8, coords=draw(st.permutations(base + [e for e in extra if e not in base])), lat=lat))
    # Put some sample points on or near data points
    n = len(data['pts'])
    for p in sample['pts']:
        if draw(st.booleans()):
            q = data['pts'][draw(st.integers(0, n - 1))]
            for name in ('latitude', 'longitude'):
                off = draw(st.sampled_from([0, 0, 0.5, -0.5, 3, -3]))
                v = q[data['coords'].index(name)] + off
                if name == 'latitude':
                    v = min(90, max(-90, v))
                p[sample['coords'].index(name)] = v
    lons = gen.col(sample, 'longitude')
    if (lons < 0).any() and (lons >= 180).any():      # one convention per data set
        k = sample['coords'].index('longitude')
        for p in sample['pts']:
            p[k] = float(gen.wrap_lon(p[k], -180))
    con = {}
    if draw(st.integers(0, 4)):
        km = draw(st.sampled_from([1, 60, 300, 500, 1500, 4000, 9000, 15000]))
        con['h_sep'] = draw(st.sampled_from(['%dkm' % km, '%d' % km, '%d000m' % km, km, '%.1fe3m' % km]))
    if 'altitude' in shared and draw(st.booleans()):
        m = draw(st.sampled_from([1, 100, 500, 2000]))
        con['a_sep'] = draw(st.sampled_from(['%dm' % m, '%d' % m, '%skm' % (m / 1000.0), m]))
    if 'air_pressure' in shared and draw(st.booleans()):
        con['p_sep'] = draw(st.sampled_from([1.05, 1.5, '2', 10]))
    if 'time' in shared and draw(st.booleans()):
        con['t_sep'] = iso(draw(st.sampled_from([90, 3600, 86400, 129600, 5 * 86400 + 7265])), draw(st.integers(0, 2)))
    kernel = draw(st.sampled_from([k for k in KERNELS if NEEDS.get(k) in shared + [None]]))
    vals2 = None
    if draw(st.integers(0, 4)) == 0:
        vals2 = draw(st.lists(gen.values(), min_size=n, max_size=n))
    return dict(data=data, sample=sample, con=con, kernel=kernel, vals2=vals2, miss=draw(st.sampled_from([None, True, False])),
                coords_only=draw(st.integers(0, 4)) == 0, entry=draw(st.integers(0, 2)))


@st.composite
def many(draw):
    """Enough points for the index to be split several times; the points follow from a seed."""
    seed, n, ns = draw(st.integers(0, 10 ** 6)), draw(st.integers(11, 120)), draw(st.integers(1, 40))
    rng = np.random.RandomState(seed)
    start = draw(st.sampled_from([0, -180]))
    coords = draw(st.permutations(['latitude', 'longitude', 'time']))

    def points(n, where, start):
        lat0, half = {'globe': (0, 90), 'north': (85, 5), 'south': (-80, 10), 'dateline': (10, 20)}[where]
        lats = np.clip(lat0 + rng.uniform(-half, half, n), -90, 90)
        lons = rng.uniform(0, 360, n) if where != 'dateline' else (180 if start == 0 else 0) + rng.uniform(-25, 25, n) + 180
        cols = {'latitude': lats, 'longitude': (lons - start) % 360 + start, 'time': 150000 + rng.uniform(0, 3, n)}
        return [[round(float(cols[c][i]), 2) for c in coords] for i in range(n)]
    where = draw(st.sampled_from(['globe', 'globe', 'north', 'south', 'dateline']))
    vals = [None if rng.rand() < 0.15 else float(rng.randint(-50, 50)) for _ in range(n)]
    svals = [None if rng.rand() < 0.1 else 1.0 for _ in range(ns)]
    con = {'h_sep': draw(st.sampled_from([50, 200, 700, 2500, 8000, 16000]))}
    if draw(st.integers(0, 3)) == 0:
        con['t_sep'] = 'P1D'
    return dict(data=dict(coords=coords, pts=points(n, where, draw(st.sampled_from([0, -180]))), vals=vals),
                sample=dict(coords=coords, pts=points(ns, where, start), vals=svals), con=con,
                kernel=draw(st.sampled_from(['', 'sum', 'max', 'nn_h'])), miss=None, coords_only=False,
                entry=draw(st.integers(0, 2)))


@st.composite
def profiles(draw):
    """Profiles and series: few places, with several points at each of them which differ in the other coordinates only."""
    names = draw(st.sampled_from([['time'], ['altitude'], ['air_pressure'], ['altitude', 'time'], ['air_pressure', 'time']]))
    coords = draw(st.permutations(['latitude', 'longitude'] + names))
    places = draw(st.lists(st.tuples(st.sampled_from([-90., 0., 10., 10.3, 45.]), st.sampled_from([0., 0.4, 90., 179.])),
                           min_size=1, max_size=3))
    start = draw(st.sampled_from([0, 0, 360]))
    levels = dict(time=[150000 + x for x in (0, .03, .5, .9, 2.1, 7)], altitude=[0, 40, 180, 1300, 1450.5],
                  air_pressure=[1000, 980, 700, 480, 250])

    def points(most, shift):
        out = []
        for _ in range(draw(st.integers(1, most))):
            # Stay at the same place more often than not
            place = out[-1] if out and draw(st.integers(0, 3)) else None
            lat, lon = draw(st.sampled_from(places)) if place is None else [place[coords.index(c)] for c in coords
                                                                            if c in ('latitude', 'longitude')]
            if place is not None and coords.index('longitude') < coords.index('latitude'):
                lat, lon = lon, lat
            elif place is None:
                lon += shift
            row = dict(latitude=lat, longitude=lon, **{c: float(draw(st.sampled_from(levels[c]))) for c in names})
            out.append([row[c] for c in coords])
        return out
    data, sample = points(14, start), points(8, 0)
    con = {}
    if draw(st.integers(0, 3)):
        con['h_sep'] = draw(st.sampled_from([20, '100km', 3000]))
    for c in names:
        if draw(st.integers(0, 3)):
            key, choices = dict(time=('t_sep', ['PT1H', 'P1D', 'P3D']), altitude=('a_sep', ['50m', 200, '1.2km']),
                                air_pressure=('p_sep', [1.03, 1.5, '3']))[c]
            con[key] = draw(st.sampled_from(choices))
    kernels = ['', 'mean', 'max', 'sum', 'nn_h'] + [k for k in NEEDS if NEEDS[k] in names]
    vals = draw(st.lists(gen.values(), min_size=len(data), max_size=len(data)))
    svals = draw(st.lists(st.sampled_from([1., 1., 1., 2., None]), min_size=len(sample), max_size=len(sample)))
    return dict(data=dict(coords=coords, pts=data, vals=vals), sample=dict(coords=coords, pts=sample, vals=svals), con=con,
                kernel=draw(st.sampled_from(kernels)), miss=draw(st.sampled_from([None, True, False])),
                coords_only=draw(st.integers(0, 4)) == 0, entry=draw(st.integers(0, 2)))


def seconds(text):
    import re
    tot = 0
    for num, unit in re.findall(r'(\d+)([DHMS])', text):
        tot += int(num) * {'D': 86400, 'H': 3600, 'M': 60, 'S': 1}[unit]
    return tot


def km_of(v):
    v = str(v)
    if v.endswith('km'):
        return float(v[:-2])
    if v.endswith('m'):
        return float(v[:-1]) / 1000
    return float(v)


def m_of(v):
    v = str(v)
    if v.endswith('km'):
        return float(v[:-2]) * 1000
    if v.endswith('m'):
        return float(v[:-1])
    return float(v)


def selection(case):
    """For each sample point: booleans definitely selected, and ambiguous (too near a limit to call)."""
    d, s, con = case['data'], case['sample'], case['con']
    ok_data = ~np.isnan(gen.vals_nan(d))
    sel, amb, hd = [], [], []
    for i in range(len(s['pts'])):
        keep, unsure = ok_data.copy(), np.zeros(len(ok_data), bool)

        def limit(x, lim, eps):
            keep[:] &= x < lim
            unsure[:] |= np.abs(x - lim) <= eps
        dist = gen.great_circle(gen.col(d, 'latitude'), gen.col(d, 'longitude'),
                                gen.col(s, 'latitude')[i], gen.col(s, 'longitude')[i])
        hd.append(dist)
        if 'h_sep' in con:
            limit(dist, km_of(con['h_sep']), 1e-3)
        if 'a_sep' in con:
            limit(np.abs(gen.col(d, 'altitude') - gen.col(s, 'altitude')[i]), m_of(con['a_sep']), 1e-6)
        if 'p_sep' in con:
            p, q = gen.col(d, 'air_pressure'), gen.col(s, 'air_pressure')[i]
            limit(np.maximum(p / q, q / p), float(con['p_sep']), 1e-9)
        if 't_sep' in con:
            limit(np.abs(gen.col(d, 'time') - gen.col(s, 'time')[i]), seconds(con['t_sep']) / 86400.0, 1e-6)
        amb.append(unsure & ok_data & np.where(keep, True, True))
        sel.append(keep)
    return sel, amb, hd


def expected(case, i, keep, hd):
    """(list of acceptable tuples of output values) for sample i with data selection keep."""
    d, s = case['data'], case['sample']
    v = gen.vals_nan(d)
    k = case['kernel']
    n_out = 3 if k in ('', 'moments') else 1
    if not keep.any():
        return [(np.nan,) * n_out]
    x = v[keep]
    std = np.std(x, ddof=1) if len(x) > 1 else np.nan
    if k in ('', 'moments'):
        return [(np.mean(x), std, float(len(x)))]
    simple = {'mean': np.mean, 'min': np.min, 'max': np.max, 'sum': np.sum}
    if k in simple:
        return [(simple[k](x),)]
    if k == 'stddev':
        return [(std,)]
    if k in ('nn_h', 'nn_horizontal'):
        sep, tol = hd[keep], 1e-4
    elif k in ('nn_p', 'nn_pressure'):
        p, q = gen.col(d, 'air_pressure')[keep], gen.col(s, 'air_pressure')[i]
        sep, tol = np.maximum(p / q, q / p), 1e-9
    else:
        name = NEEDS[k]
        sep, tol = np.abs(gen.col(d, name)[keep] - gen.col(s, name)[i]), 1e-9
    return [(y,) for y in x[sep <= sep.min() + tol]]


def decide(case, ctx):
    from cis.data_io.ungridded_data import UngriddedDataList
    data, k = gen.make(case['data']), case['kernel']
    variables = [case['data']]
    if case.get('vals2'):
        variables.append(dict(case['data'], vals=case['vals2'], dtype=None))
        data = UngriddedDataList([data, gen.make(variables[1], **gen.SNOW)])
        ctx.tag('two_variables')
    if case['coords_only']:
        sample = gen.build_ungridded(case['sample']['coords'], case['sample']['pts'], None, case['sample'].get('shape'))
    else:
        sample = gen.make(case['sample'], var='samp')
    kw = dict(case['con'])
    if case['miss'] is not None:
        kw['missing_data_for_missing_sample'] = case['miss']
    if k:
        kw['kernel'] = k
    with ctx.sut('collocation'):
        if case['entry'] == 0:
            out = data.collocated_onto(sample, how='box', **kw)
        elif case['entry'] == 1:
            out = sample.sampled_from(data, how='', **kw)
        else:
            out = (data if case.get('vals2') else UngriddedDataList([data])).collocated_onto(sample, how='box', **kw)
    # The default is to honour missing sample values, unless the sample has no values
    honour = not case['coords_only'] and case['miss'] is not False
    n_out = 3 if k in ('', 'moments') else 1
    check(len(out) == n_out * len(variables), 'expected %d output variables, got %d', n_out * len(variables), len(out))
    gen.described(data if case.get('vals2') else [data], out)
    for k, variable in enumerate(variables):
        judge(dict(case, data=variable), out[k * n_out:(k + 1) * n_out], honour, n_out, ctx)


def judge(case, out, honour, n_out, ctx):
    k = case['kernel']
    ns = len(case['sample']['pts'])
    got = [gen.filled(o.data).ravel() for o in out]
    for g in got:
        check(g.size == ns, 'output has %d values for %d sample points', g.size, ns)
    lon = gen.col(case['sample'], 'longitude')
    start = -180 if lon.min() < 0 else 0
    for name in case['sample']['coords']:
        want = gen.col(case['sample'], name)
        if name == 'longitude':
            want = gen.wrap_lon(want, start)
        have = np.asarray(out[0].coord(standard_name=name).data, float).ravel()
        check(gen.same(have, want, atol=1e-9), 'output %s is not that of the sample: %s != %s', name, have, want)
    sel, amb, hd = selection(case)
    sv = gen.vals_nan(case['sample'])
    interesting = set()
    for i in range(ns):
        have = tuple(g[i] for g in got)
        if honour and np.isnan(sv[i]):
            check(all(np.isnan(h) for h in have), 'sample point %d is missing but the result is %s', i, have)
            continue
        if amb[i].any():
            ctx.tag('ambiguous')
            continue
        if 0 < sel[i].sum() < len(sel[i]):
            interesting.add('part')
        interesting.add(tuple(sel[i]))
        want = expected(case, i, sel[i], hd[i])
        check(any(np.allclose(have, w, equal_nan=True, **gen.tolerance(case['data'])) for w in want),
              'sample point %d: got %s, expected %s (selected data %s)', i, have, want, np.flatnonzero(sel[i]).tolist())
    ctx.nontrivial('part' in interesting or len(interesting) > 1)
    ctx.tag('kernel_' + (k or 'default'), *sorted(case['con']))


SUBS = [Sub('box_brute_force', gen.single(gen.typed(cases()), 'data', 'sample'), decide, quick=2000, thorough=60000),
        Sub('box_many_points', gen.single(many(), 'data', 'sample'), decide, quick=500, thorough=20000),
        Sub('profiles', gen.single(profiles(), 'data', 'sample'), decide, quick=800, thorough=30000)]
