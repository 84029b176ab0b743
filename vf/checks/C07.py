"""Subsetting of ungridded data by limits, dates and shapes, against a point by point selection."""
import datetime

import numpy as np
from hypothesis import strategies as st

from vf import gen, refused
from vf.core import Sub, check

PROPERTY = dict(
    title='Subsetting ungridded data keeps exactly the points within the limits',
    statement="""Subsetting ungridded data by any combination of coordinate limits, date and partial-date limits and a lat/lon
    shape (as text or object) keeps exactly the points which satisfy all of them (ends included), in their order, with their values
    (missing ones stay missing), metadata and all coordinates in step, and gives nothing at all when there are none.
    Longitude limits are circular: a point belongs if it lies within the limits in some turn, and its longitude is then given
    in the requested range; limits on coordinates which the data do not have, or two on the same one by different names, are refused. The same points are selected for every variable of a list, by any of a coordinate's names,
    and the original data stay unaltered.""".replace('\n    and the original', ' and the original'),
    text='all point sets, combinations and spellings of limits, and shapes',
    why="""The tests subset a few regular point sets with limits in one longitude convention.""",
    files=['cis/subsetting/subset.py', 'cis/data_io/ungridded_data.py', 'cis/time_util.py'],
    mechanism=[('UngriddedSubsetConstraint', 'cis/subsetting/subset.py'), ('subset', 'cis/subsetting/subset.py'),
               ('PartialDateTime', 'cis/time_util.py')],
    observe=['UngriddedData.subset', 'UngriddedDataList.subset'],
    note="""Hypothesis cases against a loop over the points; shapes by ray casting. Limits span at most 360 degrees of
    longitude; points within 1e-9 of a limit after a shift by a turn, or of the edge of a shape, may go either way.""")

RULE = ('A case is a point set and limits. Non-trivial: some points are kept and some are left out.')

NAMES = {'latitude': ['latitude', 'y', 'lat', 'Y'], 'longitude': ['longitude', 'x', 'lon', 'X'],
         'altitude': ['altitude', 'z', 'alt'], 'air_pressure': ['air_pressure', 'p', 'pres'], 'time': ['time', 't', 'T']}
EPOCH = datetime.datetime(1600, 1, 1)
T0 = (datetime.datetime(2003, 12, 20) - EPOCH).days
MONTHS = [0, 31, 62, 65, 92, 306]      # later starts, such as a leap year's February
ENDS = [(datetime.datetime(*d) - EPOCH).days for d in
        [(2003, 12, 31), (2004, 1, 31), (2004, 2, 28), (2004, 2, 29), (2004, 3, 31), (2003, 2, 28), (2000, 2, 29),
         (1900, 2, 28), (2004, 6, 30), (2004, 8, 31), (2004, 11, 30), (2004, 1, 1), (2004, 10, 31), (2005, 7, 31)]]


def to_datetime(days):
    return EPOCH + datetime.timedelta(days=days)


def interval(draw, vals, wide):
    """Ordered limits, often falling on values of the data."""
    one = st.one_of(st.sampled_from(vals), st.sampled_from(vals), gen.fixed(min(vals) - wide, max(vals) + wide, 8))
    return sorted([draw(one), draw(one)])


@st.composite
def polygons(draw, lons, lats):
    """A polygon around a point of the data, vertices at angles in order, at varying distances; sometimes two."""
    rings = []
    for k in range(draw(st.sampled_from([1, 1, 1, 2]))):
        x = draw(st.sampled_from(lons)) + 0.013 + 500 * k
        y = max(-80, min(80, draw(st.sampled_from(lats)))) + 0.017
        n = draw(st.integers(3, 6))
        radii = draw(st.lists(st.integers(1, 40), min_size=n, max_size=n))
        ring = [[round(x + r * np.cos(2 * np.pi * j / n), 3), round(max(-90., min(90., y + r * np.sin(2 * np.pi * j / n))), 3)]
                for j, r in enumerate(radii)]
        if k:
            j = draw(st.sampled_from([0, 60]))
            ring = [[round(p[0] - 500 + 85 + j, 3), p[1]] for p in ring]
        rings.append(ring)
    return rings


def wkt(rings):
    text = ['((%s))' % ', '.join('%r %r' % tuple(p) for p in r + r[:1]) for r in rings]
    return 'POLYGON %s' % text[0] if len(text) == 1 else 'MULTIPOLYGON (%s)' % ', '.join(text)


def inside(rings, x, y):
    """1 inside, 0 outside, None too close to an edge."""
    for ring in rings:
        hit = False
        for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
            dx, dy = x2 - x1, y2 - y1
            length2 = dx * dx + dy * dy
            t = 0 if length2 == 0 else max(0., min(1., ((x - x1) * dx + (y - y1) * dy) / length2))
            if (x1 + t * dx - x) ** 2 + (y1 + t * dy - y) ** 2 < 1e-16:
                return None
            if (y1 > y) != (y2 > y) and x < x1 + (y - y1) * dx / dy:
                hit = not hit
        if hit:
            return 1
    return 0


def partial_range(p):
    lo = datetime.datetime(*(list(p) + [1, 1][len(p) - 1:] if len(p) < 3 else p))
    if len(p) == 1:
        hi = datetime.datetime(p[0] + 1, 1, 1)
    elif len(p) == 2:
        hi = datetime.datetime(p[0] + p[1] // 12, p[1] % 12 + 1, 1)
    else:
        hi = lo + [datetime.timedelta(days=1), datetime.timedelta(hours=1), datetime.timedelta(minutes=1),
                   datetime.timedelta(seconds=1)][len(p) - 3]
    return lo, hi - datetime.timedelta(seconds=1)


@st.composite
def limits_for(draw, coords, value_of, dates=False):
    """[coord, name, form, lo, hi] for some of the coordinates; with dates always for the time, as dates."""
    out = []
    chosen = draw(st.lists(st.sampled_from(coords), max_size=1 if dates else 3, unique=True))
    if dates and 'time' not in chosen:
        chosen.insert(0, 'time')
    for c in chosen:
        vals = value_of(c)
        name = draw(st.sampled_from(NAMES[c]))
        form = draw(st.sampled_from(['slice', 'list', 'list', 'tuple']))
        if c == 'longitude':
            lo, hi = interval(draw, vals, 30)
            turn = draw(st.sampled_from([0, 0, -360, 360]))
            if draw(st.integers(0, 3)) == 0:
                lo, hi = draw(st.sampled_from([(-180., 180.), (0., 360.), (90., 270.), (-10., 200.), (170., 190.), (-200., -100.),
                                               (350., 370.), (-90., 90.), (180., 360.)]))
            elif draw(st.booleans()) and hi < lo + 360:         # the rest of the circle
                lo, hi = hi, lo + 360.
            lo, hi = lo + turn, hi + turn
            if hi - lo > 360:
                hi = lo + 360
        else:
            lo, hi = interval(draw, vals, 10)
        if c == 'time':
            how = draw(st.sampled_from(['partial', 'partial', 'datetime'] if dates else ['number', 'datetime', 'partial']))
            if how == 'partial':
                date = to_datetime(draw(st.sampled_from(vals)))
                p = list(date.timetuple()[:draw(st.integers(1, 6))])
                form = draw(st.sampled_from(['partial', 'partial in list']))
                out.append([c, name, form, list(p), None])
                continue
            if how == 'datetime':
                form = 'datetime ' + form
        if draw(st.integers(0, 5)) == 0 and c != 'longitude':
            if draw(st.booleans()):
                lo = None
            else:
                hi = None
        out.append([c, name, form, lo, hi])
    return out


def as_kwargs(limits, shape, as_object=False):
    from cis.time_util import PartialDateTime
    kw = {}
    for c, name, form, lo, hi in limits:
        if form.startswith('partial'):
            value = PartialDateTime(*lo)
            kw[name] = [value] if form == 'partial in list' else value
            continue
        if form.startswith('datetime'):
            lo, hi = [None if v is None else to_datetime(v) for v in (lo, hi)]
            form = form.split()[1]
        kw[name] = {'slice': slice(lo, hi), 'list': [lo, hi], 'tuple': (lo, hi)}[form]
    if shape is not None:
        kw['shape'] = wkt(shape)
        if as_object:
            from shapely.wkt import loads
            kw['shape'] = loads(kw['shape'])
    return kw


@st.composite
def dated(draw):
    data = draw(gen.ungridded(min_n=2, max_n=10, must=('latitude', 'longitude', 'time'), optional=('altitude',)))
    k = {c: i for i, c in enumerate(data['coords'])}
    ends = draw(st.lists(st.sampled_from(ENDS), min_size=1, max_size=3))
    for p in data['pts']:
        p[k['time']] = draw(st.sampled_from(ends)) + draw(st.integers(-2, 10)) / 8.
    limits = draw(limits_for(data['coords'], lambda c: [p[k[c]] for p in data['pts']], dates=True))
    return dict(data=data, limits=limits, shape=None, shape_first=False, two=draw(st.booleans()))


@st.composite
def cases(draw):
    case = draw(gen.ungridded(max_n=14, optional=('altitude', 'air_pressure', 'time'), time0=T0))
    k = {c: i for i, c in enumerate(case['coords'])}
    if 'time' in k:
        month = draw(st.sampled_from(MONTHS))
        for p in case['pts']:
            p[k['time']] = round(p[k['time']] * 8) / 8. + month
    shape = None
    limits = draw(limits_for(case['coords'], lambda c: [p[k[c]] for p in case['pts']]))
    if draw(st.integers(0, 2)) == 0:
        lons, lats = [[p[k[c]] for p in case['pts']] for c in ('longitude', 'latitude')]
        shape = draw(polygons(lons, lats))
        turn = draw(st.sampled_from([0, 0, 360, -360]))
        shape = [[[round(x + turn, 3), y] for x, y in r] for r in shape]
        xs = [p[0] for r in shape for p in r]
        if max(xs) - min(xs) >= 350:
            shape = shape[:1]
        limits = [l for l in limits if l[0] != 'longitude']
    return dict(data=case, limits=limits, shape=shape, shape_first=draw(st.booleans()), shape_object=draw(st.booleans()),
                two=draw(st.integers(0, 3)) == 0)


def beside(v, x, turns):
    """Whether it depends on rounding to single precision which of the values is greater."""
    d = v - x
    return abs((d + 180) % 360 - 180 if turns else d) < 1e-4 and not (exact(v) and exact(x))


def exact(x):
    return x * 64 == round(x * 64)


def select(case):
    """(index, longitude) of the points to keep, and the indices which may be left out."""
    d = case['data']
    keep, doubtful = {}, set()
    single = bool(d.get('coord_dtype'))
    lons, lats = gen.col(d, 'longitude'), gen.col(d, 'latitude')
    cols = {c: gen.col(d, c) for c in d['coords']}
    for i in range(len(d['pts'])):
        ok, lon = True, lons[i]
        for c, name, form, lo, hi in case['limits']:
            vals = cols[c]
            v = vals[i]
            if form.startswith('partial'):
                a, b = partial_range(lo)
                ok = ok and a <= to_datetime(v) <= b
                continue
            lo = vals.min() if lo is None else lo
            hi = vals.max() if hi is None else hi
            if single and c != 'time' and any(beside(v, x, c == 'longitude') for x in (lo, hi)):
                doubtful.add(i)
            if c == 'longitude':
                turns = [t for t in (-720, -360, 0, 360, 720) if lo <= v + t <= hi]
                near = [t for t in (-720, -360, 360, 720) if min(abs(v + t - lo), abs(v + t - hi)) < 1e-9]
                if near and 0 not in turns:
                    doubtful.add(i)
                    turns = turns or near
                ok = ok and bool(turns)
                lon = None if not turns else v if 0 in turns else v + turns[0]
            else:
                ok = ok and lo <= v <= hi
        if case['shape'] and ok:
            xs = [p[0] for r in case['shape'] for p in r]
            where = [(inside(case['shape'], lons[i] + t, lats[i]), lons[i] + t) for t in (-720, -360, 0, 360, 720)
                     if min(xs) - 1e-9 <= lons[i] + t <= max(xs) + 1e-9]
            if any(w is None for w, _ in where) or single and any(w != inside(case['shape'], x + e, lats[i] + e) for w, x in where
                                                                  for e in (-1e-4, 1e-4)):
                doubtful.add(i)
            yes = [x for w, x in where if w or w is None]
            ok = bool(yes)
            lon = yes[0] if yes else lon
        if ok:
            keep[i] = lon
    return keep, doubtful


def decide(case, ctx):
    from cis.data_io.ungridded_data import UngriddedDataList, UngriddedData
    case = gen.enlarged(case)
    d = case['data']
    data = gen.make(d)
    n = len(d['pts'])
    index = gen.make(dict(d, vals=[float(i) for i in range(n)], force_mask=False), var='index', standard_name=None,
                     long_name='index of the point')
    before = [c.data.copy() for c in data.coords()], np.ma.copy(data.data)
    kw = as_kwargs(case['limits'], case['shape'], case.get('shape_object'))
    if case['shape_first'] and 'shape' in kw:
        kw = dict([('shape', kw.pop('shape'))] + list(kw.items()))
    ctx.tag('shape' if case['shape'] else 'no shape', *[l[2] for l in case['limits']])
    keep, doubtful = select(case)
    objects = UngriddedDataList([data, index] if case['two'] else [index, data])
    with ctx.sut('subset of a list by %r' % (kw,)):
        res = objects.subset(**kw)
    with ctx.sut('subset by %r' % (kw,)):
        single = data.subset(**kw)
    for obj, b in ((data, before),):
        check(all(np.array_equal(x.data, y) for x, y in zip(obj.coords(), b[0])) and
              gen.same(gen.filled(obj.data), gen.filled(b[1])), 'the original data were altered')
    if not set(keep) - doubtful and single is None:
        check(res is None, 'nothing is selected from the data alone but %r from the list', res)
        ctx.nontrivial(False)
        return
    check(single is not None, 'nothing was selected although points %s match %r', sorted(keep), kw)
    check(res is not None and len(res) == 2, 'the list gave %r', res)
    check(isinstance(single, UngriddedData), 'the subset is a %s', type(single))
    res = res if case['two'] else res[::-1]
    got = [int(v) for v in np.ma.filled(res[1].data, -1).ravel()]
    check(sorted(got) == got and len(set(got)) == len(got), 'points out of order or repeated: %s', got)
    wrong = (set(got) ^ set(keep)) - doubtful
    check(not wrong, 'by %r, points %s were selected, %s expected\ncoords %s %s', kw, got, sorted(keep), d['coords'], d['pts'])
    values = gen.vals_nan(d)[got]
    for r in (single, res[0]):
        check(gen.same(gen.filled(r.data).ravel(), values), 'values %s instead of %s', r.data, values)
        check(r.var_name == 'rain' and str(r.units) == 'kg m-2 s-1' and r.standard_name == 'rainfall_flux' and
              r.long_name == 'TOTAL RAINFALL RATE: LS+CONV KG/M2/S', 'metadata lost: %s', r.metadata)
    for r in (single, res[0], res[1]):
        check(sorted(c.standard_name for c in r.coords()) == sorted(d['coords']), 'coordinates %s', r.coords())
        for c in d['coords']:
            coord = r.coord(standard_name=c)
            want = gen.col(d, c)[got]
            have = gen.filled(coord.data).ravel()
            check(str(coord.units).split(' 00')[0] == gen.UNITS[c].split(' 00')[0] and coord.var_name == gen.VAR[c],
                  'metadata of %s', c)
            if c == 'longitude':
                want = np.array([keep.get(i, np.nan) for i in got])
                turn = np.abs((have - gen.col(d, c)[got] + 180) % 360 - 180)
                eps = 1e-4 if d.get('coord_dtype') else 1e-9
                check((turn < eps).all(), 'longitudes %s of points at %s', have, gen.col(d, c)[got])
                at_360 = [l for l in case['limits'] if l[0] == c and l[4] - l[3] >= 360]
                bad = ~(np.isnan(want) | (np.abs(have - want) < eps))
                if at_360:
                    bad &= ~(np.abs(np.abs(have - want) - 360) < eps)
                check(not bad.any(), 'longitudes %s, requested range %r, expected %s', have, kw, want)
            else:
                check(gen.same(have, want), '%s: %s instead of %s', c, have, want)
    ctx.nontrivial(0 < len(got) < n)


def by_limits(data, names, limits):
    return data.subset(**limits)


SUBS = [Sub('points', gen.single(gen.typed(cases()), 'data'), decide, quick=2400, thorough=60000),
        Sub('dates', dated(), decide, quick=1200, thorough=30000),
        Sub('many_points', gen.many(cases(), 1200), decide, quick=160, thorough=6000),
        refused.sub('refused', refused.points(), by_limits, 400, 4000)]
