"""Strategies for plain cases and builders turning them into CIS objects, shared by the checks."""
import numpy as np
from hypothesis import strategies as st

STD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']
UNITS = {'latitude': 'degrees_north', 'longitude': 'degrees_east', 'altitude': 'm', 'air_pressure': 'hPa',
         'time': 'days since 1600-01-01 00:00:00'}
AXIS = {'latitude': 'Y', 'longitude': 'X', 'altitude': 'Z', 'air_pressure': 'P', 'time': 'T'}
VAR = {'latitude': 'lat', 'longitude': 'lon', 'altitude': 'alt', 'air_pressure': 'pres', 'time': 'time'}
RADIUS = 6378.0


def fixed(lo, hi, step=1):
    """Numbers lo..hi (given in units of 1/step) as floats: readable, and shrinking well."""
    return st.integers(int(lo * step), int(hi * step)).map(lambda i: i / float(step))


def values(with_missing=True, with_nan=False):
    """Data values: ordinary numbers, with missing (None) and NaN ('nan') mixed in."""
    num = st.one_of(st.integers(-20, 20).map(float), st.integers(-100000, 100000).map(lambda i: i / 128.0))
    opts = [num, num, num]
    if with_missing:
        opts.append(st.none())
    if with_nan:
        opts.append(st.just('nan'))
    return st.one_of(*opts)


def to_ma(vals, force_mask=True, dtype=float):
    mask = np.array([v is None for v in vals], dtype=bool)
    data = np.array([(0 if v is None else float(v)) for v in vals], dtype=dtype)
    if not force_mask and not mask.any():
        return np.ma.array(data)
    return np.ma.array(data, mask=mask)


def build_ungridded(coord_names, pts, vals, shape=None, var='rain', standard_name='rainfall_flux',
                    long_name='TOTAL RAINFALL RATE: LS+CONV KG/M2/S', units='kg m-2 s-1', force_mask=True,
                    missing_value=None, dtype=float, cls=None, coord_dtype=float):
    """pts: one list of coordinate values per point, in the order of coord_names. vals None: coordinates only."""
    from cis.data_io.ungridded_data import UngriddedData, UngriddedCoordinates, Metadata
    from cis.data_io.Coord import Coord, CoordList
    from cf_units import Unit
    shape = tuple(shape) if shape else (len(pts),)
    cs = CoordList()
    for k, name in enumerate(coord_names):
        arr = np.array([p[k] for p in pts], dtype=float if name == 'time' else coord_dtype).reshape(shape)
        unit = UNITS[name]
        if name == 'time':
            unit = Unit(unit, calendar='gregorian')
        cs.append(Coord(arr, Metadata(name=VAR[name], standard_name=name, long_name=name, units=unit, shape=shape),
                        AXIS[name]))
    if vals is None:
        return UngriddedCoordinates(cs)
    data = to_ma(vals, force_mask, dtype).reshape(shape)
    md = Metadata(name=var, standard_name=standard_name, long_name=long_name, units=units, shape=shape,
                  missing_value=missing_value)
    return UngriddedData(data, md, cs)


@st.composite
def ungridded(draw, min_n=1, max_n=14, coords=None, must=('latitude', 'longitude'), optional=('altitude', 'air_pressure',
              'time'), lat=(-90, 90), lon=(-180, 360), two_d=True, with_nan=False, with_missing=True, clustered=True,
              time0=150000):
    """A case for build_ungridded: points either spread over the globe or clustered within some degrees."""
    if coords is None:
        coords = list(must) + [c for c in optional if draw(st.booleans())]
        coords = draw(st.permutations(coords))
    n = draw(st.integers(min_n, max_n))
    spread = draw(st.sampled_from([10, 40, 180])) if clustered else 180
    clat = draw(fixed(max(lat[0], -90), min(lat[1], 90)))
    clon = draw(fixed(lon[0], lon[1]))
    lons360 = draw(st.booleans())

    def clip(v, lo, hi):
        return lo if v < lo else hi if v > hi else v
    strategies = {
        'latitude': fixed(-spread, spread, 10).map(lambda d: round(clip(clat + d, lat[0], lat[1]), 3)),
        'longitude': fixed(-spread, spread, 10).map(
            lambda d: round(_wrap(clon + d, 0 if lons360 else -180), 3)),
        'altitude': fixed(0, 5000),
        'air_pressure': fixed(1, 1100),
        'time': fixed(0, 20, 24).map(lambda d: time0 + d),
    }
    pts = draw(st.lists(st.tuples(*[strategies[c] for c in coords]).map(list), min_size=n, max_size=n))
    vals = draw(st.lists(values(with_missing, with_nan), min_size=n, max_size=n))
    shape = None
    if two_d and n % 2 == 0 and n > 2 and draw(st.integers(0, 3)) == 0:
        shape = [n // 2, 2]
    return dict(coords=coords, pts=pts, vals=vals, shape=shape, force_mask=draw(st.booleans()))


def make(case, **kw):
    return build_ungridded(case['coords'], case['pts'], case['vals'], shape=case.get('shape'),
                           force_mask=case.get('force_mask', True), **dict({'dtype': case.get('dtype') or float,
                           'coord_dtype': case.get('coord_dtype') or float}, **kw))


def _wrap(lon, start):
    return (lon - start) % 360 + start


def wrap_lon(lon, start):
    """Longitude(s) moved by whole turns into [start, start + 360)."""
    lon = np.asarray(lon, dtype=float)
    return (lon - start) % 360.0 + start


def col(case, name):
    k = case['coords'].index(name)
    return np.array([p[k] for p in case['pts']], dtype=float)


def vals_nan(case):
    """Values of the case with missing ones as NaN."""
    return np.array([np.nan if v is None else float(v) for v in case['vals']], dtype=float)


def great_circle(lat1, lon1, lat2, lon2):
    """Great-circle distance in km, by the angle between the position vectors (well conditioned everywhere)."""
    a, b = _vec(lat1, lon1), _vec(lat2, lon2)
    return RADIUS * np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, axis=-1))


def _vec(lat, lon):
    lat, lon = np.radians(np.asarray(lat, float)), np.radians(np.asarray(lon, float))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) + 0 * lon], axis=-1)


def filled(a):
    """A float array with NaN where masked."""
    a = np.ma.asarray(a)
    return np.ma.filled(a.astype(float), np.nan)


def same(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


# --- Gridded data ----------------------------------------------------------------------------------------------------

GRID_UNITS = {'latitude': 'degrees', 'longitude': 'degrees', 'altitude': 'm', 'air_pressure': 'hPa',
              'time': 'days since 1600-01-01 00:00:00', 'model_level_number': '1'}


@st.composite
def axis_points(draw, lo, hi, n, step=1):
    """n strictly increasing or decreasing numbers between lo and hi, evenly spaced or not."""
    span = hi - lo
    if draw(st.booleans()):
        width = draw(st.integers(1, max(1, int(span / n)))) * 1.0
        start = lo + draw(st.integers(0, max(0, int(span - width * (n - 1)))))
        pts = [start + width * i for i in range(n)]
    else:
        pts = sorted(draw(st.lists(st.integers(int(lo * step), int(hi * step)), min_size=n, max_size=n, unique=True)))
        pts = [p / float(step) for p in pts]
    return pts


@st.composite
def longitudes(draw, min_n=2, max_n=6, circular=None):
    """(points, circular): a global circular grid, or a regional one within one turn, in either convention."""
    circ = draw(st.booleans()) if circular is None else circular
    start = draw(st.sampled_from([-180, 0]))
    if circ:
        n = draw(st.sampled_from([m for m in (2, 3, 4, 5, 6, 8) if min_n <= m <= max(max_n, 3)]))
        off = draw(st.sampled_from([0, 0.5, 0.25])) * 360.0 / n
        return [start + off + i * 360.0 / n for i in range(n)], True
    n = draw(st.integers(min_n, max_n))
    return [float(x) for x in draw(axis_points(start, start + 300, n))], False


@st.composite
def bounds_for(draw, pts, gaps=False):
    """None, or contiguous bounds containing each point (asymmetric), sometimes with gaps, in the order of the points."""
    how = draw(st.sampled_from(['none', 'none', 'mid', 'odd'] + (['gap'] if gaps else [])))
    if how == 'none' or len(pts) < 2:
        return None
    asc = sorted(pts)
    frac = [0.5 if how == 'mid' else draw(st.sampled_from([0.25, 0.5, 0.75])) for _ in range(len(asc) - 1)]
    mids = [a + (b - a) * f for a, b, f in zip(asc, asc[1:], frac)]
    edges = [asc[0] - (mids[0] - asc[0])] + mids + [asc[-1] + (asc[-1] - mids[-1])]
    cells = [[a, b] for a, b in zip(edges, edges[1:])]
    if how == 'gap':
        cells = [[p - (p - a) * draw(st.sampled_from([1, 0.5])), p + (b - p) * draw(st.sampled_from([1, 0.5]))]
                 for p, (a, b) in zip(asc, cells)]
    if pts[0] > pts[-1]:
        cells = [c[::-1] for c in cells[::-1]]
    return cells


@st.composite
def grid(draw, dims=None, optional=('time', 'altitude', 'air_pressure'), min_n=2, max_n=5, circular=None, bounds=False,
         missing=True, decreasing=True, always=('latitude', 'longitude'), max_optional=2, lat=(-90, 90), time0=150000,
         lon=None):
    if dims is None:
        extra = draw(st.lists(st.sampled_from(list(optional)), max_size=max_optional, unique=True)) if optional else []
        if 'altitude' in extra and 'air_pressure' in extra:
            extra.remove('air_pressure')
        dims = draw(st.permutations(list(always) + extra))
    points, bnds, circ = {}, {}, False
    for d in dims:
        n = draw(st.integers(min_n, max_n))
        if d == 'longitude':
            pts, circ = lon if lon is not None else draw(longitudes(max(2, min_n), max(2, max_n), circular))
        elif d == 'latitude':
            pts = draw(axis_points(lat[0], lat[1], n))
        elif d == 'time':
            pts = [time0 + p for p in draw(axis_points(0, 20, n, 4))]
        elif d == 'altitude':
            pts = draw(axis_points(0, 5000, n))
        else:
            pts = draw(axis_points(1, 1000, n))
        pts = [float(p) for p in pts]
        if decreasing and draw(st.integers(0, 3)) == 0:
            pts = pts[::-1]
        points[d] = pts
        bnds[d] = draw(bounds_for(pts, gaps=bounds == 'gaps')) if bounds else None
    shape = [len(points[d]) for d in dims]
    size = int(np.prod(shape))
    miss = []
    if missing and draw(st.booleans()):
        miss = sorted(set(draw(st.lists(st.integers(0, size - 1), max_size=min(size, 8)))))
    return dict(dims=list(dims), points=points, bounds=bnds, circular=circ, seed=draw(st.integers(0, 999)),
                missing=miss, force_mask=draw(st.booleans()))


def grid_values(case):
    """The values of a grid case as a masked array: small multiples of 1/8, all different in practice."""
    shape = [len(case['points'][d]) for d in case['dims']]
    rng = np.random.RandomState(case['seed'])
    data = rng.randint(-400, 400, shape) / 8.0
    if case.get('dtype'):
        data = (data if case['dtype'][0] == 'f' else np.floor(np.abs(data))).astype(case['dtype'])
    if case['missing'] or case.get('force_mask'):
        mask = np.zeros(int(np.prod(shape)), bool)
        mask[case['missing']] = True
        return np.ma.array(data, mask=mask.reshape(shape))
    return data


def build_grid(case, var='rain', standard_name=None, long_name='rain rate', units='kg m-2 s-1', data=None, attributes=None):
    from cis.data_io.gridded_data import make_from_cube
    from iris.cube import Cube
    from iris.coords import DimCoord
    coords = []
    for i, d in enumerate(case['dims']):
        b = case['bounds'].get(d) if case.get('bounds') else None
        c = DimCoord(np.array(case['points'][d], float), standard_name=d, var_name=VAR.get(d, d), units=GRID_UNITS[d],
                     circular=bool(d == 'longitude' and case.get('circular')),
                     bounds=None if b is None else np.array(b, float))
        coords.append((c, i))
    cube = Cube(grid_values(case) if data is None else data, dim_coords_and_dims=coords, var_name=var,
                standard_name=standard_name, long_name=long_name, units=units, attributes=attributes)
    return make_from_cube(cube)


def cells(case, dim):
    """The cells of a dimension as (low, high) pairs: given, or mid-way between the points."""
    b = case['bounds'].get(dim)
    if b is not None:
        return [(min(c), max(c)) for c in b]
    p = np.array(case['points'][dim])
    mid = (p[:-1] + p[1:]) / 2
    edges = np.concatenate([[p[0] - (p[1] - p[0]) / 2], mid, [p[-1] + (p[-1] - p[-2]) / 2]])
    if dim == 'latitude':            # Iris does not guess cells reaching beyond the poles
        edges = np.clip(edges, -90, 90) if (np.abs(p) <= 90).all() else edges
    return [(min(a, b), max(a, b)) for a, b in zip(edges, edges[1:])]


SNOW = dict(var='snow', standard_name='snowfall_flux', long_name='Snow at the ground', units='m s-1')
TWO = [{}, dict(standard_name='air_temperature', long_name='how warm it is', units='K')]


def described(sources, results, coords=()):
    """Check the names and units of what was calculated from these variables: as many results of each, in their order.
    Those which would have the name of one of the coordinates are renamed."""
    from cf_units import Unit
    from vf.core import check
    n = len(results) // len(sources)
    for i, r in enumerate(results):
        s, k = sources[i // n], i % n
        name = s.var_name + ['', '_std_dev', '_num_points'][k]
        clash = name in coords
        if clash:
            name = 'aggregated_' + name
        check(r.var_name == name, 'var_name %r of result %d, not %r', r.var_name, i, name)
        title = ['', 'Corrected sample standard deviation of ', 'Number of points used to calculate the mean of '][k] + s.long_name
        check(clash or r.long_name == title, 'long name %r of %s, not %r', r.long_name, name, title)
        standard = None if k else s.standard_name
        check(clash or (r.standard_name or None) == (standard or None), 'standard name %r of %s, not %r', r.standard_name, name, standard)
        if k == 2:
            check(not any(Unit(str(r.units)).is_convertible(u) for u in ('kg m-2 s-1', 'm s-1', 'K')), 'units %r of %s', r.units,
                  name)
        else:
            check(Unit(str(r.units)) == Unit(str(s.units)), 'units %r of %s, not %r', r.units, name, s.units)


@st.composite
def many(draw, cases, most=300, where='data'):
    """Cases with many more points, which follow from those of the case and a seed (see enlarged)."""
    case = draw(cases)
    return dict(case, more=[where, draw(st.integers(most // 10, most)), draw(st.integers(0, 10 ** 6))])


def enlarged(case):
    """The case with its further points: each with coordinate values of several of the case's points, or something off them."""
    if not case.get('more'):
        return case
    where, n, seed = case['more']
    rng = np.random.RandomState(seed)
    d = case[where]
    old = len(d['pts'])
    cols = []
    for k, c in enumerate(d['coords']):
        v = np.array([p[k] for p in d['pts']], float)
        x = v[rng.randint(0, old, n)] + np.where(rng.rand(n) < 0.5, rng.randint(-40, 41, n) / 8., 0)
        if c == 'latitude':
            x = np.clip(x, -90, 90)
        elif c == 'longitude':
            x = wrap_lon(x, -180 if (v < 0).any() else 0)
        elif c == 'air_pressure':
            x = np.maximum(x, 1)
        cols.append(np.concatenate([v, x]))
    step = 8. if (d.get('dtype') or 'f')[0] == 'f' else 1
    low = 0 if (d.get('dtype') or 'f')[0] == 'u' else -100
    pick = [[rng.randint(low * step, 100 * step) / step if rng.rand() < 0.7 else vals[rng.randint(old)] for _ in range(n)]
            for vals in (d['vals'], case.get('vals2') or d['vals'])]
    out = dict(case, **{where: dict(d, pts=[[float(v) for v in p] for p in zip(*cols)], vals=list(d['vals']) + pick[0], shape=None)})
    if where == 'data' and case.get('vals2'):
        out['vals2'] = list(case['vals2']) + pick[1]
    return out


@st.composite
def typed(draw, cases, key='data', types=('float32', 'int32', 'int16', 'uint8')):
    """Cases, some of whose values are held as other types of numbers."""
    case = draw(cases)
    t = draw(st.sampled_from([None] * 4 + list(types)))
    if t is None:
        return case
    d = dict(case[key], dtype=t)
    if 'vals' in d and t[0] != 'f':
        d['vals'] = [None if v is None else 7. if v == 'nan' else float(abs(int(v)) % 200 if t[0] == 'u' else int(v)) for v in d['vals']]
    return dict(case, **{key: d})


def tolerance(d):
    """Tolerances of results from these values."""
    return dict(rtol=1e-5, atol=1e-3) if d.get('dtype') == 'float32' else dict(rtol=1e-9, atol=1e-9)


@st.composite
def single(draw, cases, *keys):
    """Cases, some of which have their coordinates (other than time) in single precision."""
    case = draw(cases)
    for key in keys:
        if draw(st.integers(0, 3)) == 0:
            d = case[key]
            pts = [[v if c == 'time' else float(np.float32(v)) for c, v in zip(d['coords'], p)] for p in d['pts']]
            case = dict(case, **{key: dict(d, pts=pts, coord_dtype='float32')})
    return case
