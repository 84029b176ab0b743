"""Decoding of packed NetCDF variables: fill values, valid ranges, scales and offsets."""
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Packed NetCDF variables are decoded: fill values, valid ranges, scale, offset',
    statement="""A variable of an ungridded NetCDF product is read as its stored numbers times scale_factor plus add_offset (either may be
    absent), for every type of number. Exactly those values are missing which equal the _FillValue or a missing_value, or lie
    outside valid_min, valid_max or valid_range (ends are valid; all of these are in stored numbers); range attributes which are no
    numbers are ignored. Coordinates are decoded in the same way and points with a missing one left out, and data which were read
    so can be subset, saved and read again without changing in value (if each has a single missing_value).""",
    text='all number types, stored values and combinations of the attributes, in variables and coordinates, and numbers of files',
    why="""The tests read a few sample files with one combination each.""",
    files=['cis/data_io/netcdf.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/write_netcdf.py',
           'cis/data_io/products/products.py', 'cis/data_io/products/CCI.py'],
    mechanism=[('get_data, apply_offset_and_scaling, find_missing_value', 'cis/data_io/netcdf.py'),
               ('UngriddedData._post_process', 'cis/data_io/ungridded_data.py')],
    observe=['cis.read_data', 'UngriddedData.data'],
    note="""Hypothesis cases against the formula, one number at a time; files are written with netCDF4 in a scratch folder. Stored
    values equal to NetCDF's default fill values are not generated.""")

RULE = 'A case is some variables with attributes and stored numbers. Non-trivial: there is a scale, an offset or a missing value.'

LIMITS = {'i1': (-100, 100), 'u1': (0, 200), 'i2': (-2000, 2000), 'u2': (0, 2000), 'i4': (-100000, 100000), 'i8': (-10**6, 10**6),
          'f4': (-4000, 4000), 'f8': (-4000, 4000)}


@st.composite
def packing(draw, coord=False):
    dtype = draw(st.sampled_from(sorted(LIMITS)))
    lo, hi = LIMITS[dtype]
    some = st.sampled_from([lo, lo + 1, -9 if lo < 0 else 9, 0, 1, 5, hi // 2, hi] + ([0.1, 0.7, -1.3] if dtype[0] == 'f' else []))
    a = {}
    if draw(st.booleans()):
        a['_FillValue'] = draw(some)
    how = draw(st.sampled_from(['', '', 'one', 'many']))
    if how:
        a['missing_value'] = draw(some) if how == 'one' else draw(st.lists(some, min_size=2, max_size=2, unique=True))
    if draw(st.integers(0, 2)) == 0:
        a['scale_factor'] = draw(st.sampled_from([0.01, 0.5, 2.0, 1.0, -0.25, 10.0]))
    if draw(st.integers(0, 2)) == 0:
        a['add_offset'] = draw(st.sampled_from([0.0, 10.0, -273.15, 5.0]))
    how = draw(st.sampled_from(['', '', 'range', 'min', 'max', 'both', 'all', 'text']))
    x, y = sorted(draw(st.lists(some, min_size=2, max_size=2, unique=True)))
    if how in ('range', 'all'):
        a['valid_range'] = [x, y]
    if how in ('min', 'both', 'all'):
        a['valid_min'] = draw(some) if how == 'all' else x
    if how in ('max', 'both'):
        a['valid_max'] = y
    if how == 'text':
        a[draw(st.sampled_from(['valid_min', 'valid_max', 'valid_range']))] = draw(st.sampled_from(['none', '1-2', '']))
    # (limits are meant in the type of the variable, if they are given in another one)
    return dict(dtype=dtype, attributes=a, wide=draw(st.booleans()), big=draw(st.booleans()))


@st.composite
def stored(draw, p, n):
    lo, hi = LIMITS[p['dtype']]
    special = [v for k, v in p['attributes'].items() if k not in ('scale_factor', 'add_offset') and not isinstance(v, str)]
    special = [x for v in special for x in (v if isinstance(v, list) else [v])]
    near = sorted(set(x + d for x in special for d in (-1, 0, 1) if lo <= x + d <= hi))
    num = st.integers(lo, hi)
    if p['dtype'][0] == 'f':
        num = st.one_of(num, num.map(lambda i: i / 8.0), st.just('nan'))
    opts = [num, num] + ([st.sampled_from(near)] if near else [])
    return draw(st.lists(st.one_of(*opts), min_size=n, max_size=n))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8))
    var = draw(packing())
    coords = {}
    names = ['latitude', 'longitude'] + draw(st.lists(st.sampled_from(['altitude', 'air_pressure']), max_size=1))
    for c in names:
        if draw(st.integers(0, 2)) == 0:
            p = draw(packing(True))
        else:
            p = dict(dtype='f8', attributes={})
        coords[c] = p
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        files.append(dict(var=draw(stored(var, n)), coords={c: draw(stored(coords[c], n)) for c in names}))
    return dict(var=var, coords=coords, files=files, names=names, product=draw(st.sampled_from([None, 'cis'])),
                start=draw(st.sampled_from([None, -180, 0])), keep=draw(st.lists(st.booleans(), min_size=2 * n, max_size=2 * n)))


def stored_as(p, x):
    """A number as the variable's type holds it."""
    return float(np.float32(x)) if p['dtype'] == 'f4' else x


def decode(p, x):
    """The value of stored number x, or None."""
    a = p['attributes']
    if x == 'nan':
        return 'nan'
    x = stored_as(p, x)
    for k in ('_FillValue', 'missing_value'):
        v = a.get(k, [])
        if x in [stored_as(p, i) for i in (v if isinstance(v, list) else [v])]:
            return None
    for k in ('valid_min', 'valid_max', 'valid_range'):
        v = a.get(k)
        if v is None or isinstance(v, str):
            continue
        v = [stored_as(p, i) for i in v] if isinstance(v, list) else stored_as(p, v)
        if k == 'valid_min' and x < v or k == 'valid_max' and x > v or k == 'valid_range' and not v[0] <= x <= v[1]:
            return None
    return x * a.get('scale_factor', 1) + a.get('add_offset', 0)


def write(case, f, path):
    import netCDF4
    ds = netCDF4.Dataset(path, 'w')
    try:
        ds.source = 'CIS1.7'
        ds.createDimension('obs', len(f['var']))
        for name, p, vals, units in [('v', case['var'], f['var'], 'K')] + [(c, case['coords'][c], f['coords'][c], gen.UNITS[c])
                                                                           for c in case['names']]:
            a = dict(p['attributes'])
            v = ds.createVariable(name, p['dtype'], ('obs',), fill_value=a.pop('_FillValue', None),
                                  endian='big' if p.get('big') else 'native')
            v.set_auto_maskandscale(False)
            v[:] = np.array([float('nan') if x == 'nan' else x for x in vals]).astype(p['dtype'])
            for k, x in a.items():
                v.setncattr(k, x if isinstance(x, str) else x if k in ('scale_factor', 'add_offset') else
                            np.array(x, 'f8' if p.get('wide') and p['dtype'] == 'f4' and 'valid' in k else p['dtype']))
            v.units = units
            if name != 'v':
                v.standard_name = name
    finally:
        ds.close()


def expected(case):
    """(values, coordinates), points with missing coordinates left out."""
    vals, coords = [], []
    for f in case['files']:
        for i in range(len(f['var'])):
            point = [decode(case['coords'][c], f['coords'][c][i]) for c in case['names']]
            if not any(x is None or x == 'nan' for x in point):
                vals.append(decode(case['var'], f['var'][i]))
                coords.append(point)
    return vals, coords


def compare(case, data, vals, coords, what):
    a = np.ma.asarray(data.data)
    check(a.shape == (len(vals),), '%s: %s values, not %d', what, a.shape, len(vals))
    mask = np.ma.getmaskarray(a)
    for i, v in enumerate(vals):
        got = np.ma.getdata(a)[i]
        if v == 'nan' and mask[i] and 'again' in what:        # (netCDF4 packs NaN as missing)
            continue
        check(bool(mask[i]) == (v is None), '%s: value %d (%r) is %s', what, i, v, 'missing' if mask[i] else 'given as %r' % got)
        if v == 'nan':
            check(got != got, '%s: value %d is %r, not NaN', what, i, got)
        elif v is not None:
            check(abs(got - v) <= 2e-6 * max(abs(v), 300), '%s: value %d is %r, not %r', what, i, got, v)
    for k, c in enumerate(case['names']):
        got = gen.filled(data.coord(standard_name=c).points)
        want = np.array([p[k] for p in coords], float)
        check(got.shape == want.shape and np.all(np.abs(got - want) <= 2e-6 * np.maximum(np.abs(want), 300)),
              '%s: %s is %s, not %s', what, c, got, want)


def decide(case, ctx):
    import cis
    folder = ctx.dir()
    paths = []
    for i, f in enumerate(case['files']):
        paths.append(os.path.join(folder, 'f%d.nc' % i))
        write(case, f, paths[-1])
    vals, coords = expected(case)
    a = case['var']['attributes']
    ctx.nontrivial('scale_factor' in a or 'add_offset' in a or None in vals)
    ctx.tag(case['var']['dtype'], *sorted(a))
    if len(vals) < sum(len(f['var']) for f in case['files']):
        ctx.tag('points left out')
    if not vals:
        ctx.tag('nothing left')
        return
    with ctx.sut('reading'):
        d = cis.read_data(paths, 'v', case['product'])
        compare(case, d, vals, coords, 'read')
    if any(isinstance(p['attributes'].get('missing_value'), list) for p in [case['var']] + list(case['coords'].values())):
        return                        # several missing values cannot be saved
    with ctx.sut('saving and reading again'):
        path = os.path.join(folder, 'again.nc')
        d.save_data(path)
        compare(case, cis.read_data(path, 'v'), vals, coords, 'read again')
    k = case['names'].index('longitude')
    if case['start'] is not None and all(abs(p[k]) < 1000 for p in coords):
        ctx.tag('longitudes shifted')
        with ctx.sut('shifting the longitudes, saving and reading again'):
            moved = d.copy()
            moved.set_longitude_range(case['start'])
            path = os.path.join(folder, 'moved.nc')
            moved.save_data(path)
            lons = gen.filled(cis.read_data(path, 'v').lon.points)
            check(lons.shape == (len(coords),), 'moved and read again: %d points, not %d', len(lons), len(coords))
            for p, x in zip(coords, lons):
                check(-1e-3 <= x - case['start'] <= 360.001 and abs((x - p[k] + 180) % 360 - 180) < 1e-3,
                      'moved and read again: longitude %r became %r', p[k], x)
    keep = case['keep'][:len(vals)]
    if any(keep):
        with ctx.sut('saving a part and reading again'):
            part = d[np.array(keep)]
            want = [[x for x, k in zip(y, keep) if k] for y in (vals, coords)]
            compare(case, part, want[0], want[1], 'part')
            path = os.path.join(folder, 'part.nc')
            part.save_data(path)
            compare(case, cis.read_data(path, 'v'), want[0], want[1], 'part read again')


SUBS = [Sub('decode', cases(), decide, quick=1000, thorough=20000)]
