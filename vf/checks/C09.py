"""Ungridded data written to NetCDF and read back."""
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Saved ungridded data read back the same, from any number of files',
    statement="""Ungridded data (a variable or a list of variables, with any of the standard coordinates) which are saved to NetCDF
    and read again have the same values in the same order, the same missing values (and no others), the same coordinates, and the
    same names, units, history and attributes, whatever their type of numbers, missing-value marker or shape (they become
    one-dimensional). Variables of the same name are all saved, the later ones with a number
    after their name. Several such files read together give the points of the files one after the other in the order asked for,
    points with a missing coordinate are left out of data and coordinates alike, and data which were read can be saved again without
    change.""",
    text='all point sets, number types, missing values, attributes and numbers of files and variables',
    why="""The tests write one small file or two and compare single variables without missing values.""",
    files=['cis/data_io/write_netcdf.py', 'cis/data_io/netcdf.py', 'cis/data_io/ungridded_data.py',
           'cis/data_io/products/products.py', 'cis/data_io/data_reader.py'],
    mechanism=[('add_data_to_file', 'cis/data_io/write_netcdf.py'), ('get_data, get_metadata', 'cis/data_io/netcdf.py'),
               ('cis product', 'cis/data_io/products/products.py'), ('LazyData.data', 'cis/data_io/ungridded_data.py')],
    observe=['UngriddedData.save_data', 'UngriddedDataList.save_data', 'cis.read_data', 'cis.read_data_list'],
    note="""Hypothesis cases: round trip through files in a scratch folder, compared with the lists of numbers they were made from.
    Values which equal the missing-value marker (or NetCDF's default one) of their variable are not generated.""")

RULE = 'A case is one to three files of points and variables. Non-trivial: some value is missing or there are several files.'

DTYPES = ['float64', 'float64', 'float32', 'int32', 'int16', 'int64', 'int8', 'uint8', 'uint16']
WORDS = st.sampled_from(['a', 'Two words', 'x=1', 'Temp. [K]', 'naïve'])
ORDER = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


WIDER = {'int16': ['int32', 'int64', 'float64'], 'int32': ['int16', 'float64'], 'int64': ['int16', 'int32'],
         'float64': ['float32'], 'float32': ['float64'], 'uint16': ['int32']}


def lay(a, layout, k):
    """The same array in another memory layout."""
    if layout == 'mixed':
        layout = [None, 'F', 'reversed'][k % 3]
    if layout == 'F':
        return a.copy(order='F')
    if layout == 'strided':
        return np.ma.repeat(a, 2, axis=-1)[..., ::2] if np.ma.isMaskedArray(a) else np.repeat(a, 2, axis=-1)[..., ::2]
    if layout == 'swapped':
        return a.astype(a.dtype.newbyteorder())
    if layout == 'reversed':
        return a[::-1].copy()[::-1]
    return a


def dtypes(case, f):
    return f.get('types') or [v['dtype'] for v in case['vars']]


@st.composite
def variables(draw):
    out = []
    for i in range(draw(st.integers(1, 3))):
        dtype = draw(st.sampled_from(DTYPES))
        # (NetCDF's default fill values apply to missing values if there is no other marker, save that bytes have none)
        marker = draw(st.sampled_from([0, 99] if 'int8' in dtype else [None, None, 0, -999, 99] if dtype[0] != 'u'
                                      else [None, 0, 99]))
        out.append(dict(name=['rain', 'AOT_440', 'x'][i], dtype=dtype, marker=marker, missing_ok=True,
                        standard_name=draw(st.sampled_from(['', 'rainfall_flux', 'air_temperature', None])),
                        long_name=draw(st.one_of(st.just(''), WORDS)),
                        units=draw(st.sampled_from(['1', 'K', 'kg m-2 s-1', 'hPa', 'strange unit', ''])),
                        history=draw(st.one_of(st.just(''), WORDS)),
                        attributes=draw(st.dictionaries(st.sampled_from(['comment', 'source_of_it', 'level']),
                                                        st.one_of(WORDS, st.integers(-5, 5), gen.fixed(-3, 3, 8)), max_size=2)),
                        in_misc=draw(st.booleans())))
    return out


@st.composite
def cases(draw):
    coords = draw(st.lists(st.sampled_from(ORDER), min_size=1, max_size=5, unique=True))
    vs = draw(variables())
    num = st.integers(-120, 120)
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 8))
        pts = draw(st.lists(st.tuples(*[{'time': gen.fixed(149990, 150010, 24), 'altitude': gen.fixed(-10, 5000, 8),
                                         'latitude': gen.fixed(-90, 90, 8), 'longitude': gen.fixed(-180, 360, 8),
                                         'air_pressure': gen.fixed(1, 1100, 8)}[c] for c in coords]).map(list),
                            min_size=n, max_size=n))
        vals = []
        for v in vs:
            item = num if v['dtype'][0] == 'i' else st.integers(0, 120) if v['dtype'][0] == 'u' else num.map(lambda i: i / 4.)
            if v['marker'] is not None:
                item = item.filter(lambda x, m=v['marker']: x != m)
            if v['dtype'][0] == 'f':
                item = st.one_of(item, item, item, st.just('nan'))
            vals.append(draw(st.lists(st.one_of(item, item, item, st.none()), min_size=n, max_size=n)))
        drop = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, len(coords) - 1), st.booleans()).map(list),
                             max_size=2)) if draw(st.integers(0, 3)) == 0 else []
        if len(set(d[0] for d in drop)) == n:
            drop = []
        # The same variable may be held in different types of numbers in different files
        types = None
        if draw(st.integers(0, 3)) == 0:
            types = [draw(st.sampled_from(WIDER.get(v['dtype'], []) + [v['dtype']])) for v in vs]
        files.append(dict(pts=pts, vals=vals, drop=drop, two_d=n % 2 == 0 and n > 1 and draw(st.booleans()), types=types,
                          layout=draw(st.sampled_from([None, None, 'F', 'strided', 'reversed', 'mixed', 'swapped']))))
    return dict(coords=coords, vars=vs, files=files, coord_dtype=draw(st.sampled_from(['float64', 'float64', 'float32'])),
                force_mask=draw(st.booleans()), names=draw(st.permutations(list(range(len(files))))),
                read=draw(st.sampled_from(['one', 'list', 'wild'])), again=draw(st.integers(0, 2)) == 0)


def build(case, f):
    from cis.data_io.ungridded_data import UngriddedData, Metadata, UngriddedDataList
    from cis.data_io.Coord import Coord, CoordList
    n = len(f['pts'])
    shape = (n // 2, 2) if f['two_d'] else (n,)
    out = UngriddedDataList()
    for v, vals, dtype in zip(case['vars'], f['vals'], dtypes(case, f)):
        cs = CoordList()
        for k, name in enumerate(case['coords']):
            mask = np.zeros(n, bool)
            a = np.array([p[k] for p in f['pts']], dtype='float64' if name == 'time' else case['coord_dtype'])
            for i, j, as_nan in f['drop']:
                if j == k:
                    if as_nan:
                        a[i] = np.nan
                    else:
                        mask[i] = True
            if mask.any():
                a = np.ma.array(a, mask=mask)
            units = cis_time() if name == 'time' else gen.UNITS[name]
            cs.append(Coord(lay(a.reshape(shape), f.get('layout'), k), Metadata(name=gen.VAR[name], standard_name=name, long_name='the ' + name,
                                                       units=units, shape=shape), gen.AXIS[name]))
        data = lay(gen.to_ma(vals, case['force_mask'], dtype=dtype).reshape(shape), f.get('layout'), len(out))
        md = Metadata(name=v['name'], standard_name=v['standard_name'], long_name=v['long_name'], units=v['units'],
                      missing_value=v['marker'], history=v['history'], shape=shape,
                      misc=dict(v['attributes']) if v['in_misc'] else None)
        d = UngriddedData(data, md, cs)
        if not v['in_misc']:
            d.add_attributes(v['attributes'])
        out.append(d)
    return out


def cis_time():
    from cis.time_util import cis_standard_time_unit
    return cis_standard_time_unit


def expected(case):
    """(coordinates, one array per variable), with missing values as None."""
    coords, vals = [[] for _ in case['coords']], [[] for _ in case['vars']]
    for i in case['names']:
        f = case['files'][i]
        gone = set(d[0] for d in f['drop'])
        for j, p in enumerate(f['pts']):
            if j not in gone:
                for k, x in enumerate(p):
                    coords[k].append(x)
                for k, v in enumerate(f['vals']):
                    vals[k].append(v[j])
    return coords, vals


def compare(case, data, var, coords, vals, what):
    check(not data.is_gridded, '%s: gridded data', what)
    a = np.ma.asarray(data.data)
    check(a.ndim == 1 and a.shape == (len(vals),) == data.shape, '%s: shape %s (%s) for %d points', what, a.shape, data.shape,
          len(vals))
    k = [v['name'] for v in case['vars']].index(var['name'])
    dtype = str(np.result_type(*[dtypes(case, f)[k] for f in case['files']]))
    check(str(a.dtype) == dtype, '%s: %s became %s', what, dtype, a.dtype)
    mask = np.ma.getmaskarray(a)
    for i, v in enumerate(vals):
        check(bool(mask[i]) == (v is None), '%s: value %d, %r, is %s', what, i, v, 'missing' if mask[i] else 'not missing')
        if v is not None:
            got = float(np.ma.getdata(a)[i])
            check(got == float(v) or (v == 'nan' and got != got), '%s: value %d is %r, not %r', what, i, got, v)
    found = data.coords()
    check(sorted(c.standard_name for c in found) == sorted(case['coords']), '%s: coordinates %s', what,
          [c.standard_name for c in found])
    for name, want in zip(case['coords'], coords):
        c = data.coord(standard_name=name)
        got = gen.filled(c.points)
        dtype = 'float64' if name == 'time' else case['coord_dtype']
        check(got.shape == (len(want),) and np.array_equal(got, np.array(want, dtype).astype(float)), '%s: %s is %s, not %s', what,
              name, got, want)
        check(str(c.points.dtype) == dtype, '%s: %s became %s', what, name, c.points.dtype)
        check(str(c.units) == str(cis_time() if name == 'time' else gen.UNITS[name]), '%s: units of %s: %s', what, name, c.units)
        check(c.long_name == 'the ' + name, '%s: long name %r of %s', what, c.long_name, name)
        check(c.axis == gen.AXIS[name], '%s: axis %r of %s', what, c.axis, name)
    check(data.var_name == var['name'], '%s: var_name %r, not %r', what, data.var_name, var['name'])
    check((data.standard_name or '') == (var['standard_name'] or ''), '%s: standard_name %r, not %r', what, data.standard_name,
          var['standard_name'])
    check(data.long_name == var['long_name'], '%s: long name %r, not %r', what, data.long_name, var['long_name'])
    # (udunits spells units in its own way; NetCDF has no empty units)
    from cf_units import Unit
    try:
        same = Unit(str(data.units)) == Unit(var['units'])
    except ValueError:
        same = str(data.units) == var['units']
    check(same or var['units'] == '', '%s: units %r, not %r', what, data.units, var['units'])
    check((data.history or '') == var['history'], '%s: history %r, not %r', what, data.history, var['history'])
    for k, v in var['attributes'].items():
        got = data.metadata.misc.get(k, data.attributes.get(k))
        check(got is not None and got == v, '%s: attribute %s is %r, not %r', what, k, got, v)
    if var['marker'] is not None:
        check(data.metadata.missing_value == var['marker'], '%s: missing value marker %r, not %r', what,
              data.metadata.missing_value, var['marker'])


def read(case, paths):
    """One data object for each variable."""
    import cis
    names = [v['name'] for v in case['vars']]
    if case['read'] == 'one':
        return [cis.read_data(paths if len(paths) > 1 else paths[0], n) for n in names]
    if case['read'] == 'list':
        out = cis.read_data_list(paths, names)
    else:
        out = cis.read_data_list(','.join(paths), ['rai?', 'AOT*', 'x'][:len(names)])
    check(type(out).__name__ == 'UngriddedDataList' and len(out) == len(names), 'read as %s of %d', type(out).__name__, len(out))
    check(set(out.filenames) == set(paths), 'filenames %s, not %s', out.filenames, paths)
    return out


def decide(case, ctx):
    case = enlarged(case)
    folder = ctx.dir()
    paths = []
    for i, f in enumerate(case['files']):
        with ctx.sut('making and saving the data'):
            data = build(case, f)
            path = os.path.join(folder, 'file%d.nc' % (12 - i))
            if len(data) == 1:
                data[0].save_data(path)
            else:
                data.save_data(path)
        paths.append(path)
    paths = [paths[i] for i in case['names']]
    coords, vals = expected(case)
    ctx.nontrivial(len(paths) > 1 or any(v is None for vs in vals for v in vs))
    ctx.tag('%d files' % len(paths), 'read ' + case['read'])
    if any(f['drop'] for f in case['files']):
        ctx.tag('missing coordinates')
    if any(dtypes(case, f) != dtypes(case, case['files'][0]) for f in case['files']):
        ctx.tag('types differ')
    with ctx.sut('reading'):
        got = read(case, paths)
    for d, var, v in zip(got, case['vars'], vals):
        with ctx.sut('data read'):
            compare(case, d, var, coords, v, 'read ' + var['name'])
    if case['again']:
        with ctx.sut('saving and reading again'):
            got = read(case, paths)
            path = os.path.join(folder, 'again.nc')
            from cis.data_io.ungridded_data import UngriddedDataList
            if len(got) == 1:
                got[0].save_data(path)
            else:
                UngriddedDataList(got).save_data(path)
            got = read(case, [path])
            for d, var, v in zip(got, case['vars'], vals):
                compare(case, d, var, coords, v, 'read again ' + var['name'])
        ctx.tag('saved again')


@st.composite
def many(draw):
    case = draw(cases())
    return dict(case, more=[draw(st.integers(2, 13)), draw(st.sampled_from([10, 300, 2000])), draw(st.integers(0, 10 ** 6))])


def enlarged(case):
    """The case with more files and points, mixing those it has."""
    if not case.get('more'):
        return case
    m, n, seed = case['more']
    rng = np.random.RandomState(seed)
    files = []
    for i in range(m):
        f = case['files'][i % len(case['files'])]
        k = rng.randint(1, n + 1)
        pick = [rng.randint(0, len(f['pts']), k) for _ in range(len(case['coords']) + len(case['vars']))]
        files.append(dict(f, pts=[[f['pts'][p[j]][c] for c, p in enumerate(pick[:len(case['coords'])])] for j in range(k)],
                          vals=[[v[j] for j in p] for v, p in zip(f['vals'], pick[len(case['coords']):])],
                          two_d=f['two_d'] and k % 2 == 0, drop=f['drop'] if k > 9 else []))
    return dict(case, files=files, names=[int(i) for i in rng.permutation(m)])


@st.composite
def same_name(draw):
    """Variables of which some have the same name, or that of a coordinate."""
    data = draw(gen.ungridded(1, 8))
    n = len(data['pts'])
    values = [st.lists(gen.values(True), min_size=n, max_size=n)]
    out = []
    for i in range(draw(st.integers(2, 4))):
        vals = draw(st.one_of(st.sampled_from([o[1] for o in out]), *values)) if out else draw(values[0])
        out.append([draw(st.sampled_from(['rain', 'rain', 'rain_0', 'AOT_440'] + data['coords'][:2])), vals])
    return dict(data=dict(data, dtype=None, coord_dtype=None), vars=out)


def decide_same_name(case, ctx):
    from cis.data_io.ungridded_data import UngriddedDataList
    import cis
    import netCDF4
    d = case['data']
    with ctx.sut('making and saving the data'):
        path = os.path.join(ctx.dir(), 'out.nc')
        UngriddedDataList([gen.make(dict(d, vals=vals), var=name) for name, vals in case['vars']]).save_data(path)
    with netCDF4.Dataset(path) as f:
        there = list(f.variables)
    with ctx.sut('reading'):
        found = {n: gen.filled(cis.read_data(path, n).data) for n in there}
        for c in d['coords']:
            have = cis.read_data(path, there[-1]).coord(standard_name=c).data
            check(gen.same(have, gen.col(d, c)), 'coordinate %s is %s, not %s', c, have, gen.col(d, c))
    for name, vals in case['vars']:
        want = gen.vals_nan(dict(vals=vals))
        check(any(n.startswith(name) and gen.same(a, want) for n, a in found.items()), 'the values %s of %s are not in the file: %s',
              want, name, found)
    names = [v[0] for v in case['vars']]
    ctx.nontrivial(len(set(names)) < len(names) or any(n in d['coords'] for n in names))


SUBS = [Sub('round_trip', cases(), decide, quick=700, thorough=12000),
        Sub('same_name', same_name(), decide_same_name, quick=200, thorough=4000),
        Sub('many_points', many(), decide, quick=80, thorough=2000)]
