"""Satellite products in HDF4 files."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Satellite HDF files are read as the instruments\' points and values',
    statement="""A variable read from any number of CALIOP, CloudSat or MODIS (level 2 and 3) files is recognised by its file name and
    gives, for each profile and level (or pixel) of the files in order, the value with the product's own scaling applied, at its
    latitude, longitude, time (seconds since 1993 as days since 1600), altitude and pressure. Values are missing where they are the
    fill or missing value or the packed number is outside the valid range (ends included), and nowhere else; points with a missing
    coordinate are left out. MODIS level 3 fields of several days become one grid in time with each day's own period, every slice of
    a multi-dimensional MODIS variable is its own data object, and what was read can be saved and read back unchanged.""",
    text='all shapes, numbers of files, number types, scalings, fill values and valid ranges',
    why="""The tests need satellite files which are not distributed with the code, so none of these readers is tested at all.""",
    files=['cis/data_io/products/caliop.py', 'cis/data_io/products/cloudsat.py', 'cis/data_io/products/MODIS.py',
           'cis/data_io/hdf.py', 'cis/data_io/hdf_sd.py', 'cis/data_io/hdf_vd.py', 'cis/time_util.py'],
    mechanism=[('abstract_Caliop', 'cis/data_io/products/caliop.py'), ('CloudSat', 'cis/data_io/products/cloudsat.py'),
               ('MODIS_L2, MODIS_L3', 'cis/data_io/products/MODIS.py'), ('HDF_SDS', 'cis/data_io/hdf_sd.py'),
               ('convert_sec_since_to_std_time', 'cis/time_util.py')],
    observe=['cis.read_data', 'cis.read_data_list', 'cis.get_variables'],
    note="""Hypothesis cases: files are made with pyhdf in a scratch folder and compared with the numbers they were made from. One
    kilometre MODIS level 2 fields (whose dimensions do not match the coordinates interpolated for them) are not covered.""")

RULE = 'A case is one to three files of one product and a variable. Non-trivial: some value or coordinate is missing, a scaling ' \
       'applies or there are several files.'

SINCE_1993 = (datetime.date(1993, 1, 1) - datetime.date(1600, 1, 1)).days
DTYPES = {'int8': (-60, 60), 'uint8': (0, 120), 'int16': (-1000, 1000), 'uint16': (0, 2000), 'int32': (-90000, 90000),
          'float32': (-100, 100), 'float64': (-100, 100)}
NAMES = {'Caliop_L2': 'CAL_LID_L2_05kmAPro-Prov-V3-01.2009-12-%02dT23-36-08ZN.hdf',
         'Caliop_L1': 'CAL_LID_L1-ValStage1-V3-01.2009-12-%02dT23-36-08ZN.hdf',
         'CloudSat': '20081541810%02d_11107_CS_2B-CLDCLASS_GRANULE_P_R04_E02.hdf',
         'MODIS_L2': 'MYD06_L2.A20100%02d.2255.051.2010.hdf', 'MODIS_L3': 'MYD08_D3.A20100%02d.005.2010.hdf'}


# --- Making files ----------------------------------------------------------------------------------------------------

def sdc(dtype):
    from pyhdf.SD import SDC
    return getattr(SDC, {'float32': 'FLOAT32', 'float64': 'FLOAT64'}.get(dtype, dtype.upper()))


def write_sd(path, datasets, attributes=()):
    """datasets: (name, array, attributes {name: (type, value)}, dimension names)."""
    from pyhdf.SD import SD, SDC
    sd = SD(path, SDC.WRITE | (0 if os.path.exists(path) else SDC.CREATE))
    for name, a, attrs, dims in datasets:
        s = sd.create(name, sdc(str(a.dtype)), a.shape)
        for i, d in enumerate(dims or ()):
            s.dim(i).setname(d)
        s[:] = a
        for k, (t, v) in attrs.items():
            s.attr(k).set(sdc(t) if t != 'char' else SDC.CHAR8, v)
        s.endaccess()
    for k, (t, v) in dict(attributes).items():
        sd.attr(k).set(sdc(t) if t != 'char' else SDC.CHAR8, v)
    sd.end()


def write_vd(path, tables):
    """tables: (name, [(field, array)], attributes)."""
    from pyhdf.HDF import HDF, HC
    import pyhdf.VS  # noqa
    h = HDF(path, HC.WRITE | HC.CREATE)
    vs = h.vstart()

    def hc(dtype):
        return {'char': HC.CHAR8, 'float32': HC.FLOAT32, 'float64': HC.FLOAT64, 'int8': HC.INT8, 'uint8': HC.UINT8,
                'int16': HC.INT16, 'uint16': HC.UINT16, 'int32': HC.INT32}[dtype]

    def value(v):
        return v.tolist()[0] if v.shape == (1,) else v.tolist()
    for name, fields, attrs in tables:
        vd = vs.create(name, [(f, hc(str(a.dtype)), a.shape[1] if a.ndim > 1 else 1) for f, a in fields])
        vd.write([[value(a[i]) for f, a in fields] for i in range(len(fields[0][1]))])
        for k, (t, v) in attrs.items():
            vd.attr(k).set(hc(t), v)
        vd.detach()
    vs.end()
    h.close()


# --- Columns of packed numbers ---------------------------------------------------------------------------------------

@st.composite
def column(draw, n, dtypes, scaled=True):
    """n packed numbers, with what says which are missing and how they are scaled."""
    dtype = draw(st.sampled_from(dtypes))
    lo, hi = DTYPES[dtype]
    num = st.one_of(st.integers(max(lo, -12), 12), st.integers(lo, hi))
    if dtype[0] == 'f':
        num = num.map(lambda i: i / 4.)
    vals = draw(st.lists(num, min_size=n, max_size=n))
    fill = draw(st.sampled_from([None, 'far', 'far', 'near']))
    if fill == 'far':
        fill = {'int8': -127, 'uint8': 255, 'uint16': 65535}.get(dtype, -9999)
    elif fill == 'near':
        fill = draw(num)
    if fill is not None:
        where = draw(st.lists(st.integers(0, n - 1), max_size=2))
        vals = [fill if i in where else v for i, v in enumerate(vals)]
    valid = draw(st.sampled_from([None, None, 'wide', 'data', 'any']))
    if valid == 'wide':
        valid = [lo, hi]
    elif valid is not None:
        pool = st.sampled_from(vals) if valid == 'data' and vals else num
        valid = sorted([draw(pool), draw(pool)])
    out = dict(dtype=dtype, vals=vals, fill=fill, valid=valid, scale=None, offset=None)
    if scaled and draw(st.integers(0, 2)):
        out['scale'] = draw(st.sampled_from([0.01, 0.5, 2., 10., 1.e-3, 1000.]))
        out['offset'] = draw(st.sampled_from([None, 0., 1.5, -15000., 100., -3.]))
    return out


def array(col, shape=None):
    a = np.array(col['vals'], dtype=col['dtype'])
    return a if shape is None else a.reshape(shape)


def unpack(col, how, extra=None):
    """The values meant, None where missing."""
    out = []
    s, o = col['scale'], col['offset']
    s, o = 1. if s is None else s, 0. if o is None else o
    for v in col['vals']:
        if (col['fill'] is not None and v == col['fill']) or \
                (col['valid'] is not None and not col['valid'][0] <= v <= col['valid'][1]) or (extra is not None and extra(v)):
            out.append(None)
        else:
            out.append({'caliop': lambda: v / s + o, 'cloudsat': lambda: (v - o) / s, 'modis': lambda: (v - o) * s}[how]())
    return out


def fill_of(col, name='_FillValue'):
    return {} if col['fill'] is None else {name: (col['dtype'], col['fill'])}


def scale_of(col, scale, offset, types=('float64', 'float64')):
    out = {}
    if col['scale'] is not None:
        out[scale] = (types[0], col['scale'])
    if col['offset'] is not None:
        out[offset] = (types[1], col['offset'])
    return out


def text_of(v, dtype):
    return repr(float(v)) if dtype[0] == 'f' else '%d' % v


# --- Comparing points ------------------------------------------------------------------------------------------------

ORDER = ['latitude', 'longitude', 'time', 'altitude', 'air_pressure']


def compare(got, rows, names, what, ctx, exact_shape=None):
    """rows: a value for each coordinate name, then the data value; those with a missing coordinate are left out."""
    kept = [r for r in rows if all(v is not None for v in r[:-1])]
    vals = gen.filled(got.data).ravel()
    want = np.array([np.nan if r[-1] is None else r[-1] for r in kept], float)
    check(vals.shape == want.shape, '%s: %d values instead of %d', what, vals.size, want.size)
    mask = np.ma.getmaskarray(got.data).ravel()
    check(np.array_equal(mask, np.array([r[-1] is None for r in kept], bool)), '%s: missing values %s instead of %s', what,
          mask.tolist(), [r[-1] is None for r in kept])
    tol = 1e-5 * max([1.] + [abs(r[-1]) for r in kept if r[-1] is not None])
    check(gen.same(vals, want, rtol=1e-5, atol=tol * 1e-2), '%s: values %s instead of %s', what, vals.tolist(), want.tolist())
    check(sorted(c.standard_name for c in got.coords()) == sorted(names), '%s: coordinates %s instead of %s', what,
          [c.standard_name for c in got.coords()], names)
    for k, name in enumerate(names):
        p = gen.filled(got.coord(standard_name=name).points).ravel()
        w = np.array([r[k] for r in kept], float)
        check(gen.same(p, w, rtol=1e-6 if name != 'time' else 1e-11, atol=1e-9), '%s: %s %s instead of %s', what, name, p.tolist(),
              w.tolist())
    check(str(got.coord(standard_name='time').units) == 'days since 1600-01-01 00:00:00', '%s: time in %r', what,
          got.coord(standard_name='time').units)
    if exact_shape is not None and len(kept) == len(rows):
        check(got.shape == exact_shape and got.data.shape == exact_shape, '%s: shape %s, %s instead of %s', what, got.shape,
              got.data.shape, exact_shape)


def sample(case, paths, rows, names, ctx):
    """The points alone, as for collocating onto them."""
    from cis.data_io.products.AProduct import get_coordinates
    kept = [r for r in rows if all(v is not None for v in r[:-1])]
    with ctx.sut('reading the coordinates'):
        got = get_coordinates(paths, case['product'] if case['explicit'] else None)
        found = {c.standard_name: gen.filled(c.points).ravel() for c in got.coords()}
    check(sorted(found) == sorted(names), 'coordinates alone: %s instead of %s', sorted(found), names)
    for k, name in enumerate(names):
        check(gen.same(found[name], [r[k] for r in kept], rtol=1e-6 if name != 'time' else 1e-11, atol=1e-9),
              'coordinates alone: %s %s instead of %s', name, found[name].tolist(), [r[k] for r in kept])


def finish(got, rows, names, case, ctx, folder, what):
    """Saving what was read, and reading that."""
    import cis
    if case['then'] == 'save':
        kept = [r for r in rows if all(v is not None for v in r[:-1])]
        marker = got.metadata.missing_value
        if not kept or any(r[-1] is not None and r[-1] == marker for r in kept):
            return
        with ctx.sut('saving and reading back'):
            path = os.path.join(folder, 'out.nc')
            got.save_data(path)
            back = cis.read_data(path, got.var_name)
            compare(back, rows, names, what + ' saved', ctx)
            check(str(back.units) == str(got.units) or not str(got.units), '%s: units %r became %r', what, got.units, back.units)
        ctx.tag('saved')
    elif case['then'] == 'subset':
        kept = [r for r in rows if all(v is not None for v in r[:-1])]
        if len(kept) < 2:
            return
        k = names.index('latitude')
        lats = sorted(r[k] for r in kept)
        lo, hi = lats[0] - .01, lats[len(lats) // 2] + .01
        with ctx.sut('subset'):
            sub = got.subset(latitude=[lo, hi])
        compare(sub, [r for r in kept if lo <= r[k] <= hi], names, what + ' subset', ctx)
        ctx.tag('subset')


def seconds(st_=st):
    return st_.one_of(st_.integers(0, 10 ** 9).map(float), st_.integers(0, 10 ** 6).map(lambda i: 5e8 + i / 8.))


def common(draw, product):
    return dict(product=product, explicit=draw(st.integers(0, 2)) == 0, then=draw(st.sampled_from(['', 'save', 'subset'])),
                units=draw(st.sampled_from(['K', 'km^-1 sr^-1', 'per kilometer per steradian', 'No Units', '', 'hPA'])),
                long_name=draw(st.sampled_from(['', 'A long name'])), order=draw(st.permutations([0, 1, 2])),
                how=draw(st.sampled_from(['list', 'text', 'list_of_variables'])))


def missing_at(draw, n):
    """Which of n coordinate values are missing: mostly none."""
    return draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)) if draw(st.integers(0, 3)) == 0 else []


def coords_block(draw, n, width):
    """Latitude, longitude and time for n rows of `width` samples, some of them missing."""
    out = {}
    for name, num in (('lat', gen.fixed(-90, 90, 8)), ('lon', gen.fixed(-180, 179.875, 8)), ('time', seconds())):
        vals = draw(st.lists(num, min_size=n * width, max_size=n * width))
        gone = missing_at(draw, n * width) if name != 'time' else []
        out[name] = [None if i in gone else v for i, v in enumerate(vals)]
    return out


def read(case, paths, ctx):
    import cis
    product = case['product'] if case['explicit'] else None
    spelt = paths if case['how'] != 'text' else ','.join(paths)
    with ctx.sut('reading'):
        if case['how'] == 'list_of_variables':
            out = cis.read_data_list(spelt, [case['name']], product)
            check(len(out) == 1, '%d data objects', len(out))
            got = out[0]
        else:
            got = cis.read_data(spelt, case['name'], product)
        if case['product'] != 'MODIS_L3' and not isinstance(got, list):
            got.data
    return got


def begin(case, ctx):
    folder = ctx.dir()
    pattern = NAMES[case['product'].replace('_NO_PRESSURE', '')]
    return folder, [os.path.join(folder, pattern % (k + 10)) for k in case['order'][:len(case['files'])]]


# --- CALIOP ----------------------------------------------------------------------------------------------------------

@st.composite
def caliop(draw):
    product = draw(st.sampled_from(['Caliop_L2', 'Caliop_L2', 'Caliop_L2_NO_PRESSURE', 'Caliop_L1']))
    case = common(draw, product)
    case['explicit'] = case['explicit'] or product.endswith('PRESSURE')
    kind = 'normal' if product == 'Caliop_L1' else draw(st.sampled_from(['normal', 'normal', 'mixed', 'column']))
    name = {'normal': 'Extinction_Coefficient_532', 'mixed': 'CAD_Score', 'column': 'Column_Optical_Depth_Cloud_532'}[kind]
    levels = draw(st.integers(1, 4))
    width = 1 if product == 'Caliop_L1' else 3
    files = []
    flag = draw(st.sampled_from(['fillvalue', 'format', '_FillValue']))
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 4))
        f = coords_block(draw, n, width)
        f['n'] = n
        size = n if kind == 'column' else n * levels * (2 if kind == 'mixed' else 1)
        f['var'] = draw(column(size, ['float32', 'float32', 'int16', 'int8'] if flag != 'format' else ['float32', 'int16', 'int32']))
        f['pres'] = draw(st.lists(gen.fixed(1, 1000, 4), min_size=n * levels, max_size=n * levels))
        f['pres_gone'] = missing_at(draw, n * levels)
        files.append(f)
    # (attributes are those of the first file's variable)
    for f in files[1:]:
        for k in ('dtype', 'fill', 'valid', 'scale', 'offset'):
            f['var'][k] = files[0]['var'][k]
        lo, hi = DTYPES[files[0]['var']['dtype']]
        f['var']['vals'] = [min(max(v if files[0]['var']['dtype'][0] == 'f' else int(v), lo), hi) for v in f['var']['vals']]
    if flag == 'format':
        for f in files:
            if f['var']['fill'] is not None:
                f['var']['vals'] = [-9999 if v == f['var']['fill'] else v for v in f['var']['vals']]
            f['var']['fill'] = -9999
    alts = sorted(draw(st.lists(gen.fixed(-.5, 30, 16), min_size=levels, max_size=levels, unique=True)), reverse=True)
    case.update(name=name, kind=kind, levels=levels, alts=alts, files=files, flag=flag, width=width,
                other_pressure=product == 'Caliop_L1' and draw(st.booleans()), valid_coords=draw(st.booleans()))
    return case


def decide_caliop(case, ctx):
    import cis
    folder, paths = begin(case, ctx)
    nz, width = case['levels'], case['width']
    col = 0 if width == 1 else 1
    rows = []
    for f, path in zip(case['files'], paths):
        n, var = f['n'], f['var']
        write_vd(path, [('metadata', [('ProductID', np.array([[1., 2.]], 'float32')),
                                      ('Lidar_Data_Altitudes', np.array([case['alts']], 'float32'))], {})])
        attrs = {'units': ('char', case['units'])} if case['units'] else {}
        if case['long_name']:
            attrs['long_name'] = ('char', case['long_name'])
        if var['valid'] is not None:
            attrs['valid_range'] = ('char', '...'.join(text_of(v, var['dtype']) for v in var['valid']))
        attrs.update(scale_of(var, 'scale_factor', 'add_offset'))
        if case['flag'] == 'format':
            attrs['format'] = ('char', {'float32': 'Float_32', 'int16': 'Int_16', 'int32': 'Int_32'}[var['dtype']])
        else:
            attrs.update(fill_of(var, case['flag']))
            if case['flag'] == '_FillValue':
                attrs['format'] = ('char', 'Int_7')
        shape = {'normal': (n, nz), 'mixed': (n, nz, 2), 'column': (n, 1)}[case['kind']]
        sets = []
        for name, key, dtype in (('Latitude', 'lat', 'float32'), ('Longitude', 'lon', 'float32'), ('Profile_Time', 'time', 'float64')):
            a = np.array([-9999. if v is None else v for v in f[key]], dtype).reshape(n, width)
            cattrs = {'fillvalue': (dtype, -9999.)} if key != 'time' else {}
            if key == 'lat' and case['valid_coords']:
                cattrs['valid_range'] = ('char', '-90.0...90.0')
            sets.append((name, a, cattrs, None))
        pres = np.array([-9999. if i in f['pres_gone'] else v for i, v in enumerate(f['pres'])], 'float32').reshape(n, nz)
        if case['other_pressure']:
            pres = np.concatenate([pres, pres], axis=1)
        sets.append(('Pressure', pres, {'fillvalue': ('float32', -9999.), 'units': ('char', 'hPA')}, None))
        sets.append((case['name'], array(var, shape), attrs, None))
        write_sd(path, sets)

        vals = unpack(var, 'caliop')
        for i in range(n):
            at = [f['lat'][i * width + col], f['lon'][i * width + col], SINCE_1993 + f['time'][i * width + col] / 86400.]
            if case['kind'] == 'column':
                rows.append(at + [vals[i]])
                continue
            for j in range(nz):
                p = [] if case['other_pressure'] or case['product'].endswith('NO_PRESSURE') else \
                    [None if i * nz + j in f['pres_gone'] else f['pres'][i * nz + j]]
                k = (i * nz + j) * 2 if case['kind'] == 'mixed' else i * nz + j
                rows.append(at + [float(np.float32(case['alts'][j])) * 1000.] + p + [vals[k]])
    names = ORDER[:len(rows[0]) - 1]
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for v in r) or case['files'][0]['var']['scale'] is not None)
    ctx.tag(case['product'], case['kind'], '%d files' % len(paths))
    got = read(case, paths, ctx)
    ntot = sum(f['n'] for f in case['files'])
    compare(got, rows, names, case['name'], ctx, (ntot, nz) if case['kind'] != 'column' else None)
    check(got.var_name == case['name'] and got.long_name == case['long_name'], 'names %r, %r', got.var_name, got.long_name)
    if 'air_pressure' in names:
        check(str(got.coord(standard_name='air_pressure').units) == 'hPa', 'pressure in %r',
              got.coord(standard_name='air_pressure').units)
    with ctx.sut('variables'):
        found = cis.get_variables(paths, case['product'] if case['explicit'] else None)
    check((case['name'] in found) == (case['kind'] == 'normal' or case['kind'] == 'column' and nz == 1),
          'the variables are %s', found)
    if case['kind'] != 'column':
        sample(case, paths, rows, names, ctx)
    finish(got, rows, names, case, ctx, folder, case['name'])


# --- CloudSat --------------------------------------------------------------------------------------------------------

MISSOPS = {'<': lambda v, m: v < m, '<=': lambda v, m: v <= m, '==': lambda v, m: v == m, '>=': lambda v, m: v >= m,
           '>': lambda v, m: v > m}


@st.composite
def cloudsat(draw):
    case = common(draw, 'CloudSat')
    kind = draw(st.sampled_from(['vd', 'vd_height', 'sd', 'sd', 'sd', 'sd_flat']))
    levels = draw(st.integers(1, 4))
    files = []
    types = dict(factor=draw(st.sampled_from(['float64', 'float32'])), offset=draw(st.sampled_from(['float64', 'float32', 'int32'])))
    missop = draw(st.sampled_from([None] + sorted(MISSOPS))) if kind.startswith('sd') else None
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 4))
        f = coords_block(draw, n, 1)
        f['n'] = n
        f['start'] = draw(seconds())
        f['time'] = draw(st.lists(st.integers(0, 10 ** 5).map(lambda i: i / 16.), min_size=n, max_size=n))
        f['var'] = draw(column(n * (levels if kind == 'sd' else 1), ['float32', 'int16', 'uint8', 'int32', 'float64']))
        f['height'] = draw(st.lists(st.integers(-100, 20000), min_size=n * levels, max_size=n * levels))
        f['height_gone'] = missing_at(draw, n * levels)
        files.append(f)
    lo, hi = DTYPES[files[0]['var']['dtype']]
    for f in files[1:]:
        for k in ('dtype', 'fill', 'valid', 'scale', 'offset'):
            f['var'][k] = files[0]['var'][k]
        f['var']['vals'] = [min(max(v if f['var']['dtype'][0] == 'f' else int(v), lo), hi) for v in f['var']['vals']]
    if types['offset'] == 'int32':
        for f in files:
            f['var']['offset'] = None if f['var']['offset'] is None else round(f['var']['offset'])
    missing = draw(st.sampled_from([v for f in files for v in f['var']['vals']])) if missop else None
    case.update(kind=kind, levels=levels, files=files, types=types, missop=missop, missing=missing,
                name='Radar_Reflectivity' if kind.startswith('sd') else 'RVOD_liq_water_path')
    return case


def decide_cloudsat(case, ctx):
    import cis
    folder, paths = begin(case, ctx)
    nz, kind = case['levels'], case['kind']
    rows = []
    for f, path in zip(case['files'], paths):
        n, var = f['n'], f['var']
        tables = []
        for name, key in (('Latitude', 'lat'), ('Longitude', 'lon')):
            a = np.array([-9999. if v is None else v for v in f[key]], 'float32')
            tables.append((name, [(name, a)], {'missing': ('float32', -9999.)}))
        tables.append(('TAI_start', [('TAI_start', np.array([f['start']]))], {}))
        tables.append(('Profile_time', [('Profile_time', np.array(f['time'], 'float32'))], {}))
        attrs = {'units': ('char', case['units'])} if case['units'] else {}
        if case['long_name']:
            attrs['long_name'] = ('char', case['long_name'])
        if var['valid'] is not None:
            attrs['valid_range'] = (var['dtype'], var['valid'])
        attrs.update(scale_of(var, 'factor', 'offset', (case['types']['factor'], case['types']['offset'])))
        sets = []
        if kind.startswith('sd'):
            attrs.update(fill_of(var))
            if case['missop']:
                attrs.update(missop=('char', case['missop']), missing=(var['dtype'], case['missing']))
            sets.append((case['name'], array(var, (n, nz) if kind == 'sd' else (n,)), attrs, None))
        else:
            attrs.update(fill_of(var, 'missing'))
            tables.append((case['name'], [(case['name'], array(var))], attrs))
        if kind in ('sd', 'vd_height'):
            h = np.array([-9999 if i in f['height_gone'] else v for i, v in enumerate(f['height'])], 'int16').reshape(n, nz)
            sets.append(('Height', h, {'_FillValue': ('int16', -9999), 'units': ('char', 'm'), 'factor': ('float64', 1.),
                                       'offset': ('float64', 0.)}, None))
        write_vd(path, tables)
        write_sd(path, sets)

        extra = (lambda v: MISSOPS[case['missop']](v, case['missing'])) if case['missop'] else None
        f32 = dict(var)
        for key, t in (('scale', case['types']['factor']), ('offset', case['types']['offset'])):
            if f32[key] is not None and t == 'float32':
                f32[key] = float(np.float32(f32[key]))
        vals = unpack(f32, 'cloudsat', extra)
        for i in range(n):
            at = [f['lat'][i], f['lon'][i], SINCE_1993 + (f['start'] + float(np.float32(f['time'][i]))) / 86400.]
            if kind == 'sd':
                for j in range(nz):
                    k = i * nz + j
                    rows.append(at + [None if k in f['height_gone'] else float(f['height'][k]), vals[k]])
            else:
                rows.append(at + [vals[i]])
    names = ORDER[:len(rows[0]) - 1]
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for v in r) or case['files'][0]['var']['scale'] is not None)
    ctx.tag(kind, '%d files' % len(paths), 'missop %s' % case['missop'])
    got = read(case, paths, ctx)
    ntot = sum(f['n'] for f in case['files'])
    compare(got, rows, names, case['name'], ctx, (ntot, nz) if kind == 'sd' else (ntot,))
    check(got.var_name == case['name'] and got.long_name == case['long_name'], 'names %r, %r', got.var_name, got.long_name)
    with ctx.sut('variables'):
        found = cis.get_variables(paths, 'CloudSat' if case['explicit'] else None)
    check(kind == 'sd_flat' or case['name'] in found, 'the variables are %s', found)
    if kind != 'vd_height':
        sample(case, paths, rows, names, ctx)
    finish(got, rows, names, case, ctx, folder, case['name'])


# --- MODIS level 2 ---------------------------------------------------------------------------------------------------

@st.composite
def modis_l2(draw):
    case = common(draw, 'MODIS_L2')
    m = draw(st.integers(1, 3))
    lead = draw(st.sampled_from([[], [], [], [2], [3], [1], [2, 2]]))
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 4))
        f = coords_block(draw, n, m)
        f['n'] = n
        f['var'] = draw(column(n * m * int(np.prod(lead)), ['int16', 'int16', 'float32', 'int8', 'uint8', 'int32']))
        files.append(f)
    lo, hi = DTYPES[files[0]['var']['dtype']]
    for f in files[1:]:
        for k in ('dtype', 'fill', 'valid', 'scale', 'offset'):
            f['var'][k] = files[0]['var'][k]
        f['var']['vals'] = [min(max(v if f['var']['dtype'][0] == 'f' else int(v), lo), hi) for v in f['var']['vals']]
    case.update(m=m, lead=lead, files=files, name='Cloud_Effective_Radius', late=draw(st.booleans()),
                fine=not lead and draw(st.integers(0, 19)) == 19)
    return case


def known_1km(case):
    """K2: a variable at 1 km."""
    return bool(case.get('fine'))


def decide_1km(case, ctx):
    """25 pixels of 1 km around each of the coordinates."""
    folder, paths = begin(case, ctx)
    m, rows = case['m'], []
    for f, path in zip(case['files'], paths):
        n = f['n']
        sets = [(name, np.array([0. if v is None else v for v in f[key]], dtype).reshape(n, m), {}, ('Along_5km', 'Across_5km'))
                for name, key, dtype in (('Latitude', 'lat', 'float32'), ('Longitude', 'lon', 'float32'), ('Scan_Start_Time', 'time', 'float64'))]
        sets.append((case['name'], np.arange(25. * n * m).reshape(5 * n, 5 * m), {}, ('Along_1km', 'Across_1km')))
        write_sd(path, sets)
        rows += [[0. if f['lat'][i] is None else f['lat'][i], (i // m * 5 + 2) * 5 * m + i % m * 5 + 2] for i in range(n * m)]
    got = read(case, paths, ctx)
    with ctx.sut('reading'):
        lats, vals = gen.filled(got.coord(standard_name='latitude').data).ravel(), gen.filled(got.data).ravel()
    for lat, val in rows:
        check(any(abs(a - lat) < 1e-3 for a, b in zip(lats, vals) if b == val), 'value %s is not at latitude %s', val, lat)


def decide_modis_l2(case, ctx):
    import cis
    if case.get('fine'):
        return decide_1km(case, ctx)
    folder, paths = begin(case, ctx)
    m, lead = case['m'], case['lead']
    k = int(np.prod(lead))
    rows = [[] for _ in range(k)]
    for f, path in zip(case['files'], paths):
        n, var = f['n'], f['var']
        dims = ('Cell_Along_Swath_5km:mod06', 'Cell_Across_Swath_5km:mod06')
        attrs = {'units': ('char', case['units'])} if case['units'] else {}
        if case['long_name']:
            attrs['long_name'] = ('char', case['long_name'])
        if var['valid'] is not None:
            attrs['valid_range'] = (var['dtype'], var['valid'])
        attrs.update(fill_of(var))
        attrs.update(scale_of(var, 'scale_factor', 'add_offset'))
        sets = []
        for name, key, dtype in (('Latitude', 'lat', 'float32'), ('Longitude', 'lon', 'float32'), ('Scan_Start_Time', 'time',
                                                                                                   'float64')):
            a = np.array([-999.9 if v is None else v for v in f[key]], dtype).reshape(n, m)
            cattrs = {'_FillValue': (dtype, -999.9)}
            if key == 'lat':
                cattrs['valid_range'] = (dtype, [-90., 90.])
            sets.append((name, a, cattrs, dims))
        names = tuple('band_%d:mod06' % i for i in range(len(lead))) + dims
        sets.append((case['name'], array(var, tuple(lead) + (n, m)), attrs, names))
        write_sd(path, sets)
        vals = unpack(var, 'modis')
        for b in range(k):
            for i in range(n * m):
                rows[b].append([f['lat'][i], f['lon'][i], SINCE_1993 + f['time'][i] / 86400., vals[b * n * m + i]])
    names = ORDER[:3]
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for p in r for v in p) or case['files'][0]['var']['scale'] is not None)
    ctx.tag('%d dimensions' % (2 + len(lead)), '%d files' % len(paths))
    got = read(case, paths, ctx)
    ntot = sum(f['n'] for f in case['files'])
    if lead:
        check(isinstance(got, list) and len(got) == k, '%s of %d slices instead of %d', type(got).__name__, len(got), k)
        if case['late']:
            with ctx.sut('reading'):
                for d in got[::-1]:
                    d.data
        for b, d in enumerate(got):
            with ctx.sut('reading'):
                d.data
            compare(d, rows[b], names, 'slice %d' % b, ctx, (ntot, m))
    else:
        compare(got, rows[0], names, case['name'], ctx, (ntot, m))
        check(got.var_name == case['name'] and got.long_name == case['long_name'], 'names %r, %r', got.var_name, got.long_name)
        with ctx.sut('variables'):
            found = cis.get_variables(paths, 'MODIS_L2' if case['explicit'] else None)
        check(case['name'] in found, 'the variables are %s', found)
        sample(case, paths, rows[0], names, ctx)
        finish(got, rows[0], names, case, ctx, folder, case['name'])


# --- MODIS level 3 ---------------------------------------------------------------------------------------------------

@st.composite
def modis_l3(draw):
    case = common(draw, 'MODIS_L3')
    nlat, nlon = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    files = []
    nf = draw(st.sampled_from([1, 1, 2, 3]))
    days = draw(st.lists(st.integers(0, 4000), min_size=nf, max_size=nf, unique=True))
    # (periods which may overlap, but not contain each other)
    length = draw(st.sampled_from([1, 1, 8, 31]))
    for k in range(nf):
        f = dict(day=days[k], length=length, begin=draw(st.sampled_from(['00:00:00.000000', '06:30:00'])),
                 end=draw(st.sampled_from(['00:00:00.000000', '23:59:59'])))
        f['var'] = draw(column(nlat * nlon, ['int16', 'int16', 'float32', 'int8', 'int32']))
        files.append(f)
    lo, hi = DTYPES[files[0]['var']['dtype']]
    for f in files[1:]:
        for k in ('dtype', 'fill', 'valid', 'scale', 'offset'):
            f['var'][k] = files[0]['var'][k]
        f['var']['vals'] = [min(max(v if f['var']['dtype'][0] == 'f' else int(v), lo), hi) for v in f['var']['vals']]
    lat0, lon0 = draw(gen.fixed(-10, 40, 2)), draw(gen.fixed(-180, 100, 2))
    case.update(files=files, name='Cloud_Fraction_Mean', lats=[lat0 - i for i in range(nlat)], lons=[lon0 + i for i in range(nlon)],
                number=draw(st.booleans()))
    return case


def decide_modis_l3(case, ctx):
    import cis
    folder, paths = begin(case, ctx)
    epoch = datetime.datetime(1600, 1, 1)
    times = []
    fields = []
    shape = (len(case['lats']), len(case['lons']))
    for f, path in zip(case['files'], paths):
        var = f['var']
        d0 = datetime.datetime(2000, 1, 1) + datetime.timedelta(f['day'])
        d1 = d0 + datetime.timedelta(f['length'])
        text = 'GROUP = INVENTORYMETADATA\n'
        bounds = []
        for key, d, t in (('RANGEENDING', d1, f['end']), ('RANGEBEGINNING', d0, f['begin'])):
            for sort, value in (('DATE', d.strftime('%Y-%m-%d')), ('TIME', t)):
                text += '    OBJECT                 = %s%s\n      NUM_VAL              = 1\n      VALUE                = "%s"\n' \
                        '    END_OBJECT             = %s%s\n\n' % (key, sort, value, key, sort)
            h, mi, s = t.split(':')
            moment = d + datetime.timedelta(hours=int(h), minutes=int(mi), seconds=float(s))
            bounds.append((moment - epoch).total_seconds() / 86400.)
        bounds.reverse()
        times.append(bounds)
        attrs = {'units': ('char', case['units'])} if case['units'] else {}
        if case['long_name']:
            attrs['long_name'] = ('char', case['long_name'])
        if var['valid'] is not None:
            attrs['valid_range'] = (var['dtype'], var['valid'])
        attrs.update(fill_of(var))
        attrs.update(scale_of(var, 'scale_factor', 'add_offset'))
        dims = ('YDim:mod08', 'XDim:mod08')
        write_sd(path, [('XDim', np.array(case['lons'], 'float32'), {}, dims[1:]),
                        ('YDim', np.array(case['lats'], 'float32'), {}, dims[:1]),
                        (case['name'], array(var, shape), attrs, dims)],
                 {'HDFEOSVersion': ('char', 'HDFEOS_V2.9'), 'CoreMetadata.0': ('char', text)})
        fields.append(np.array([np.nan if v is None else v for v in unpack(var, 'modis')]).reshape(shape))
    ctx.nontrivial(len(paths) > 1 or any(np.isnan(x).any() for x in fields) or case['files'][0]['var']['scale'] is not None)
    ctx.tag('%d files' % len(paths))
    with ctx.sut('variables'):
        found = cis.get_variables(paths, 'MODIS_L3' if case['explicit'] else None)
    check(list(found) == [case['name']], 'the variables are %s', found)
    got = read(case, paths, ctx)
    check(got.is_gridded, 'not gridded')
    with ctx.sut('looking at the grid'):
        coords = dict((c.name(), c) for c in got.coords())
        check(sorted(coords) == ['latitude', 'longitude', 'time'], 'coordinates %s', sorted(coords))
        order = sorted(range(len(times)), key=lambda i: sum(times[i]))
        time = coords['time']
        check(gen.same(time.points, [sum(times[i]) / 2 for i in order], rtol=1e-11), 'times %s, periods %s', time.points, times)
        check(gen.same(time.bounds, [times[i] for i in order], rtol=1e-11), 'periods %s instead of %s', time.bounds, times)
        check(str(time.units) == 'days since 1600-01-01 00:00:00', 'time in %s', time.units)
        want = np.array([fields[i] for i in order])
        want = want[0] if len(times) == 1 else want
        dims = ['latitude', 'longitude'] if len(times) == 1 else ['time', 'latitude', 'longitude']
        for i, d in enumerate(dims):
            check(got.coord_dims(coords[d]) == (i,), '%s along %s', d, got.coord_dims(coords[d]))
        for d, p in (('latitude', case['lats']), ('longitude', case['lons'])):
            check(gen.same(coords[d].points, p, rtol=1e-6), '%s %s instead of %s', d, coords[d].points, p)
        vals = gen.filled(got.data)
        check(np.array_equal(np.ma.getmaskarray(got.data), np.isnan(want)), 'missing values %s instead of %s', got.data.tolist(),
              want.tolist())
        tol = 1e-5 * max([1.] + [abs(x) for x in want.ravel() if x == x])
        check(gen.same(vals, want, rtol=1e-5, atol=tol * 1e-2), 'values %s instead of %s', vals.tolist(), want.tolist())
        check(got.var_name == case['name'] and (got.long_name or '') == case['long_name'], 'names %r, %r', got.var_name, got.long_name)


SUBS = [Sub('caliop', caliop(), decide_caliop, quick=350, thorough=6000),
        Sub('cloudsat', cloudsat(), decide_cloudsat, quick=350, thorough=6000),
        Sub('modis_l2', modis_l2(), decide_modis_l2, quick=350, thorough=6000, known=known_1km),
        Sub('modis_l3', modis_l3(), decide_modis_l3, quick=200, thorough=4000)]
