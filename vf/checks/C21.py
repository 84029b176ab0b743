"""Observations in NetCDF and text files."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Observation files (GASSP, AERONET, CCI, CSV) give their points and values',
    statement="""A variable read from any number of GASSP or NCAR-RAF files (aircraft, ship or fixed station), AERONET or Maritime
    Aerosol Network files of any version, ESA CCI files or comma-separated text gives every sample of the files in order, at the
    latitude, longitude, altitude, pressure and time stated by its own file (whether in a variable, an attribute or a header, and
    whatever the time unit or time stamp), with the values and units of the file. Values are missing where the file marks them so
    and nowhere else, samples with a missing coordinate are left out, and size-resolved variables get their extra coordinate. Files
    are recognised by name and content, their variables can be listed, and gridded CCI files of several months become one grid in
    time, each with its own period.""",
    text='all samples, time units, headers, missing values and numbers of files',
    why="""The tests need observation files which are not distributed with the code, so none of these readers is run by them.""",
    files=['cis/data_io/products/NCAR_NetCDF_RAF.py', 'cis/data_io/products/products.py', 'cis/data_io/products/CCI.py',
           'cis/data_io/aeronet.py', 'cis/data_io/Coord.py', 'cis/time_util.py'],
    mechanism=[('NCAR_NetCDF_RAF', 'cis/data_io/products/NCAR_NetCDF_RAF.py'), ('load_aeronet', 'cis/data_io/aeronet.py'),
               ('CCI_L2, Cloud_CCI_L3, Aerosol_CCI_L3', 'cis/data_io/products/CCI.py'),
               ('ASCII_Hyperpoints', 'cis/data_io/products/products.py'), ('Coord.convert_to_std_time', 'cis/data_io/Coord.py')],
    observe=['cis.read_data', 'cis.get_variables'],
    note="""Hypothesis cases: files are written in a scratch folder in the layouts the readers describe, and compared with the numbers
    they were made from.""")

RULE = 'A case is one to three files of one product and a variable. Non-trivial: something is missing, or there are several files.'

EPOCH = datetime.datetime(1600, 1, 1)


def days(when):
    return (when - EPOCH).total_seconds() / 86400.


def compare(got, rows, names, what, shape=None, extra=None, rtol=1e-6):
    """rows: a value for each coordinate name, then (the extra coordinate and) the data value."""
    k = len(names) + (1 if extra else 0)
    kept = [r for r in rows if all(v is not None for v in r[:k])]
    mask = np.ma.getmaskarray(got.data).ravel()
    vals = gen.filled(got.data).ravel()
    want = np.array([np.nan if r[-1] is None else r[-1] for r in kept], float)
    check(vals.shape == want.shape, '%s: %d values instead of %d', what, vals.size, want.size)
    check(np.array_equal(mask | np.isnan(vals), np.isnan(want)), '%s: missing values %s instead of %s', what, vals.tolist(),
          want.tolist())
    check(gen.same(vals, want, rtol=rtol), '%s: values %s instead of %s', what, vals.tolist(), want.tolist())
    found = sorted(c.standard_name for c in got.coords() if c.standard_name)
    check(found == sorted(names), '%s: coordinates %s instead of %s', what, found, names)
    check(len(got.coords()) == k, '%s: %d coordinates instead of %d', what, len(got.coords()), k)
    for i, name in enumerate(names):
        c = got.coord(standard_name=name)
        p = gen.filled(c.points).ravel()
        w = np.array([r[i] for r in kept], float)
        check(gen.same(p, w, rtol=rtol if name != 'time' else 1e-10), '%s: %s %s instead of %s', what, name, p.tolist(), w.tolist())
    if extra:
        c = [c for c in got.coords() if c.var_name == extra]
        check(len(c) == 1, '%s: no coordinate %s', what, extra)
        p = gen.filled(c[0].points).ravel()
        check(gen.same(p, [r[k - 1] for r in kept], rtol=rtol), '%s: %s %s', what, extra, p.tolist())
    check(str(got.coord(standard_name='time').units) == 'days since 1600-01-01 00:00:00', '%s: time in %r', what,
          got.coord(standard_name='time').units)
    if shape is not None and len(kept) == len(rows):
        check(got.data.shape == shape, '%s: shape %s instead of %s', what, got.data.shape, shape)


def coordinates_alone(paths, product, rows, names):
    from cis.data_io.products.AProduct import get_coordinates
    got = get_coordinates(paths, product)
    kept = [r for r in rows if all(v is not None for v in r[:len(names)])]
    for i, name in enumerate(names):
        p = gen.filled(got.coord(standard_name=name).points).ravel()
        check(gen.same(p, [r[i] for r in kept], rtol=1e-6 if name != 'time' else 1e-10), 'coordinates alone: %s %s instead of %s',
              name, p.tolist(), [r[i] for r in kept])


def then(case, got, rows, names, folder):
    """Saving what was read and reading that."""
    import cis
    if not case['save'] or got.data.size == 0:
        return
    marker = got.metadata.missing_value
    if marker is not None and any(r[-1] is not None and r[-1] == marker for r in rows):
        return
    path = os.path.join(folder, 'saved', 'out.nc')
    os.mkdir(os.path.dirname(path))
    got.save_data(path)
    back = cis.read_data(path, got.var_name)
    compare(back, rows, names, 'saved')


def some(draw, n, most=2):
    return draw(st.lists(st.integers(0, n - 1), max_size=most, unique=True)) if draw(st.integers(0, 2)) == 0 else []


def numbers(draw, n, lo, hi, step=8, missing=False):
    vals = draw(st.lists(gen.fixed(lo, hi, step), min_size=n, max_size=n))
    gone = some(draw, n) if missing else []
    return [None if i in gone else v for i, v in enumerate(vals)]


# --- GASSP and NCAR-RAF ----------------------------------------------------------------------------------------------

STEP = {'seconds': 1., 'hours': 3600., 'days': 86400., 'minutes': 60.}


@st.composite
def gassp(draw):
    kind = draw(st.sampled_from(['aircraft', 'aircraft', 'ship', 'station', 'station', 'raf']))
    unit = draw(st.sampled_from(sorted(STEP)))
    how = draw(st.sampled_from(['since', 'Since', 'stamp_words', 'stamp_plain']))
    if kind == 'raf':
        how = 'since'
    bins = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 5))
        files.append(dict(
            n=n, time=numbers(draw, n, 0, 1000, 4), lat=numbers(draw, n, -90, 90, missing=True),
            lon=numbers(draw, n, -180, 180, missing=True), alt=numbers(draw, n, 0, 20000, missing=True),
            pres=numbers(draw, n, 100, 1000, missing=True), vals=numbers(draw, n * max(bins, 1), -50, 50, missing=True),
            stamp=draw(st.sampled_from(['2010-01-01 00:00:00', '2011-06-30', '1999-12-31 12:00:00', '2008-02-29 06:30:00'])),
            station=[draw(gen.fixed(-90, 90, 8)), draw(gen.fixed(-180, 180, 8)), draw(gen.fixed(0, 5000, 2))]))
    return dict(kind=kind, unit=unit, how=how, bins=bins, files=files, pres=draw(st.sampled_from(['', '', 'PSXC', 'PRE', 'both'])),
                aux=draw(st.sampled_from(['same', 'other'])), scalar=draw(st.booleans()), fixed_alt=draw(st.booleans()),
                attr_case=draw(st.sampled_from(['as is', 'lower', 'upper'])), text_attr=draw(st.sampled_from(['number', 'text', 'words'])),
                explicit=draw(st.booleans()), packed=draw(st.booleans()), units=draw(st.sampled_from(['ng/kg', '#/cm3', 'K', ''])),
                fill=draw(st.sampled_from(['_FillValue', 'missing_value'])), save=draw(st.booleans()), order=draw(st.permutations([0, 1, 2])))


def decide_gassp(case, ctx):
    import cis
    from netCDF4 import Dataset
    folder = ctx.dir()
    bins, kind = case['bins'], case['kind']
    paths, rows = [], []
    sizes = [0.25, 0.5, 1.5][:bins]
    for k, f in zip(case['order'], case['files']):
        path = os.path.join(folder, 'CCN_mrg60_NP3_%d.nc' % k)
        paths.append(path)
        n = f['n']
        nc = Dataset(path, 'w')
        nc.createDimension('Time', n)
        attrs = {}
        if kind == 'raf':
            attrs['Conventions'] = 'NCAR-RAF/nimbus'
            attrs['ConventionsVersion'] = '1.3'
            attrs['Coordinates'] = 'LONC LATC ALTX Time'
            names = dict(time='Time', lat='LATC', lon='LONC', alt='ALTX')
        else:
            names = dict(time='UTC_mid', lat='GpsLat', lon='GpsLon', alt='GpsAlt')
            attrs['GASSP_Version'] = '2.0'
            attrs['Time_Coordinate'] = names['time']
            if kind == 'station':
                style = case['text_attr']
                lat, lon, alt = f['station']
                attrs['Station_Lat'] = {'number': lat, 'text': repr(lat), 'words': '%r degrees north' % lat}[style]
                attrs['Station_Lon'] = {'number': lon, 'text': repr(lon), 'words': '%r degrees east' % lon}[style]
                if not case['fixed_alt']:
                    attrs['Station_Altitude'] = {'number': alt, 'text': repr(alt), 'words': '%r m asl' % alt}[style]
            else:
                attrs['Latitude_Coordinate'] = names['lat']
                attrs['Longitude_Coordinate'] = names['lon']
                if kind == 'aircraft':
                    attrs['Vertical_Coordinate'] = names['alt']
            if case['how'].startswith('stamp'):
                attrs['Time_Stamp_Info'] = f['stamp']
        for a, v in attrs.items():
            if kind != 'raf':
                a = {'as is': a, 'lower': a.lower(), 'upper': a.upper()}[case['attr_case']]
            nc.setncattr(a, v)

        def put(name, vals, dims=('Time',), dtype='f8', units='', packed=False):
            kw = {} if case['fill'] == 'missing_value' else {'fill_value': -9999}
            v = nc.createVariable(name, 'i2' if packed else dtype, dims, **kw)
            v.set_auto_maskandscale(False)
            if case['fill'] == 'missing_value':
                v.missing_value = np.array(-9999, v.dtype)
            if packed:
                v.scale_factor, v.add_offset = 0.125, 10.
            if units:
                v.units = units
            raw = [-9999 if x is None else (x - 10.) * 8 if packed else x for x in vals]
            v[:] = np.array(raw, v.dtype).reshape(v.shape)
        when = {'since': '%s since %s' % (case['unit'], f['stamp']), 'Since': '%s Since: %s' % (case['unit'].title(), f['stamp']),
                'stamp_words': '%s from the file time reference' % case['unit'].title(), 'stamp_plain': case['unit']}[case['how']]
        put(names['time'], f['time'], units=when)
        if kind != 'station':
            put(names['lat'], f['lat'], units='degrees_north', dtype='f4')
            put(names['lon'], f['lon'], units='degrees_east', dtype='f4')
            if kind != 'ship':
                put(names['alt'], f['alt'], units='m', dtype='f4')
        if case['scalar']:
            nc.createVariable('base_time', 'i4', ())[...] = 3
        if bins:
            dim = 'BIN' if case['aux'] == 'same' else 'sizes'
            nc.createDimension(dim, bins)
            put('BIN', sizes, dims=(dim,), units='um')
            put('DIST', f['vals'], dims=('Time', dim), units=case['units'], packed=case['packed'])
        else:
            put('DIST', f['vals'], units=case['units'], packed=case['packed'])
        if case['pres'] in ('PRE', 'both'):
            put('PRE', f['pres'] if case['pres'] == 'PRE' else [1.] * n, units='hPa')
        if case['pres'] in ('PSXC', 'both'):
            put('PSXC', f['pres'], units='hPa')
        nc.close()

        ref = f['stamp'] if ' ' in f['stamp'] else f['stamp'] + ' 00:00:00'
        ref = days(datetime.datetime.strptime(ref, '%Y-%m-%d %H:%M:%S'))
        for i in range(n):
            lat, lon, alt = f['lat'][i], f['lon'][i], f['alt'][i]
            if kind == 'station':
                lat, lon, alt = f['station']
                alt = 0. if case['fixed_alt'] else alt
            elif kind == 'ship':
                alt = 0.
            row = [lat, lon, alt, ref + f['time'][i] * STEP[case['unit']] / 86400.] + ([f['pres'][i]] if case['pres'] else [])
            for b in range(max(bins, 1)):
                rows.append(row + ([sizes[b]] if bins else []) + [f['vals'][i * max(bins, 1) + b]])
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for v in r))
    ctx.tag(kind, case['how'], '%d bins' % bins, '%d files' % len(paths))
    names = ['latitude', 'longitude', 'altitude', 'time'] + (['air_pressure'] if case['pres'] else [])
    product = 'NCAR_NetCDF_RAF' if case['explicit'] else None
    with ctx.sut('reading'):
        got = cis.read_data(paths, 'DIST', product)
        got.data
    n = sum(f['n'] for f in case['files'])
    compare(got, rows, names, 'data', (n, bins) if bins else (n,), 'BIN' if bins else None)
    check(got.var_name == 'DIST', 'var_name %r', got.var_name)
    with ctx.sut('variables'):
        found = cis.get_variables(paths, product)
    check('DIST' in found and 'base_time' not in found and (not bins or 'BIN' not in found), 'the variables are %s', found)
    if not bins:
        with ctx.sut('coordinates, and saving'):
            coordinates_alone(paths, product, rows, names)
            then(case, got, rows, names, folder)


# --- AERONET and the Maritime Aerosol Network --------------------------------------------------------------------------

@st.composite
def aeronet(draw):
    version = draw(st.sampled_from(['AERONET/2', 'AERONET-SDA/2', 'AERONET/3', 'AERONET-SDA/3', 'MAN/2', 'MAN-SDA/2']))
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 4))
        files.append(dict(n=n, at=draw(st.lists(st.integers(0, 9 * 10 ** 8), min_size=n, max_size=n)),
                          lat=numbers(draw, n, -90, 90), lon=numbers(draw, n, -180, 180), alt=numbers(draw, n, 0, 4000, 2),
                          vals=[numbers(draw, n, -1, 3, 64, missing=True) for _ in range(3)], waves=draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))))
    first = draw(st.integers(1, 3))
    for f in files:
        f['waves'][0] = first
    if len(files) > 1 and draw(st.integers(0, 3)) == 0:
        files[draw(st.integers(0, len(files) - 1))]['n'] = 0
    return dict(version=version, files=files, column=draw(st.integers(0, 3)), explicit=draw(st.booleans()), save=draw(st.booleans()),
                digits=draw(st.sampled_from([1, 3, 6])), ext=draw(st.integers(0, 9)), dash=draw(st.booleans()),
                order=draw(st.permutations([0, 1, 2])))


def decide_aeronet(case, ctx):
    import cis
    folder = ctx.dir()
    version = case['version']
    sda, man, v3 = 'SDA' in version, 'MAN' in version, version.endswith('3')
    ext = (['Site_%d.ONEILL_lev20', 'Site_%d.ONEILL_20', 'Site_%d.ONEILL_lev15', 'Site_%d.ONEILL_15'] if sda and not man else
           ['Site_%d.lev20', 'Site_%d.lev15'] if not man else ['Cruise_%d.all', 'All_Sites_Times_%d.dat', 'Ship_%d.lev20'])
    ext = ext[case['ext'] % len(ext)]
    # (as spelt in the file, as CIS calls it, its name without units, its units)
    columns = [('AOT_440', 'AOT_440', 'AOT_440', '1'), ('Water Vapor(cm)', 'WaterVapor(cm)', 'WaterVapor', 'cm'),
               ('%TripletVar_1640', 'TripletVar_1640', 'TripletVar_1640', '1')]
    if sda:
        columns[2] = ('Total_AOD_500nm[tau_a]', 'Total_AOD_500nmtau_a', 'Total_AOD_500nmtau_a', '1')
    which = case['column']
    if which == 3 and (not sda or man or not all(f['n'] for f in case['files'])):
        which = 0
    w = case['files'][0]['waves'][0]
    if which == 3:
        exact = 'Exact_Wavelengths_for_Input_AOD(um)' + ('%d' % (w - 1) if w > 1 else '')
        columns.append(('', exact, exact if w > 1 else exact[:-4], '1' if w > 1 else 'um'))
    paths, rows = [], []
    for k, f in zip(case['order'], case['files']):
        path = os.path.join(folder, ext % k)
        paths.append(path)
        site = [f['lat'][0], f['lon'][0], f['alt'][0]]
        title = {'AERONET/2': 'Level 2.0. Quality Assured Data.<p>Pre and post field calibrated', 'MAN/2': 'Maritime Aerosol Network, L2',
                 'AERONET-SDA/2': 'Level 2.0. Quality Assured Data, SDA Version 4.1', 'AERONET/3': 'AERONET Version 3;Site',
                 'MAN-SDA/2': 'Maritime Aerosol Network SDA', 'AERONET-SDA/3': 'AERONET Version 3; SDA Version 4.1'}[version]
        head = [title, 'Version 2 Direct Sun Algorithm' if not v3 else 'Site',
                'Location=Site,long=%.3f,lat=%.3f,elev=%.3f,Nmeas=16,PI=A_B,Email=a@b' % (site[1], site[0], site[2]),
                'AOD Level 2.0,All Points,UNITS can be found at,,, http://aeronet']
        if v3:
            head += ['Contact: PI=A', 'UNITS can be found at,,, https']
        sep = '-' if case['dash'] and not v3 else ':'
        cols = (['AERONET_Site'] if v3 else []) + ['Date(dd%smm%syyyy)' % (sep, sep), 'Time(hh:mm:ss)', 'Julian_Day']
        cols += [c[0] for c in columns[:3]]
        if man:
            cols += ['Latitude', 'Longitude']
        elif v3:
            cols += ['Site_Latitude(Degrees)', 'Site_Longitude(Degrees)', 'Site_Elevation(m)']
        if sda and not man:
            cols += ['Number_of_Wavelengths', 'Exact_Wavelengths_for_Input_AOD(um)']
        else:
            cols += ['Last_Processing_Date(dd/mm/yyyy)', 'Solar_Zenith_Angle(Degrees)']
        missing = 'N/A' if version in ('AERONET/2', 'AERONET-SDA/2') else '-999.' + '0' * case['digits']
        if version == 'MAN/2' and f['lat'][0] > 0:
            missing = '-10000'
        lines = []
        for i in range(f['n']):
            when = datetime.datetime(1993, 1, 1) + datetime.timedelta(seconds=f['at'][i])
            line = (['Site'] if v3 else []) + [when.strftime('%d:%m:%Y'), when.strftime('%H:%M:%S'), '%.6f' % (i + 1)]
            line += [missing if f['vals'][c][i] is None else '%.6f' % f['vals'][c][i] for c in range(3)]
            lat, lon, alt = site
            if man:
                lat, lon, alt = f['lat'][i], f['lon'][i], 0.
                line += ['%.4f' % lat, '%.4f' % lon]
            elif v3:
                lat, lon, alt = f['lat'][i], f['lon'][i], f['alt'][i]
                line += ['%.6f' % lat, '%.6f' % lon, '%.6f' % alt]
            if sda and not man:
                line += ['%d' % f['waves'][i]] + ['0.%d' % (j + 3) for j in range(f['waves'][i])]
            else:
                line += ['01/02/2009', '%.3f' % (10. + i)]
            lines.append(','.join(line))
            rows.append([lat, lon, alt, days(when),
                         f['vals'][which][i] if which < 3 else (w + 2) / 10. if f['waves'][i] >= w else None])
        with open(path, 'w') as out:
            out.write('\n'.join(head + [','.join(cols)] + lines) + '\n')
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for v in r))
    ctx.tag(version, '%d files' % len(paths))
    _, name, short, units = columns[which]
    product = 'Aeronet' if case['explicit'] else None
    names = ['latitude', 'longitude', 'altitude', 'time']
    with ctx.sut('reading'):
        got = cis.read_data(paths, name, product)
        got.data
    compare(got, rows, names, 'data', (len(rows),), rtol=1e-4 if not v3 else 1e-6)
    check(got.var_name == short and got.long_name == name and str(got.units) == units, 'names %r, %r, units %r', got.var_name,
          got.long_name, got.units)
    with ctx.sut('variables'):
        found = cis.get_variables(paths, product)
    check(all(c[1] in found for c in columns), 'the variables are %s', found)
    if all(f['n'] for f in case['files']):
        if sda and not man:
            check(sum(v.startswith('Exact_Wavelengths') for v in found) == w, '%d wavelengths among the variables %s', w, found)
    with ctx.sut('coordinates, and saving'):
        if version in ('AERONET/3', 'AERONET-SDA/3'):
            coordinates_alone(paths, product, rows, names)
        then(case, got, rows, names, folder)


# --- Comma-separated points --------------------------------------------------------------------------------------------

FORMS = ['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%d %b %Y %H:%M:%S', '%Y/%m/%d %H:%M:%S']


@st.composite
def text(draw):
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        n = draw(st.integers(1, 5))
        files.append(dict(n=n, at=draw(st.lists(st.integers(0, 9 * 10 ** 8), min_size=n, max_size=n)),
                          lat=numbers(draw, n, -90, 90, missing=True), lon=numbers(draw, n, -180, 180), alt=numbers(draw, n, 0, 4000, 2),
                          vals=numbers(draw, n, -50, 50, missing=True)))
    return dict(files=files, form=draw(st.integers(0, 3)), explicit=draw(st.booleans()), save=draw(st.booleans()),
                space=draw(st.booleans()), order=draw(st.permutations([0, 1])), nan=draw(st.booleans()))


def decide_text(case, ctx):
    import cis
    folder = ctx.dir()
    paths, rows = [], []
    for k, f in zip(case['order'], case['files']):
        path = os.path.join(folder, 'points_%d.txt' % k)
        paths.append(path)
        lines = []
        for i in range(f['n']):
            when = datetime.datetime(1993, 1, 1) + datetime.timedelta(seconds=f['at'][i])
            line = ['' if v is None else repr(v) for v in (f['lat'][i], f['lon'][i], f['alt'][i])]
            line += [when.strftime(FORMS[case['form']]), ('nan' if case['nan'] else '') if f['vals'][i] is None else repr(f['vals'][i])]
            lines.append((', ' if case['space'] else ',').join(line))
            rows.append([f['lat'][i], f['lon'][i], f['alt'][i], days(when), f['vals'][i]])
        with open(path, 'w') as out:
            out.write('\n'.join(lines) + '\n')
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for v in r))
    ctx.tag('%d files' % len(paths))
    names = ['latitude', 'longitude', 'altitude', 'time']
    product = 'ASCII_Hyperpoints' if case['explicit'] else None
    with ctx.sut('reading'):
        got = cis.read_data(paths, 'value', product)
        got.data
    compare(got, rows, names, 'data')
    with ctx.sut('variables, coordinates and saving'):
        check(list(cis.get_variables(paths, product)) == ['value'], 'variables')
        coordinates_alone(paths, product, rows, names)
        then(case, got, rows, names, folder)


# --- ESA CCI, along the track ------------------------------------------------------------------------------------------

@st.composite
def cci_l2(draw):
    files = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.integers(1, 5))
        files.append(dict(n=n, at=draw(st.lists(st.integers(0, 9 * 10 ** 8), min_size=n, max_size=n)),
                          lat=numbers(draw, n, -90, 90, missing=True), lon=numbers(draw, n, -180, 180, missing=True),
                          vals=numbers(draw, n, -50, 50, missing=True)))
    return dict(kind=draw(st.sampled_from(['cloud', 'aerosol'])), files=files, long=draw(st.booleans()), explicit=draw(st.booleans()),
                save=draw(st.booleans()), order=draw(st.permutations([0, 1, 2])), std=draw(st.booleans()), packed=draw(st.booleans()))


def decide_cci_l2(case, ctx):
    import cis
    from netCDF4 import Dataset
    folder = ctx.dir()
    paths, rows = [], []
    cloud = case['kind'] == 'cloud'
    pattern = ('200806%02d0650-ESACCI-L2_CLOUD-CLD_PRODUCTS-MODIS-AQUA-fv1.0.nc' if cloud else
               '200806%02d093821-ESACCI-L2P_AEROSOL-ALL-AATSR_ENVISAT-ORAC_32855-fv02.02.nc')
    for k, f in zip(case['order'], case['files']):
        path = os.path.join(folder, pattern % (k + 1))
        paths.append(path)
        nc = Dataset(path, 'w')
        nc.createDimension('pixel_number', f['n'])
        lat, lon = ('latitude', 'longitude') if case['long'] else ('lat', 'lon')
        at = [datetime.datetime(1993, 1, 1) + datetime.timedelta(seconds=s) for s in f['at']]
        if cloud:
            # (Julian day 2440587.5 is 1970-01-01)
            times = [2440587.5 + (t - datetime.datetime(1970, 1, 1)).total_seconds() / 86400. for t in at]
            unit = 'Julian Date, days elapsed since 12:00 January 1, 4713 BC'
        else:
            times = [(t - datetime.datetime(1970, 1, 1)).total_seconds() for t in at]
            unit = 'seconds since 1970-01-01 00:00:00'
        for name, std, vals, units, dtype in ((lat, 'latitude', f['lat'], 'degrees_north', 'f4'),
                                              (lon, 'longitude', f['lon'], 'degrees_east', 'f4'),
                                              ('time', 'time', times, unit, 'f8'), ('AOD550', '', f['vals'], '1', 'f4')):
            packed = name == 'AOD550' and case['packed']
            v = nc.createVariable(name, 'i2' if packed else dtype, ('pixel_number',), fill_value=-999)
            v.set_auto_maskandscale(False)
            if packed:
                v.scale_factor, v.add_offset = 0.125, 1.
            if std and (case['std'] or name == 'lat'):
                v.standard_name = std
            v.units = units
            v[:] = np.array([-999 if x is None else (x - 1.) * 8 if packed else x for x in vals], v.dtype)
        nc.close()
        for i in range(f['n']):
            rows.append([f['lat'][i], f['lon'][i], days(at[i]), f['vals'][i]])
    ctx.nontrivial(len(paths) > 1 or any(v is None for r in rows for v in r))
    ctx.tag(case['kind'], '%d files' % len(paths))
    names = ['latitude', 'longitude', 'time']
    product = {'cloud': 'Cloud_CCI_L2', 'aerosol': 'Aerosol_CCI_L2'}[case['kind']] if case['explicit'] else None
    with ctx.sut('reading'):
        got = cis.read_data(paths, 'AOD550', product)
        got.data
    if not case['std']:
        for c in got.coords():
            if not c.standard_name and c.var_name in ('lon', 'longitude', 'latitude', 'time'):
                c.standard_name = {'lon': 'longitude'}.get(c.var_name, c.var_name)
    compare(got, rows, names, 'data', (len(rows),))
    with ctx.sut('variables, coordinates and saving'):
        check('AOD550' in cis.get_variables(paths, product), 'variables')
        if case['std']:
            coordinates_alone(paths, product, rows, names)
            then(case, got, rows, names, folder)


# --- ESA CCI, gridded --------------------------------------------------------------------------------------------------

@st.composite
def cci_l3(draw):
    nf = draw(st.sampled_from([1, 1, 2, 3]))
    months = draw(st.lists(st.integers(0, 120), min_size=nf, max_size=nf, unique=True))
    nlat, nlon = draw(st.integers(2, 3)), draw(st.integers(2, 3))
    files = [dict(month=m, vals=numbers(draw, nlat * nlon, -50, 50, missing=True)) for m in months]
    return dict(kind=draw(st.sampled_from(['cloud', 'aerosol'])), files=files, nlat=nlat, nlon=nlon, bug=draw(st.booleans()),
                explicit=draw(st.booleans()), order=draw(st.permutations([0, 1, 2])))


def decide_cci_l3(case, ctx):
    import cis
    from netCDF4 import Dataset
    from dateutil.relativedelta import relativedelta
    folder = ctx.dir()
    paths, items = [], []
    cloud = case['kind'] == 'cloud'
    pattern = ('2008%02d-ESACCI-L3C_CLOUD-CLD_PRODUCTS-MODIS_AQUA-fv1.0.nc' if cloud else
               '2008%02d-ESACCI-L3C_AEROSOL-AER_PRODUCTS-AATSR-ENVISAT-ORAC_MONTHLY-v02.02.nc')
    lats, lons = np.arange(case['nlat']) * 10. - 5, np.arange(case['nlon']) * 20. + 5
    for k, f in zip(case['order'], case['files']):
        path = os.path.join(folder, pattern % (k + 1))
        paths.append(path)
        start = datetime.datetime(2000, 1, 1) + relativedelta(months=f['month'])
        end = start + relativedelta(months=1, days=-1) + datetime.timedelta(hours=23, minutes=59, seconds=59)
        middle = start + (end - start) / 2 if not cloud else start + datetime.timedelta(days=14)
        nc = Dataset(path, 'w')
        nc.Conventions = 'CF-1.6'
        nc.id = 'file %d' % k
        nc.tracking_id = 'x%d' % k
        nc.date_created = '2013010%dT000000Z' % (k + 1)
        if cloud:
            nc.number_of_processed_orbits = k
        nc.time_coverage_start = start.strftime('%Y%m%dT%H%M%SZ')
        # (there are files saying the 44th of the month for its last day)
        nc.time_coverage_end = end.strftime('%Y%m44T%H%M%SZ') if case['bug'] else end.strftime('%Y%m%dT%H%M%SZ')
        for d, vals in (('lat', lats), ('lon', lons)):
            nc.createDimension(d, len(vals))
            v = nc.createVariable(d, 'f8', (d,))
            v.standard_name = {'lat': 'latitude', 'lon': 'longitude'}[d]
            v.units = {'lat': 'degrees_north', 'lon': 'degrees_east'}[d]
            v[:] = vals
        dims = ('lat', 'lon')
        if cloud:
            nc.createDimension('time', 1)
            t = nc.createVariable('time', 'f8', ('time',))
            t.standard_name, t.units, t.calendar = 'time', 'days since 1970-01-01 00:00:00', 'standard'
            t[:] = (middle - datetime.datetime(1970, 1, 1)).total_seconds() / 86400.
            dims = ('time',) + dims
        v = nc.createVariable('cot', 'f4', dims, fill_value=-999.)
        v.long_name = 'optical thickness'
        v.units = '1'
        a = np.ma.masked_invalid(np.array([np.nan if x is None else x for x in f['vals']], float))
        v[:] = a.reshape(v.shape)
        nc.close()
        items.append((days(middle), [days(start), days(end)], gen.filled(a).reshape(case['nlat'], case['nlon'])))
    ctx.nontrivial(len(paths) > 1 or any(x is None for f in case['files'] for x in f['vals']))
    ctx.tag(case['kind'], '%d files' % len(paths))
    product = {'cloud': 'Cloud_CCI_L3', 'aerosol': 'Aerosol_CCI_L3'}[case['kind']] if case['explicit'] else None
    with ctx.sut('reading'):
        got = cis.read_data(paths, 'cot', product)
        vals = gen.filled(got.data)
    check(got.is_gridded, 'not gridded')
    items.sort(key=lambda i: i[0])
    want = np.array([i[2] for i in items])
    time = got.coord(standard_name='time')
    points, bounds = [np.array(time.units.date2num(cell), float) for cell in
                      (time.units.num2date(time.points), time.units.num2date(time.bounds))]
    if len(items) == 1 and vals.ndim == 2:
        # (a time without a dimension keeps its unit)
        from cf_units import Unit
        to = Unit('days since 1600-01-01 00:00:00', calendar='gregorian')
        points, bounds = time.units.convert(points, to), time.units.convert(bounds, to)
        want = want[0]
    else:
        check(str(time.units) == 'days since 1600-01-01 00:00:00', 'time in %s', time.units)
        check(got.coord_dims(time) == (0,), 'time along %s', got.coord_dims(time))
    check(gen.same(points.ravel(), [i[0] for i in items], rtol=1e-10), 'times %s instead of %s', points, [i[0] for i in items])
    check(gen.same(bounds.ravel(), np.array([i[1] for i in items]).ravel(), rtol=1e-10), 'periods %s instead of %s', bounds,
          [i[1] for i in items])
    check(gen.same(vals, want, rtol=1e-6), 'values %s instead of %s', vals.tolist(), want.tolist())
    for name, p in (('latitude', lats), ('longitude', lons)):
        check(gen.same(got.coord(standard_name=name).points, p), '%s %s', name, got.coord(standard_name=name).points)
    check(got.var_name == 'cot' and got.long_name == 'optical thickness' and str(got.units) == '1', 'names')


SUBS = [Sub('gassp', gassp(), decide_gassp, quick=350, thorough=6000),
        Sub('aeronet', aeronet(), decide_aeronet, quick=350, thorough=6000),
        Sub('text', text(), decide_text, quick=200, thorough=4000),
        Sub('cci_l2', cci_l2(), decide_cci_l2, quick=300, thorough=5000),
        Sub('cci_l3', cci_l3(), decide_cci_l3, quick=150, thorough=3000)]
