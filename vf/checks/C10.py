"""Gridded data written to NetCDF and read back."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Gridded data read back the same, with times in the standard unit',
    statement="""Gridded data (a variable or a list of them) saved to NetCDF and read again by variable, standard or long name have
    the same values and missing values on the same dimensions in the same order, with the same coordinates (cell bounds, auxiliary,
    scalar and hybrid-height coordinates included), names, units and attributes. Times along a dimension are given in days since
    1600 whatever the time unit of the file, and denote the same instants, bounds included, also where time is an auxiliary
    coordinate; files holding consecutive parts of a dimension are joined, whatever order they are given in. Geopotential (divided
    by g), geopotential height and air pressure fields on the same grid are available as altitude and pressure coordinates.""",
    text='all grids, time units, attributes, auxiliary coordinates and numbers of files and variables',
    why="""The tests read two sample model files and save one small grid.""",
    files=['cis/data_io/gridded_data.py', 'cis/data_io/products/gridded_NetCDF.py', 'cis/time_util.py',
           'cis/data_io/data_reader.py'],
    mechanism=[('NetCDF_Gridded', 'cis/data_io/products/gridded_NetCDF.py'), ('load_cube', 'cis/data_io/gridded_data.py'),
               ('GriddedData.save_data, GriddedDataList.save_data', 'cis/data_io/gridded_data.py'),
               ('convert_cube_time_coord_to_standard_time', 'cis/time_util.py')],
    observe=['GriddedData.save_data', 'GriddedDataList.save_data', 'cis.read_data', 'cis.read_data_list'],
    note="""Hypothesis cases: round trip through files in a scratch folder; instants by datetime arithmetic. Calendars whose dates do
    not exist in the standard one, and scalar times (left in their own unit), are not covered.""")

RULE = 'A case is a grid, its auxiliary coordinates and a number of files. Non-trivial: missing values, bounds, an auxiliary ' \
       'coordinate or several files.'

UNITS = {'days since 1600-01-01 00:00:00': (datetime.datetime(1600, 1, 1), 1.),
         'hours since 1970-01-01 00:00:00': (datetime.datetime(1970, 1, 1), 1 / 24.),
         'days since 1850-01-01 06:00:00': (datetime.datetime(1850, 1, 1, 6), 1.),
         'seconds since 2000-01-01 12:00:00': (datetime.datetime(2000, 1, 1, 12), 1 / 86400.),
         'minutes since 1999-12-31 00:00:00': (datetime.datetime(1999, 12, 31), 1 / 1440.)}
CALENDARS = ['standard', 'standard', 'standard', 'proleptic_gregorian', 'noleap']
NAMES = [('rain', 'rainfall_flux', 'the rain'), ('q', None, 'some long name'), ('temp', 'air_temperature', None)]
FIELDS = {'geopotential': 'm2 s-2', 'geopotential_height': 'm', 'air_pressure': 'Pa'}
G = 9.80665


def offset(unit, std_days, calendar='standard'):
    """Days since 1600 to a number in the unit."""
    ref, days = UNITS[unit]
    if calendar == 'noleap':
        # (without the leap days in between, of which there are none near the times which are generated)
        when = [(datetime.datetime(1600, 1, 1) + datetime.timedelta(float(x))).year for x in np.ravel(std_days)]
        leap = [sum(1 for y in range(ref.year, e) if y % 4 == 0 and (y % 100 or y % 400 == 0)) for e in when]
        std_days = std_days - np.reshape(leap, np.shape(std_days))
    return (std_days - (ref - datetime.datetime(1600, 1, 1)).total_seconds() / 86400.) / days


@st.composite
def cases(draw):
    extra = draw(st.lists(st.sampled_from(['time', 'time', 'altitude', 'air_pressure', 'model_level_number']), max_size=2,
                          unique=True))
    if 'altitude' in extra and 'air_pressure' in extra:
        extra.remove('air_pressure')
    kind = draw(st.sampled_from(['', '', '', 'scalar', 'aux_time', 'aux', 'fields', 'hybrid']))
    if kind == 'hybrid':
        extra = ['model_level_number'] + [d for d in extra if d == 'time']
    elif kind == 'aux_time':
        extra = ['time'] + [d for d in extra if d != 'time']
    elif kind == 'fields':
        extra = [d for d in extra if d in ('time', 'model_level_number')]
    dims = draw(st.permutations(['latitude', 'longitude'][:2 if kind == 'hybrid' else draw(st.integers(1, 2))] + extra))
    g = draw(gen.grid(dims=dims, bounds='gaps', min_n=2, max_n=4))
    if 'model_level_number' in dims:
        g['points']['model_level_number'] = list(range(1, len(g['points']['model_level_number']) + 1))
        g['bounds']['model_level_number'] = None
    nv = draw(st.integers(1, 3))
    fields = draw(st.lists(st.sampled_from(['geopotential', 'geopotential_height', 'air_pressure']), min_size=1, max_size=2,
                           unique=True)) if kind == 'fields' else []
    if 'geopotential' in fields and 'geopotential_height' in fields:
        fields = fields[:1]
    split = draw(st.sampled_from([None, None] + ([d for d in dims if kind != 'fields' and kind != 'aux' and
                                                 not (kind == 'hybrid' and d != 'time')
                                                 and not (d == 'longitude' and g['circular'])])))
    if split:       # (Iris gives parts of single points in increasing order)
        g['bounds'][split] = None
        g['points'][split] = sorted(g['points'][split])
    return dict(grid=g, unit=draw(st.sampled_from(sorted(UNITS))), calendar=draw(st.sampled_from(CALENDARS)), kind=kind, fields=fields, vars=draw(st.permutations([0, 1, 2]))[:nv],
                by=draw(st.sampled_from(['var', 'std', 'long'])), split=split, cut=draw(st.integers(1, 3)),
                flip=draw(st.booleans()), dtype=draw(st.sampled_from(['float64', 'float32', 'int32', 'int16'])),
                attributes=draw(st.dictionaries(st.sampled_from(['comment', 'level', 'title']),
                                                st.one_of(st.sampled_from(['a', 'Two words']), st.integers(-4, 4)), max_size=2)),
                local=draw(st.booleans()), units=draw(st.sampled_from(['1', 'K', 'kg m-2 s-1'])),
                save=draw(st.sampled_from(['list', 'iris'])))


def values(case, k):
    g = dict(case['grid'], seed=case['grid']['seed'] + k)
    a = np.ma.array(gen.grid_values(g))
    return (a * 8).astype(case['dtype']) if case['dtype'][0] == 'i' else a.astype(case['dtype'])


def aux_values(case, dims):
    rng = np.random.RandomState(case['grid']['seed'] + 77)
    return rng.randint(1, 4000, [len(case['grid']['points'][d]) for d in dims]) / 4.0


def field_values(case, name):
    shape = [len(case['grid']['points'][d]) for d in case['grid']['dims']]
    return np.random.RandomState(case['grid']['seed'] + 31 + len(name)).randint(1, 40000, shape) / 4.0


def build(case):
    """The cubes of the case, in the units of the file."""
    from cf_units import Unit
    from iris.coords import AuxCoord, DimCoord
    from iris.aux_factory import HybridHeightFactory
    g = case['grid']
    out = []
    for k in case['vars']:
        var, std, long_name = NAMES[k]
        cube = gen.build_grid(g, var=var, standard_name=std, long_name=long_name, units=case['units'], data=values(case, k),
                              attributes=dict(case['attributes']))
        if 'time' in g['dims']:
            t = cube.coord('time')
            new = [offset(case['unit'], np.array(x), case.get('calendar')) for x in ([t.points] + ([t.bounds] if t.has_bounds() else []))]
            t.points = new[0]
            if len(new) > 1:
                t.bounds = new[1]
            t.units = Unit(case['unit'], calendar=case.get('calendar', 'standard'))
        if case['kind'] == 'scalar':
            cube.add_aux_coord(AuxCoord(12.5, 'forecast_period', units='hours', bounds=[10., 15.]))
            cube.add_aux_coord(AuxCoord(2.0, 'height', units='m'))
        elif case['kind'] == 'aux_time':
            t = cube.coord('time')
            i = cube.coord_dims(t)
            cube.remove_coord(t)
            cube.add_dim_coord(DimCoord(np.arange(len(t.points)) * 3. + 1, 'forecast_period', units='hours'), i)
            cube.add_aux_coord(AuxCoord.from_coord(t), i)
        elif case['kind'] == 'aux':
            cube.add_aux_coord(AuxCoord(aux_values(case, g['dims'][-2:]), long_name='surface type', units='1', var_name='sft'),
                               tuple(range(len(g['dims'])))[-2:])
        elif case['kind'] == 'hybrid':
            i = g['dims'].index('model_level_number')
            n = len(g['points']['model_level_number'])
            delta = AuxCoord(np.arange(n) * 100. + 10, long_name='level_height', units='m', var_name='lh')
            sigma = AuxCoord(1 - np.arange(n) * .125, long_name='sigma', units='1', var_name='sg')
            dims = [d for d in g['dims'] if d in ('latitude', 'longitude')]
            oro = AuxCoord(aux_values(case, dims), 'surface_altitude', units='m', var_name='oro')
            cube.add_aux_coord(delta, i)
            cube.add_aux_coord(sigma, i)
            cube.add_aux_coord(oro, tuple(g['dims'].index(d) for d in dims))
            cube.add_aux_factory(HybridHeightFactory(delta, sigma, oro))
        out.append(cube)
    return out


def save(case, cubes, path):
    import iris
    from cis.data_io.gridded_data import GriddedDataList
    if case['local']:
        for c in cubes:
            c._local_attributes = list(case['attributes'])
    extra = []
    for name in case['fields']:
        f = cubes[0].copy(data=field_values(case, name))
        f.rename(name)
        f.var_name = {'geopotential': 'zg', 'geopotential_height': 'zgh', 'air_pressure': 'pf'}[name]
        f.units = FIELDS[name]
        extra.append(f)
    if case['save'] == 'iris':
        iris.save(list(cubes) + extra, path)
    elif len(cubes) + len(extra) == 1:
        cubes[0].save_data(path)
    else:
        GriddedDataList(list(cubes) + extra).save_data(path)


def compare(case, d, k, what):
    g = case['grid']
    var, std, long_name = NAMES[k]
    check(d.is_gridded, '%s: not gridded', what)
    check(d.var_name == var and d.standard_name == std and d.long_name == long_name and str(d.units) == case['units'],
          '%s: names %s %s %s %s', what, d.var_name, d.standard_name, d.long_name, d.units)
    want = values(case, k)
    a = np.ma.asarray(d.data)
    check(a.shape == want.shape, '%s: shape %s, not %s', what, a.shape, want.shape)
    check(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(want)), '%s: missing values differ', what)
    check(gen.same(gen.filled(a), gen.filled(want), 0, 0), '%s: values differ', what)
    check(a.dtype == want.dtype, '%s: type %s', what, a.dtype)
    dim_names = [d.coords(dimensions=i, dim_coords=True)[0].name() for i in range(a.ndim)]
    expect = ['forecast_period' if x == 'time' and case['kind'] == 'aux_time' else x for x in g['dims']]
    check(dim_names == expect, '%s: dimensions %s, not %s', what, dim_names, expect)
    for i, name in enumerate(g['dims']):
        c = d.coord(name)
        check(d.coord_dims(c) == (i,), '%s: dimension of %s', what, name)
        check(str(c.units) == gen.GRID_UNITS[name], '%s: unit %s of %s', what, c.units, name)
        # (going through datetimes keeps microseconds)
        tol = 1e-9 if name == 'time' else 0
        check(gen.same(c.points, g['points'][name], 0, tol), '%s: %s is %s, not %s', what, name, c.points, g['points'][name])
        b = g['bounds'].get(name)
        check(c.has_bounds() == (b is not None), '%s: bounds of %s are %s, not %s', what, name, c.bounds, b)
        if b is not None:
            check(gen.same(c.bounds, b, 0, tol), '%s: bounds of %s are %s, not %s', what, name, c.bounds, b)
    for key, v in case['attributes'].items():
        check(key in d.attributes and d.attributes[key] == v, '%s: attribute %s is %r, not %r', what, key, d.attributes.get(key), v)
    if case['kind'] == 'scalar':
        c = d.coord('forecast_period')
        check(gen.same(c.points, [12.5]) and gen.same(c.bounds, [[10, 15]]) and d.coord('height').points[0] == 2,
              '%s: scalar coordinates', what)
    elif case['kind'] == 'aux':
        check(gen.same(d.coord('surface type').points, aux_values(case, g['dims'][-2:])) and
              d.coord_dims('surface type') == tuple(range(a.ndim))[-2:], '%s: auxiliary coordinate', what)
    elif case['kind'] == 'hybrid':
        dims = [x for x in g['dims'] if x in ('latitude', 'longitude')]
        oro = aux_values(case, dims)
        level = np.array(g['points']['model_level_number']) - 1
        order = [x for x in g['dims'] if x in dims + ['model_level_number']]
        want = np.empty([len(g['points'][x]) for x in order])
        for ix in np.ndindex(*want.shape):
            at = dict(zip(order, ix))
            l = level[at['model_level_number']]
            want[ix] = l * 100. + 10 + (1 - l * .125) * oro[tuple(at[x] for x in dims)]
        c = d.coord('altitude')
        check(d.coord_dims(c) == tuple(g['dims'].index(x) for x in order) and gen.same(c.points, want), '%s: hybrid height', what)
    for name in case['fields']:
        c = d.coord('air_pressure' if name == 'air_pressure' else 'altitude')
        want = field_values(case, name) / (G if name == 'geopotential' else 1)
        check(d.coord_dims(c) == tuple(range(a.ndim)) and gen.same(c.points, want), '%s: coordinate from %s', what, name)
        check(str(c.units) == ('Pa' if name == 'air_pressure' else 'meter'), '%s: unit %s of %s', what, c.units, name)


def decide(case, ctx):
    import cis
    folder = ctx.dir()
    g = case['grid']
    cubes = build(case)
    paths = [os.path.join(folder, 'part%d.nc' % i) for i in range(2 if case['split'] else 1)]
    with ctx.sut('saving'):
        if case['split']:
            i = g['dims'].index(case['split'])
            n = len(g['points'][case['split']])
            cut = min(case['cut'], n - 1)
            for p, part in zip(paths, (slice(0, cut), slice(cut, None))):
                ix = tuple(part if j == i else slice(None) for j in range(len(g['dims'])))
                save(case, [c[ix] for c in cubes], p)
        else:
            save(case, cubes, paths[0])
    if case['flip']:
        paths.reverse()
    ctx.nontrivial(g['missing'] or any(g['bounds'].values()) or case['kind'] or len(paths) > 1)
    ctx.tag(case['kind'] or 'plain', '%d files' % len(paths), 'by ' + case['by'])
    names = [NAMES[k][dict(var=0, std=1, long=2)[case['by']]] or NAMES[k][0] for k in case['vars']]
    with ctx.sut('reading'):
        if len(names) == 1:
            got = [cis.read_data(paths, names[0])]
        else:
            got = cis.read_data_list(paths, names)
            check(type(got).__name__ == 'GriddedDataList' and len(got) == len(names), 'read %s', type(got).__name__)
        for d, k in zip(got, case['vars']):
            compare(case, d, k, 'read ' + NAMES[k][0])
    if case['kind'] != 'fields':
        with ctx.sut('saving and reading again'):
            path = os.path.join(folder, 'again.nc')
            got[0].save_data(path)
            compare(case, cis.read_data(path, names[0]), case['vars'][0], 'read again')


SUBS = [Sub('round_trip', cases(), decide, quick=400, thorough=8000)]
