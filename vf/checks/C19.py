"""Gridded data objects, and every view of them, against a table."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Gridded data keep coordinates and values together in every slice, copy, view',
    statement="""Every slice, copy, transposition, arithmetic result and element of a list of gridded data, and every list of points and data
    frame made from it, holds each value with the coordinates, bounds, units and attributes belonging to it, including auxiliary and derived
    coordinates; moving the longitudes into another range moves whole turns only and takes values, bounds and other coordinates along.
    These are all gridded data themselves and independent: changing one object changes no other.""",
    text='all sequences of operations on gridded data with any dimensions, bounds, auxiliary coordinates and missing values',
    why="""The tests use a few fixed cubes, one operation each, most without auxiliary coordinates or bounds, and do not look at the
    objects which others were made from.""",
    files=['cis/data_io/gridded_data.py', 'cis/data_io/hyperpoint_view.py', 'cis/data_io/common_data.py'],
    mechanism=[('GriddedData.set_longitude_range', 'cis/data_io/gridded_data.py'),
               ('GriddedData.make_new_with_same_coordinates', 'cis/data_io/gridded_data.py'),
               ('GriddedData._wrap_new_cube', 'cis/data_io/gridded_data.py'), ('GriddedHyperPointView', 'cis/data_io/hyperpoint_view.py'),
               ('GriddedDataList', 'cis/data_io/gridded_data.py'), ('CommonDataList', 'cis/data_io/common_data.py')],
    observe=['GriddedData, GriddedDataList and their methods'],
    note="""Hypothesis sequences of operations (slicing, copying, assignment, transposing, longitude changes, arithmetic, lists) against
    tables in which each coordinate is given for each value, all objects being compared after each.""")

RULE = ('A case is some gridded data, with auxiliary coordinates, and a sequence of operations on it and on what these give. Non-trivial: an '
        'object is changed after another was made from it, or longitudes are moved into another range by which their order changes.')

STANDARD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(['slice', 'slice', 'copy', 'copydata', 'setitem', 'setdata', 'lon', 'lon', 'lon', 'transpose', 'new', 'arith',
                                 'inplace', 'units', 'coord', 'iterate', 'list', 'list', 'attributes', 'points', 'deepcopy']))
    return [kind] + [draw(st.integers(0, 40)) for _ in range(4)]


@st.composite
def cases(draw):
    which = draw(st.integers(0, 3))
    if which == 0:
        dims = draw(st.permutations(['latitude', 'longitude', 'model_level_number']))
    elif which == 1:
        dims = draw(st.lists(st.sampled_from(STANDARD[:3] + ['time', 'model_level_number']), min_size=1, max_size=3, unique=True))
    else:
        dims = None
    g = draw(gen.grid(dims=dims, min_n=draw(st.sampled_from([1, 2, 2])), max_n=4, bounds='gaps', max_optional=1))
    b = g['bounds'].get('longitude')
    if b and max(max(x) for x in b) - min(min(x) for x in b) > 360:
        g['bounds']['longitude'] = None          # (cells which overlap each other)
    aux = draw(st.lists(st.sampled_from(['scalar', 'line', 'boundedline', 'plane', 'hybrid', 'region']), max_size=3, unique=True))
    return dict(grid=g, aux=aux, at=draw(st.integers(0, 5)), ops=draw(st.lists(ops(), min_size=1, max_size=7)),
                anonymous=draw(st.integers(0, 5)) == 0, plain=draw(st.booleans()))


class Table(object):
    """What an object should hold: the values and each coordinate (and its bounds) at each of the values."""

    def __init__(self, vals, dims, cols, bounds, units, attributes):
        self.vals, self.dims, self.cols, self.bounds, self.units, self.attributes = vals, dims, cols, bounds, units, attributes

    def copy(self):
        return self.each(lambda a: a.copy())

    def each(self, f, dims=None):
        return Table(f(self.vals), list(self.dims if dims is None else dims), {k: f(v) for k, v in self.cols.items()},
                     {k: f(v) for k, v in self.bounds.items()}, self.units, dict(self.attributes))

    def take(self, keys):
        """keys: one integer, slice or list per dimension."""
        def f(a):
            for axis in range(len(keys) - 1, -1, -1):
                k = keys[axis]
                a = a.take(k, axis) if not isinstance(k, slice) else a[(slice(None),) * axis + (k,)]
            return a.copy()
        return self.each(f, [d for d, k in zip(self.dims, keys) if not isinstance(k, int)])

    def transpose(self, order):
        n = len(order)
        return self.each(lambda a: a.transpose(list(order) + list(range(n, a.ndim))).copy(), [self.dims[i] for i in order])

    @property
    def shape(self):
        return self.vals.shape


def spread(arr, dims, shape):
    """An array over some of the dimensions (given in its own order) at each position of an array of a shape."""
    arr = np.asarray(arr, dtype=float)
    extra = arr.shape[len(dims):] if dims else arr.shape[1:]
    arr = arr.reshape(tuple(shape[d] for d in dims) + extra)
    arr = arr.transpose(list(np.argsort(dims)) + list(range(len(dims), arr.ndim)))
    arr = arr.reshape(tuple(s if d in dims else 1 for d, s in enumerate(shape)) + extra)
    return np.broadcast_to(arr, tuple(shape) + extra).copy()


def build(case):
    from cf_units import Unit
    from iris.coords import AuxCoord
    g = case['grid']
    cube = gen.build_grid(g, attributes={'source': 'made up'})
    if case['plain'] and not np.ma.is_masked(cube.data):
        cube.data = np.asarray(cube.data)
    shape = cube.shape
    dims = list(g['dims'])
    if case['anonymous'] and len(dims) > 1 and not set(case['aux']) & {'hybrid'}:
        last = cube.coord(dims[-1])
        cube.remove_coord(last)
        dims[-1] = None
    rng = np.random.RandomState(g['seed'])
    for a in case['aux']:
        k = case['at'] % len(dims)
        n = shape[k]
        if a == 'scalar':
            cube.add_aux_coord(AuxCoord([6.], standard_name='forecast_period', units='hours', bounds=[[0., 12.]]))
        elif a in ('line', 'boundedline'):
            p = rng.randint(0, 50, n) / 4.
            cube.add_aux_coord(AuxCoord(p, long_name=a, units='K', bounds=np.stack([p - 1, p + 2], -1) if a == 'boundedline' else None), k)
        elif a == 'region':
            cube.add_aux_coord(AuxCoord(rng.randint(0, 3, n), long_name='region', units='1'), (k + 1) % len(dims))\
                if shape[(k + 1) % len(dims)] == n else None
        elif a == 'plane' and len(dims) > 1:
            j = (k + 1) % len(dims)
            p = rng.randint(0, 400, (n, shape[j])) / 2.
            cube.add_aux_coord(AuxCoord(p, long_name='plane', units='s', bounds=np.stack([p, p + 1], -1) if case['at'] % 2 else None), (k, j))
        elif a == 'hybrid' and set(dims) == {'latitude', 'longitude', 'model_level_number'}:
            from iris.aux_factory import HybridHeightFactory
            z, y, x = [dims.index(d) for d in ('model_level_number', 'latitude', 'longitude')]
            delta = AuxCoord(100. * np.arange(shape[z]), long_name='level_height', units='m')
            sigma = AuxCoord(1. - .125 * np.arange(shape[z]), long_name='sigma')
            oro = AuxCoord(rng.randint(0, 400, (shape[y], shape[x])) * 2., standard_name='surface_altitude', units='m')
            cube.add_aux_coord(delta, z)
            cube.add_aux_coord(sigma, z)
            cube.add_aux_coord(oro, (y, x))
            cube.add_aux_factory(HybridHeightFactory(delta, sigma, oro))
    cols, bounds = {}, {}
    for c in cube.coords():
        d = cube.coord_dims(c)
        cols[c.name()] = spread(c.points, d, shape)
        if c.has_bounds():
            bounds[c.name()] = spread(c.bounds, d, shape)
    return cube, Table(gen.filled(cube.data).reshape(shape), dims, cols, bounds, Unit('kg m-2 s-1'), {'source': 'made up'})


def look(obj, t, what, full=True):
    from cis.data_io.gridded_data import GriddedData
    check(isinstance(obj, GriddedData) and obj.is_gridded, '%s is a %s', what, type(obj).__name__)
    check(obj.shape == t.shape, '%s: shape %s, not %s', what, obj.shape, t.shape)
    check(gen.same(gen.filled(obj.data), t.vals), '%s: values %s, not %s', what, obj.data, t.vals)
    check(obj.units == t.units, '%s: units %s, not %s', what, obj.units, t.units)
    got = {k: v for k, v in obj.attributes.items() if k != 'history'}
    check(got == t.attributes, '%s: attributes %s, not %s', what, got, t.attributes)
    check(sorted(c.name() for c in obj.coords()) == sorted(t.cols), '%s: coordinates %s, not %s', what, [c.name() for c in obj.coords()],
          sorted(t.cols))
    for name, want in t.cols.items():
        c = obj.coord(name)
        p = spread(c.points, obj.coord_dims(c), t.shape)
        check(gen.same(p, want), '%s: %s of the values %s, not %s', what, name, p, want)
        check(c.has_bounds() == (name in t.bounds), '%s: bounds of %s are %s', what, name, c.bounds)
        if c.has_bounds():
            b = spread(c.bounds, obj.coord_dims(c), t.shape)
            check(gen.same(np.sort(b), np.sort(t.bounds[name])), '%s: bounds of %s %s, not %s', what, name, b, t.bounds[name])
    check([c.name() for c in obj.dim_coords] == [d for d in t.dims if d is not None], '%s: dimensions %s, not %s', what,
          [c.name() for c in obj.dim_coords], t.dims)
    if not full or any(t.dims.index(d) != i for i, d in enumerate(t.dims) if d is not None):
        return
    masked = isinstance(obj.data, np.ma.MaskedArray)
    missing = np.isnan(t.vals)

    def point_is(p, index, where):
        for name in STANDARD:
            g = getattr(p, name)
            if name in t.dims:
                check(g is not None and abs(g - t.cols[name][index]) < 1e-9, '%s: %s of point is %s, not %s', where, name, g, t.cols[name][index])
            else:
                check(g is None, '%s: %s of point is %s without there being one', where, name, g)
        check(len(p.val) == 1, '%s: value of point %s', where, p.val)
        v = p.val[0]
        check((v is np.ma.masked) == missing[index] and (missing[index] or gen.same(v, t.vals[index])), '%s: value of point %s, not %s', where, v,
              t.vals[index])

    everywhere = list(np.ndindex(*t.shape))
    there = [i for i in everywhere if not missing[i]]
    view, some = obj.get_all_points(), obj.get_non_masked_points()
    check(len(view) == len(everywhere), '%s: number of points %d', what, len(view))
    for label, points, want in (('all points', view, everywhere), ('points not missing', some, there),
                                ('all points of either', some.iter_all_points(), everywhere),
                                ('points not missing of all', view.iter_non_masked_points(), there),
                                ('points of coordinates', obj.get_coordinates_points(), everywhere)):
        points = list(points)
        check(len(points) == len(want), '%s: number of %s %d, not %d', what, label, len(points), len(want))
        for p, i in zip(points, want):
            point_is(p, i, what + ': ' + label)
    numbered = list(view.enumerate_non_masked_points())
    check([k for k, _ in numbered] == [int(np.ravel_multi_index(i, t.shape)) for i in there], '%s: numbers of points', what)
    for k, p in numbered:
        point_is(p, np.unravel_index(k, t.shape), what + ': numbered')
        point_is(view[k], np.unravel_index(k, t.shape), what + ': by number')
        point_is(view[tuple(int(i) for i in np.unravel_index(k, t.shape))], np.unravel_index(k, t.shape), what + ': by index')
    for short, name in (('latitudes', 'latitude'), ('longitudes', 'longitude'), ('altitudes', 'altitude'), ('air_pressures', 'air_pressure'),
                        ('times', 'time')):
        a = getattr(view, short)
        check((a is not None) == (name in t.dims), '%s: %s %s', what, short, a)
        if a is not None:
            k = t.dims.index(name)
            check(gen.same(spread(a, (k,), t.shape), t.cols[name]), '%s: %s %s', what, short, a)
    if len(t.shape) <= 2 and None not in t.dims and all(len(obj.coords(dimensions=[i])) == 1 for i in range(len(t.shape))):
        df = obj.as_data_frame()
        check(gen.same(np.asarray(df.values, float).reshape(t.shape), t.vals, rtol=1e-6), '%s: data frame %s', what, df)
    for name in t.cols:
        if name in STANDARD and name in t.dims:
            c, d = obj.find_standard_coords()[STANDARD.index(name)]
            check(c == obj.coord(name) and (d,) == obj.coord_dims(name), '%s: %s found as %s, %s', what, name, c, d)


def key_for(shape, a, b, kind):
    """One integer, slice or list of indices per dimension, leaving at least one dimension and value."""
    keys = [slice(None)] * len(shape)
    for i, n in list(enumerate(shape))[:1 + b % 2]:
        i = (i + a) % len(shape)
        n = shape[i]
        lo = (a + i) % n
        options = [slice(lo, None), slice(0, lo + 1), slice(None, None, -1), slice(None, None, 2), slice(lo, lo + 1), sorted(set([lo, n - 1]))]
        if len(shape) - sum(isinstance(k, int) for k in keys) > 1:
            options += [lo, lo]
        keys[i] = options[(kind + i) % len(options)]
    return keys


def moved(t, start):
    """The table with longitudes in a range, ordered as before, and whether anything was moved to another place."""
    if 'longitude' not in t.cols:
        return t, False
    lon = t.cols['longitude']
    new = gen.wrap_lon(lon, start)
    out = t.copy()
    out.cols['longitude'] = new
    if 'longitude' in t.bounds:
        out.bounds['longitude'] = t.bounds['longitude'] + (new - lon)[..., None]
    if 'longitude' not in t.dims:
        return out, False
    axis = t.dims.index('longitude')
    first = tuple(slice(None) if i == axis else 0 for i in range(len(t.dims)))
    line = lon[first]
    order = np.argsort(new[first], kind='stable')
    if len(line) > 1 and line[0] > line[1]:
        order = order[::-1]
    dims = out.dims
    out = out.each(lambda a: a.take(order, axis), dims)
    return out, bool((order != np.arange(len(order))).any())


def decide(case, ctx):
    import copy
    with ctx.sut('the data'):
        obj, table = build(case)
        look(obj, table, 'the data')
    pool = [(obj, table)]
    changed = False
    for step, (kind, s, a, b, c) in enumerate(case['ops']):
        s %= len(pool)
        obj, t = pool[s]
        before = len(pool)
        what = '%s (step %d)' % (kind, step)
        new = None
        n = int(np.prod(t.shape))
        ctx.tag(kind)
        with ctx.sut(what):
            if kind == 'slice':
                keys = key_for(t.shape, a, b, c)
                given = tuple(keys) if len(keys) > 1 or c % 2 else keys[0]
                new = obj[given], t.take(keys)
            elif kind == 'copy':
                new = obj.copy(), t.copy()
            elif kind == 'deepcopy':
                new = copy.deepcopy(obj), t.copy()
            elif kind == 'copydata':
                arr = np.arange(n, dtype=float).reshape(t.shape) + a
                new = obj.copy(data=arr), t.copy()
                new[1].vals = arr.copy()
            elif kind == 'setitem':
                i = np.unravel_index(a % n, t.shape)
                x = np.nan if b % 3 == 0 and isinstance(obj.data, np.ma.MaskedArray) else 1.5 + b
                obj.data[i] = np.ma.masked if np.isnan(x) else x
                t.vals[i] = x
            elif kind == 'setdata':
                arr = np.ma.array(np.arange(n, dtype=float).reshape(t.shape) * 2 + a)
                if b % 2:
                    arr[np.unravel_index(b % n, t.shape)] = np.ma.masked
                obj.data = arr
                t.vals = gen.filled(arr)
            elif kind == 'lon':
                start = [-180, 0, -90, 170, 360, -170.25][a % 6]
                want, rolled = moved(t, start)
                obj.set_longitude_range(start)
                pool[s] = obj, want
                changed = changed or rolled
                t = want
            elif kind == 'transpose':
                order = np.random.RandomState(a).permutation(len(t.shape)).tolist()
                if b % 4 == 0:
                    obj.transpose()
                    order = list(range(len(t.shape)))[::-1]
                else:
                    obj.transpose(order)
                pool[s] = obj, t.transpose(order)
                t = pool[s][1]
            elif kind == 'new':
                from cf_units import Unit
                arr = np.arange(n, dtype=float).reshape(t.shape) + 3 * a
                kw = dict(var_name='w', long_name='wind', units='m s-1')
                if b % 2:
                    kw['history'] = 'made'
                new = obj.make_new_with_same_coordinates(data=arr.copy() if c % 2 else None, **kw), t.copy()
                new[1].vals = arr if c % 2 else 0 * arr
                new[1].units = Unit('m s-1')
                new[1].attributes = {}
                check(new[0].var_name == 'w' and new[0].long_name == 'wind', 'name of new data %s', new[0].name())
                check(('made' in new[0].attributes.get('history', '')) == ('history' in kw), 'history of new data %s', new[0].attributes)
            elif kind == 'arith':
                new = arithmetic(obj, t, pool[a % before], b, c)
                if new is None:
                    continue
                new[1].attributes = {k: v for k, v in new[0].attributes.items() if k != 'history'}   # (which are kept is up to Iris)
            elif kind == 'inplace':
                k = 2. + b % 3
                if a % 2:
                    obj.data *= k
                    t.vals *= k
                else:
                    obj += k
                    t.vals += k
                    pool[s] = obj, t
            elif kind == 'units':
                from cf_units import Unit
                if t.units != Unit('kg m-2 s-1'):
                    continue
                obj.convert_units('g m-2 s-1')
                t.vals = t.vals * 1000
                t.units = Unit('g m-2 s-1')
            elif kind == 'coord':
                name = sorted(t.cols)[a % len(t.cols)]
                if name == 'altitude' and 'sigma' in t.cols or name in ('sigma', 'level_height', 'surface_altitude', 'longitude'):
                    continue
                co = obj.coord(name)
                if b % 2:
                    co.points = co.points + .25
                    if co.has_bounds():
                        co.bounds = co.bounds + .25
                    t.cols[name] = t.cols[name] + .25
                    if name in t.bounds:
                        t.bounds[name] = t.bounds[name] + .25
                else:
                    co = co.copy()
                    co.points = co.points + 3
            elif kind == 'iterate':
                if len(t.shape) < 2 or None in t.dims:
                    continue
                k = a % len(t.shape)
                if b % 2:
                    parts = list(obj.slices_over(t.dims[k]))
                else:
                    parts = list(obj.slices([d for i, d in enumerate(t.dims) if i != k]))
                check(len(parts) == t.shape[k], 'number of slices %d', len(parts))
                for i, part in enumerate(parts):
                    look(part, t.take([i if j == k else slice(None) for j in range(len(t.shape))]), 'slice %d of %s' % (i, what), full=False)
            elif kind == 'attributes':
                if b % 2:
                    obj.add_attributes({'note%d' % (a % 3): 'n%d' % b})
                    t.attributes['note%d' % (a % 3)] = 'n%d' % b
                else:
                    name = ['source', 'note0', 'note1', 'none'][a % 4]
                    obj.remove_attribute(name)
                    t.attributes.pop(name, None)
            elif kind == 'points':
                view = obj.get_all_points()
                i = a % n
                view[i if b % 2 else tuple(int(k) for k in np.unravel_index(i, t.shape))] = 33.5 if c % 2 else view[0].modified(val=33.5)
                t.vals[np.unravel_index(i, t.shape)] = 33.5
            else:
                lists(obj, t, a, b, c, what)
                continue
        changed = changed or (len(pool) > 1 and kind in ('setitem', 'setdata', 'transpose', 'inplace', 'units', 'coord', 'attributes', 'points'))
        if new is not None:
            pool.append(new)
        with ctx.sut('the views after ' + what):
            for i, (o, u) in enumerate(pool):
                look(o, u, 'object %d after %s' % (i, what), full=i in (s, len(pool) - 1))
    ctx.nontrivial(changed)


def arithmetic(obj, t, other, b, c):
    from cf_units import Unit
    o, u = other
    op = ['+', '-', '*', '/', '**'][b % 5]
    kind = ['number', 'object', 'array', 'rnumber'][c % 4]
    out = t.copy()
    ku = Unit('1') if op in '*/' else t.units
    if op == '**':
        out.vals, out.units = t.vals ** 2, t.units ** 2
        return obj ** 2, out
    if kind in ('number', 'rnumber'):
        k = given = 4.
        if kind == 'rnumber' and op in '-/':
            return None
    elif kind == 'array':
        k = np.arange(1., 1. + t.vals.size).reshape(t.shape)
        given = k.copy()
    else:
        alike = (u.shape == t.shape and u.dims == t.dims and None not in t.dims and set(u.cols) == set(t.cols) and set(u.bounds) == set(t.bounds) and
                 all((u.cols[x] == t.cols[x]).all() for x in t.cols) and all((u.bounds[x] == t.bounds[x]).all() for x in t.bounds))
        if not alike:
            return None
        k, given, ku = u.vals, o, u.units
        if op in '+-' and u.units != t.units:
            try:
                got = obj + given if op == '+' else obj - given
            except Exception:
                return None
            check(False, '%s %s %s gave %s', t.units, op, u.units, got.units)
    if op in '+-':
        out.vals = t.vals + k if op == '+' else t.vals - k
        if kind == 'rnumber':
            return given + obj, out
        return (obj + given if op == '+' else obj - given), out
    if op == '*':
        out.vals, out.units = t.vals * k, t.units * ku
        return (given * obj if kind == 'rnumber' else obj * given), out
    if np.any(np.asarray(k) == 0):
        return None
    out.vals, out.units = t.vals / k, t.units / ku
    return obj / given, out


def lists(obj, t, a, b, c, what):
    """Lists of gridded data do to each element what the element does."""
    import iris
    from cis.data_io.gridded_data import GriddedDataList
    second = obj.copy(data=obj.data + 100)
    second.var_name = 'other'
    u = t.copy()
    u.vals = t.vals + 100
    one = obj.copy()
    if c % 3 == 0:
        pair = GriddedDataList([one, second])
    elif c % 3 == 1:
        pair = GriddedDataList()
        pair.append(one)
        pair.append_or_extend(second)
    else:
        pair = GriddedDataList()
        pair.append_or_extend([one])
        pair.extend([second])

    def are(got, first, then, n=2):
        check(isinstance(got, GriddedDataList) and got.is_gridded and len(got) == n, '%s gave %s', what, type(got).__name__)
        for o, tt in zip(got, (first, then)):
            look(o, tt, 'element of list after ' + what, full=False)

    are(pair, t, u)
    check(pair.var_name == ['rain', 'other'] or obj.var_name != 'rain', '%s: names %s', what, pair.var_name)
    check(pair.ndim == len(t.shape) and [x.name() for x in pair.dim_coords] == [d for d in t.dims if d], '%s: dimensions', what)
    are(pair[:], t, u)
    are(pair[:1], t, None, 1)
    are(pair[:1] + pair[1:], t, u)
    op = ['lon', 'transpose', 'history', 'extract', 'intersection', 'none', 'interpolate', 'remove'][b % 8]
    if op == 'lon':
        start = [-180, 0, -90, 170][a % 4]
        pair.set_longitude_range(start)
        are(pair, moved(t, start)[0], moved(u, start)[0])
    elif op == 'transpose':
        order = np.random.RandomState(a).permutation(len(t.shape)).tolist()
        pair.transpose(order)
        are(pair, t.transpose(order), u.transpose(order))
    elif op == 'history':
        pair.add_history('done')
        are(pair, t, u)
        check(all('done' in x.history for x in pair), '%s: history', what)
    elif op in ('extract', 'none', 'interpolate'):
        k = a % len(t.shape)
        name = t.dims[k]
        if name is None or name == 'time':
            return
        line = t.cols[name][tuple(slice(None) if i == k else 0 for i in range(len(t.shape)))]
        if op == 'interpolate':
            if len(line) < 2 or 'sigma' in t.cols or 'plane' in t.cols:
                return
            got = pair.interpolate([(name, float(line[0]))], iris.analysis.Linear())
            check(isinstance(got, GriddedDataList) and all(type(x) is type(obj) for x in got), '%s gave %s', what, [type(x) for x in got])
            for o, tt in zip(got, (t, u)):
                want = tt.vals.take(0, k)
                check(gen.same(np.where(np.isnan(want), np.nan, gen.filled(o.data)), want), '%s: values %s, not %s', what, o.data, want)
            return
        at = float(line[a % len(line)]) if op == 'extract' else 1e5
        got = pair.extract(iris.Constraint(coord_values={name: lambda cell: abs(cell.point - at) < 1e-6}))
        if op == 'none':
            check(got is None, '%s without anything gave %s', what, got)
        elif len(t.shape) > 1:
            keys = [a % len(line) if i == k and len(line) > 1 else slice(None) for i in range(len(t.shape))]
            are(got, t.take(keys), u.take(keys)) if len(line) > 1 else None
    elif op == 'remove' and 'forecast_period' in t.cols:
        pair.remove_coord('forecast_period')
        for x in (t, u):
            x = x.copy()
            del x.cols['forecast_period'], x.bounds['forecast_period']
        check(not any(x.coords('forecast_period') for x in pair), '%s: coordinate not removed', what)
    look(obj, t, 'the data after a list of copies was changed', full=False)


SUBS = [Sub('history', cases(), decide, quick=1800, thorough=20000)]
