"""Point data objects, and every view of them, against a table of points."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

PROPERTY = dict(
    title='Point data keep coordinates and values together in every slice, copy, view',
    statement="""Ungridded data hold exactly the points given whose coordinates are all present, each with its own coordinates and value, and
    so do all slices and copies of it, results of arithmetic, data frames, lists of points and single points taken from it, with missing
    values missing and counted as such. Slices, copies and results are independent: changing the values, coordinates, units or
    longitude range of one object changes what every view of that one gives from then on, and no other object. Arithmetic holds point by point,
    with the units which follow from those of the operands, and is refused where these cannot be combined.""",
    text='all sequences of operations on point data of any shape, coordinates and missing values',
    why="""The tests look at one operation at a time on a few fixed objects with all of the coordinates, and never look at a view
    after a change.""",
    files=['cis/data_io/ungridded_data.py', 'cis/data_io/Coord.py', 'cis/data_io/hyperpoint_view.py', 'cis/data_io/hyperpoint.py',
           'cis/maths.py'],
    mechanism=[('UngriddedData._post_process', 'cis/data_io/ungridded_data.py'), ('UngriddedData.__getitem__', 'cis/data_io/ungridded_data.py'),
               ('_coords_as_data_frame', 'cis/data_io/ungridded_data.py'), ('CoordList.copy', 'cis/data_io/Coord.py'),
               ('UngriddedHyperPointView', 'cis/data_io/hyperpoint_view.py'), ('_math_op_common', 'cis/maths.py')],
    observe=['UngriddedData, UngriddedCoordinates, Coord and their methods'],
    note="""Hypothesis sequences of operations (slicing, copying, assignment, arithmetic, unit and longitude changes) against a table of
    points, all objects and views being compared after each.""")

RULE = ('A case is some point data and a sequence of operations on it and on what these give, or three single points and changes to one. '
        'Non-trivial: an object is changed after another was made from it, or points with missing coordinates are left out while others are '
        'kept; a coordinate or value really changes.')

STANDARD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']
EXTRA = ['pixel', 'orbit']


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(['slice', 'slice', 'copy', 'copydata', 'setitem', 'setdata', 'lon', 'units', 'new', 'arith', 'setcoord',
                                 'inplace', 'coordcopy', 'list', 'points', 'attribute', 'attribute']))
    return [kind] + [draw(st.integers(0, 40)) for _ in range(4)] + [draw(gen.values())]


@st.composite
def cases(draw):
    names = None
    if draw(st.integers(0, 3)) == 0:
        names = draw(st.lists(st.sampled_from(STANDARD), min_size=1, max_size=3, unique=True))
    d = draw(gen.ungridded(min_n=1, max_n=9, lon=(-180, 360), coords=names))
    d['dtype'] = draw(st.sampled_from(['float', 'float', 'float', 'int']))
    if d['dtype'] == 'int':
        d['vals'] = [None if v is None else float(int(v)) for v in d['vals']]
    n = len(d['pts'])
    d['extra'] = draw(st.sampled_from([[], [], ['pixel'], ['pixel', 'orbit']]))
    d['bad'] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, len(d['coords']) + len(d['extra']) - 1),
                                       st.sampled_from(['mask', 'nan'])).map(list), max_size=2)) if draw(st.booleans()) else []
    d['plain'] = draw(st.booleans())
    return dict(data=d, ops=draw(st.lists(ops(), min_size=1, max_size=7)), kind=draw(st.sampled_from(['data', 'data', 'data', 'coords'])))


class Table(object):
    """What an object should hold."""

    def __init__(self, names, cols, vals, shape, units=None):
        from cf_units import Unit
        units = Unit('kg m-2 s-1') if units is None else units
        self.names, self.cols, self.vals, self.shape, self.units = names, cols, vals, tuple(shape), units
        self.attrs, self.long_name = {}, 'rain rate'

    def copy(self):
        return Table(list(self.names), {k: v.copy() for k, v in self.cols.items()}, None if self.vals is None else self.vals.copy(),
                     self.shape, self.units).described(self.attrs, self.long_name)

    def described(self, attrs, long_name):
        self.attrs, self.long_name = None if attrs is None else dict(attrs), long_name
        return self

    def take(self, key):
        out = self.copy()
        out.cols = {k: v[key].copy() for k, v in out.cols.items()}
        out.vals = out.vals[key].copy()
        out.shape = out.vals.shape
        return out


def build(d, kind):
    from cis.data_io.ungridded_data import UngriddedData, UngriddedCoordinates, Metadata
    from cis.data_io.Coord import Coord
    from cf_units import Unit
    n = len(d['pts'])
    shape = tuple(d['shape']) if d['shape'] else (n,)
    names = d['coords'] + d['extra']
    cols = {}
    for k, name in enumerate(d['coords']):
        cols[name] = np.array([p[k] for p in d['pts']], dtype=float)
    for name in d['extra']:
        cols[name] = np.array([7. * i + len(name) for i in range(n)])
    vals = gen.vals_nan(d)
    data = gen.to_ma(d['vals'], d['force_mask'], dtype=int if d['dtype'] == 'int' else float).reshape(shape)
    if d['plain'] and not np.ma.is_masked(data):
        data = np.asarray(data)
    bad = np.zeros(n, dtype=bool)
    coords = []
    for k, name in enumerate(names):
        arr = cols[name].copy()
        mask = np.zeros(n, dtype=bool)
        for i, j, how in d['bad']:
            if j == k:
                bad[i] = True
                if how == 'nan':
                    arr[i] = np.nan
                else:
                    mask[i] = True
        arr = np.ma.array(arr, mask=mask) if mask.any() else arr
        unit = Unit(gen.UNITS[name], calendar='gregorian') if name == 'time' else gen.UNITS.get(name, '1')
        coords.append(Coord(arr.reshape(shape), Metadata(name=gen.VAR.get(name, name), standard_name=name if name in STANDARD else None,
                                                         units=unit), gen.AXIS.get(name, '')))
    table = Table(names, cols, vals, shape)
    if bad.any():
        table.cols = {k: v[~bad] for k, v in cols.items()}
        table.vals = vals[~bad]
        table.shape = table.vals.shape
    else:
        table.cols = {k: v.reshape(shape) for k, v in cols.items()}
        table.vals = vals.reshape(shape)
    if kind == 'coords':
        table.vals = None
        return UngriddedCoordinates(coords), table, bad
    return UngriddedData(data, Metadata(name='rain', long_name='rain rate', units='kg m-2 s-1'), coords), table, bad


def look(obj, t, what, rotate, full=True):
    """Everything the object gives, against the table. `rotate` picks which view is looked at first."""
    flat = {k: v.ravel() for k, v in t.cols.items()}
    n = len(flat[t.names[0]])
    vals = None if t.vals is None else t.vals.ravel()

    def base():
        for name in t.names:
            c = obj.coord(name)
            check(np.shape(c.data) == t.shape, '%s: shape of %s %s, not %s', what, name, np.shape(c.data), t.shape)
            check(gen.same(gen.filled(c.points), t.cols[name]), '%s: %s %s, not %s', what, name, c.points, t.cols[name])
            if name in STANDARD:
                check(obj.coord(standard_name=name) is c, '%s: another %s', what, name)
        check([c.name() for c in obj.coords()] == t.names, '%s: coordinates %s, not %s', what, [c.name() for c in obj.coords()], t.names)
        check(obj.size == n, '%s: size %s of %s points', what, obj.size, n)
        if vals is not None:
            check(np.shape(obj.data) == t.shape, '%s: shape %s, not %s', what, np.shape(obj.data), t.shape)
            check(gen.same(gen.filled(obj.data), t.vals), '%s: values %s, not %s', what, obj.data, t.vals)
            check(obj.units == t.units, '%s: units %s, not %s', what, obj.units, t.units)
            if t.attrs is not None:
                check(dict(obj.attributes) == t.attrs, '%s: attributes %s, not %s', what, obj.attributes, t.attrs)
                check(obj.long_name == t.long_name, '%s: long name %s, not %s', what, obj.long_name, t.long_name)
        check(obj.count() == (n if vals is None else np.count_nonzero(~np.isnan(vals))), '%s: count %s', what, obj.count())

    def point(p, i, view, with_val=True):
        for k, name in enumerate(STANDARD):
            want = flat[name][i] if name in flat else None
            check((p[k] is None) == (want is None) and (want is None or abs(p[k] - want) <= 1e-9 * max(1, abs(want))),
                  '%s: %s of point %d of %s is %s, not %s', what, name, i, view, p[k], want)
            check(p[k] == getattr(p, name), '%s: %s of point', what, name)
        if vals is None or not with_val:
            check(len(p.val) == 0, '%s: point with value %s', what, p.val)
        else:
            got = float(np.ma.filled(np.ma.asarray(p.val[0], dtype=float), np.nan))
            check(len(p.val) == 1 and gen.same(np.array([got]), vals[i:i + 1]), '%s: value of point %d of %s is %s, not %s', what, i,
                  view, p.val, vals[i])

    def views():
        some = list(range(n)) if vals is None else [i for i in range(n) if vals[i] == vals[i]]
        view = obj.get_all_points()
        check(len(view) == n, '%s: %s points', what, len(view))
        for i, p in enumerate(view):
            point(p, i, 'all points')
        for i in range(n):
            point(view[i], i, 'all points by index')
        for i, p in enumerate(obj.get_coordinates_points()):
            point(p, i, 'the coordinates', with_val=False)
        view = obj.get_non_masked_points()
        check(len(list(view)) == len(some) and [i for i, _ in view.enumerate_non_masked_points()] == some, '%s: non-masked points', what)
        for i, p in zip(some, view):
            point(p, i, 'points')
        for i, p in view.enumerate_non_masked_points():
            point(p, i, 'points')
        if vals is not None:
            df = view.as_data_frame()
            check(list(df.index) == some and gen.same(df['vals'].values, vals[some]), '%s: data frame of points %s', what, df)
            for name in STANDARD:
                check((name in df) == (name in flat) and (name not in flat or gen.same(df[name].values, flat[name][some])),
                      '%s: %s of data frame of points', what, name)

    def single():
        for i in range(n):
            point(obj.hyper_point(i), i, 'single points')

    def frame():
        for time_index in (True, False):
            df = obj.as_data_frame(time_index=time_index)
            names = [x for x in t.names if not (time_index and x == 'time')]
            check(list(df.columns) == names + ([] if vals is None else [obj.name()]), '%s: columns %s', what, list(df.columns))
            for name in names:
                check(gen.same(df[name].values, flat[name]), '%s: %s of data frame %s, not %s', what, name, df[name].values, flat[name])
            if vals is not None:
                check(gen.same(df[obj.name()].values.astype(float), vals), '%s: data frame %s, not %s', what, df[obj.name()].values, vals)
            if 'time' in t.names and time_index:
                import datetime
                for got, days in zip(df.index, flat['time']):
                    want = datetime.datetime(1600, 1, 1) + datetime.timedelta(days=float(days))
                    got = datetime.datetime(got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond)
                    check(abs((got - want).total_seconds()) < 1e-3, '%s: time %s instead of %s', what, got, want)

    parts = [base, views, single, frame] if full else [base]
    r = rotate % len(parts)
    for part in parts[r:] + parts[:r]:
        part()


def key_for(shape, a, b, kind):
    """A slice of an array, which leaves at least one dimension."""
    n = shape[0]
    lo = a % (n + 1)
    keys = [slice(lo, None), slice(None, lo or None), slice(None, None, -1), slice(lo, None, 1 + b % 3), slice(None, None, 1 + b % 3),
            [i % n for i in (a, b, a + b)], Ellipsis, np.arange(n) % 2 == b % 2]
    if len(shape) == 2:
        keys += [a % n, (slice(None), b % shape[1]), (slice(lo, None), slice(b % shape[1], None)), (Ellipsis, slice(None, None, -1))]
    return keys[kind % len(keys)]


def decide(case, ctx):
    with ctx.sut('the data'):
        obj, table, bad = build(case['data'], case['kind'])
    pool = [(obj, table)]
    derived = changed = False
    with ctx.sut('the data'):
        look(obj, table, 'the data', len(case['ops']))
    for step, (kind, s, a, b, c, x) in enumerate(case['ops']):
        obj, t = pool[s % len(pool)]
        before = len(pool)
        n = int(np.prod(t.shape))
        what = '%s (step %d)' % (kind, step)
        new = None
        if t.vals is None and kind not in ('lon', 'setcoord', 'points', 'coordcopy'):
            continue
        if n == 0 and kind in ('slice', 'setitem', 'setcoord', 'lon', 'points'):
            continue
        ctx.tag(kind)
        with ctx.sut(what):
            if kind == 'slice':
                key = key_for(t.shape, a, b, c)
                new = obj[key], t.take(key)
            elif kind == 'copy':
                new = obj.copy(), t.copy()
            elif kind == 'copydata':
                arr = np.arange(n, dtype=float).reshape(t.shape) + a
                new = obj.copy(data=arr), t.copy()
                new[1].vals = arr.copy()
            elif kind == 'setitem':
                i = np.unravel_index(a % n, t.shape)
                if x is None and not isinstance(obj.data, np.ma.MaskedArray):
                    x = 4.
                if x is not None and obj.data.dtype.kind == 'i':
                    x = float(int(x))
                obj.data[i] = np.ma.masked if x is None else x
                t.vals[i] = np.nan if x is None else x
                changed = changed or derived
            elif kind == 'setdata':
                arr = np.arange(n, dtype=float).reshape(t.shape) * 2 + a
                if n and b % 2:
                    arr = np.ma.array(arr)
                    arr[np.unravel_index(a % n, t.shape)] = np.ma.masked
                obj.data = arr
                t.vals = gen.filled(arr)
                changed = changed or derived
            elif kind == 'lon':
                if 'longitude' not in t.names:
                    continue
                start = [-180, 0, -90, 170][a % 4]
                obj.set_longitude_range(start)
                t.cols['longitude'] = gen.wrap_lon(t.cols['longitude'], start)
                changed = changed or derived
            elif kind == 'setcoord':
                name = t.names[a % len(t.names)]
                i = np.unravel_index(b % n, t.shape)
                if c % 2:
                    obj.coord(name).data[i] = 1.25 + b
                    t.cols[name][i] = 1.25 + b
                else:
                    arr = t.cols[name].copy()
                    arr[i] = 2.5 + b
                    obj.coord(name).data = arr
                    t.cols[name] = arr.copy()
                changed = changed or derived
            elif kind == 'attribute':
                if t.vals is None:
                    continue
                obj.add_attributes({'note%d' % (a % 3): 'text %d' % b})
                if t.attrs is not None:
                    t.attrs['note%d' % (a % 3)] = 'text %d' % b
                if c % 3 == 0:
                    obj.metadata.long_name = 'rain rate %d' % b
                    t.long_name = 'rain rate %d' % b
                changed = changed or derived
            elif kind == 'units':
                from cf_units import Unit
                if t.units != Unit('kg m-2 s-1'):
                    continue
                obj.convert_units('g m-2 s-1')
                t.vals = t.vals * 1000
                t.units = Unit('g m-2 s-1')
                changed = changed or derived
            elif kind == 'new':
                arr = np.arange(n, dtype=float).reshape(t.shape) + 3 * a
                flatten = bool(b % 2)
                new = obj.make_new_with_same_coordinates(data=arr if c % 2 else None, var_name='w', units='K', flatten=flatten), t.copy()
                new[1].vals = (arr if c % 2 else 0 * arr).copy()
                from cf_units import Unit
                new[1].units = Unit('K')
                new[1].attrs = None
                if flatten:
                    new[1].vals = new[1].vals.ravel()
                    new[1].cols = {k: v.flatten() for k, v in t.cols.items()}
                    new[1].shape = new[1].vals.shape
            elif kind == 'arith':
                new = arithmetic(obj, t, pool[a % len(pool)], b, c)
                if new is None:
                    continue
                new[1].attrs = None
            elif kind == 'inplace':
                import cis.maths as m
                k = 1 + b % 5 if obj.data.dtype.kind == 'i' else float(1 + b % 5)
                if a % 3 == 0:
                    r = m.multiply(obj, k, in_place=True)
                    t.vals = t.vals * k
                elif a % 3 == 1:
                    r = m.subtract(obj, k, in_place=True)
                    t.vals = t.vals - k
                else:
                    r = m.abs(obj, in_place=True)
                    t.vals = np.abs(t.vals)
                check(r is obj, '%s gave another object', what)
                changed = changed or derived
            elif kind == 'coordcopy':
                name = t.names[a % len(t.names)]
                cc = obj.coord(name).copy()
                cc.data[...] = -1
                if b % 2:
                    obj.coords(name)[0][()].data[...] = -2
            elif kind == 'points':
                # Built again from its points, with the standard coordinates only
                from cis.data_io.ungridded_data import UngriddedData
                names = [x for x in STANDARD if x in t.names]
                again = UngriddedData.from_points_array([obj.hyper_point(i) for i in range(n)])
                for name in names:
                    check(gen.same(gen.filled(again.coord(standard_name=name).data), t.cols[name].ravel()), '%s: %s of points %s', what, name,
                          again.coord(standard_name=name).data)
                check(len(again.coords()) == len(names), '%s: coordinates %s', what, [k.name() for k in again.coords()])
                if t.vals is not None and not np.isnan(t.vals).any():
                    check(gen.same(gen.filled(again.data), t.vals.ravel()), '%s: values %s', what, again.data)
            else:
                from cis.data_io.ungridded_data import UngriddedDataList
                other = obj.copy(data=np.arange(n, dtype=float).reshape(t.shape))
                other.metadata.long_name = 'another'
                pair = UngriddedDataList([obj, other])
                df = pair.as_data_frame()
                check(gen.same(df[obj.name()].values.astype(float), t.vals.ravel()) and gen.same(df['another'].values.astype(float), np.arange(
                    float(n))), '%s: data frame %s', what, df)
                cp = pair.copy()
                cp[0].data[...] = 17
                cp[1].coord(t.names[0]).data[...] = 17
                check(gen.same(gen.filled(other.data).ravel(), np.arange(float(n))), '%s: values of other %s', what, other.data)
        if new is not None:
            derived = True
            pool.append(new)
        s %= before
        with ctx.sut('the views after ' + what):
            for i, (o, u) in enumerate(pool):
                look(o, u, 'object %d after %s' % (i, what), b + i, full=i in (s, len(pool) - 1, step % len(pool)))
    ctx.nontrivial(changed or (bad.any() and not bad.all()))


def not_fitting(obj, t, other, op, shape):
    """Arithmetic with data of another shape, where the result has another shape too."""
    try:
        if np.broadcast_shapes(t.shape, shape) == t.shape:
            return
    except ValueError:
        pass
    try:
        got = {'+': lambda: obj + other, '-': lambda: obj - other, '*': lambda: obj * other, '/': lambda: obj / other}[op]()
    except Exception:
        return
    check(False, 'shape %s %s shape %s gave shape %s', t.shape, op, shape, got.shape)


def arithmetic(obj, t, other, b, c):
    """A new object and its table, from obj and a number, another object, an array or a coordinate."""
    from cf_units import Unit
    o, u = other
    op = ['+', '-', '*', '/', '**', 'abs', 'neg', 'exp', 'log', '+', '-'][b % 11]
    out = t.copy()
    kind = ['number', 'object', 'array', 'rnumber', 'coord'][c % 5]
    if op in '+-*/':
        for more in (t.shape[:-1] + (t.shape[-1] + 1,), (2,) + t.shape, (3,) * len(t.shape)):
            not_fitting(obj, t, np.ones(more), op, more)
    if op in ('abs', 'neg'):
        if op == 'neg':
            return None
        import cis.maths as m
        out.vals = np.abs(t.vals)
        return m.abs(obj), out
    if op in ('exp', 'log'):
        import cis.maths as m
        known = t.vals[~np.isnan(t.vals)]
        if known.size and (np.abs(known).max() > 50 or op == 'log' and known.min() < 1e-3):
            return None
        out.vals = np.exp(t.vals) if op == 'exp' else np.log(t.vals)
        out.units = Unit('1') if op == 'exp' else t.units.log(np.e)
        return (m.exp if op == 'exp' else m.log)(obj), out
    if op == '**':
        out.vals = t.vals ** 2
        out.units = t.units ** 2
        return obj ** 2, out
    if kind == 'number':
        k, ku = 4., None
        given = k
    elif kind == 'rnumber':
        if op not in '+*':
            return None
        out.vals = t.vals + 3 if op == '+' else t.vals * 3
        out.units = t.units if op == '+' else t.units * Unit('1')
        return (3 + obj if op == '+' else 3 * obj), out
    elif kind == 'object':
        if u.shape != t.shape and u.vals is not None:
            not_fitting(obj, t, o, op, u.shape)
        if u.shape != t.shape or u.vals is None:
            return None
        k, ku, given = u.vals, u.units, o
    elif kind == 'array':
        k = np.arange(1., 1. + int(np.prod(t.shape))).reshape(t.shape)
        ku, given = None, k.copy()
    else:
        name = 'latitude'
        if name not in t.names or op in '+-':
            return None
        given = obj.coord(name)
        k, ku = t.cols[name], given.units
    if op in '+-':
        if ku is not None and ku != t.units:
            try:
                got = obj + given if op == '+' else obj - given
            except NotImplementedError:
                return None
            check(False, '%s %s %s gave %s', t.units, op, ku, got.units)
        if kind == 'object':
            # Data of the same kind in another unit, which would have to be converted
            alike = o.copy()
            alike.units = t.units * Unit('1000') if b % 2 else Unit('g m-2 s-1') if t.units == Unit('kg m-2 s-1') else Unit('km')
            try:
                got = obj + alike if op == '+' else obj - alike
            except NotImplementedError:
                got = None
            check(got is None, '%s %s %s gave data', t.units, op, alike.units)
        out.vals = t.vals + k if op == '+' else t.vals - k
        return (obj + given if op == '+' else obj - given), out
    ku = ku if ku is not None else Unit('1')
    if op == '*':
        out.vals, out.units = t.vals * k, t.units * ku
        return obj * given, out
    with np.errstate(all='ignore'):
        out.vals, out.units = t.vals / k, t.units / ku
    if not np.isfinite(out.vals[~np.isnan(t.vals)]).all():
        out.vals = np.where(np.isfinite(out.vals), out.vals, np.nan)
        if isinstance(obj.data, np.ndarray) and not isinstance(obj.data, np.ma.MaskedArray):
            return None     # (dividing by zero gives infinity without a mask, and missing with one)
    return obj / given, out


@st.composite
def single_points(draw):
    def one():
        return dict(lat=draw(gen.fixed(-90, 90, 10)), lon=draw(gen.fixed(-180, 360, 10)), alt=draw(gen.fixed(0, 5000)),
                    pres=draw(gen.fixed(1, 1100)), t=draw(gen.fixed(0, 20, 24)) + 150000, val=draw(gen.fixed(-9, 9)))
    return dict(points=[one() for _ in range(3)], none=draw(st.lists(st.sampled_from(['alt', 'pres', 't', 'val']), max_size=2)),
                change=draw(st.lists(st.sampled_from(['lat', 'lon', 'alt', 'pres', 't', 'val']), max_size=3, unique=True)),
                date=draw(st.booleans()))


def decide_points(case, ctx):
    import datetime
    from cis.data_io.hyperpoint import HyperPoint
    names = dict(zip(['lat', 'lon', 'alt', 'pres', 't'], STANDARD))

    def point(p, without=()):
        return HyperPoint(**{k: v for k, v in p.items() if k not in without})

    def same(p, want, what):
        for k, name in names.items():
            w = want.get(k)
            g = getattr(p, name)
            check((g is None) == (w is None) and (w is None or abs(g - w) < 1e-6), '%s: %s is %s, not %s', what, name, g, w)
        check(list(p.val) == ([] if want.get('val') is None else [want['val']]), '%s: value %s', what, p.val)
        check(dict(p.coord_tuple) == {name: getattr(p, name) for k, name in names.items() if want.get(k) is not None}, '%s: coordinates %s',
              what, p.coord_tuple)

    a, b, c = case['points']
    first = {k: v for k, v in a.items() if k not in case['none']}
    with ctx.sut('a point'):
        p = point(a, case['none'])
        same(p, first, 'point')
        change = {k: b[k] for k in case['change']}
        given = dict(change)
        if case['date'] and 't' in given:
            given['t'] = datetime.datetime(1600, 1, 1) + datetime.timedelta(days=given['t'])
        q = p.modified(**given)
        same(q, dict(first, **change), 'modified point')
        same(p, first, 'the point modified')
        if 'val' not in case['none'] and 't' not in case['none']:
            far = p.furthest_point_from()
            check(abs(gen.great_circle(a['lat'], a['lon'], far.latitude, far.longitude) - np.pi * gen.RADIUS) < 1e-3, 'furthest point %s', far)
        x, y, z = point(a), point(b), point(c)
        d = [gen.great_circle(a['lat'], a['lon'], o['lat'], o['lon']) for o in (b, c)]
        check(abs(x.haversine_dist(y) - d[0]) < 1e-3, 'distance %s, not %s', x.haversine_dist(y), d[0])
        if abs(d[0] - d[1]) > 1e-3:
            check(bool(x.compdist(y, z)) == (d[1] < d[0]), 'nearer of two')
        check(abs(x.alt_sep(y) - abs(a['alt'] - b['alt'])) < 1e-9 and x.compalt(y, z) == (abs(a['alt'] - c['alt']) < abs(a['alt'] - b['alt'])),
              'altitudes')
        check(abs(x.time_sep(y) - abs(a['t'] - b['t'])) < 1e-6, 'times')
        ratio = max(a['pres'] / b['pres'], b['pres'] / a['pres'])
        check(abs(x.pres_sep(y) - ratio) < 1e-9 * ratio, 'pressures')
        for what, keys in (('same_point_in_time', ['t']), ('same_point_in_space', ['lat', 'lon', 'alt', 'pres']),
                           ('same_point_in_space_and_time', list(names))):
            check(getattr(x, what)(y) == all(a[k] == b[k] for k in keys), what)
            m = x.modified(**change)
            check(getattr(x, what)(m) == all(a[k] == dict(a, **change)[k] for k in keys), what + ' as modified')
    ctx.nontrivial(bool(change) and change != {k: a[k] for k in change})


SUBS = [Sub('history', cases(), decide, quick=1200, thorough=20000),
        Sub('single_points', single_points(), decide_points, quick=400, thorough=10000)]
