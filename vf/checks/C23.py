"""The same objects used again and again: nothing that is done with them may matter to what is done next."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.checks.C22 import offline
from vf.core import Sub, check

PROPERTY = dict(
    title='Results do not depend on what was done before with the same objects',
    statement="""Subsetting, aggregating, collapsing, collocating, evaluating, comparing, converting to tables, plotting and saving leave the
    data they are given, and their coordinates and lists, as they were. Each gives the same result, or the same error, on objects which have been used before in any way, and on results of earlier operations,
    as on new objects made or read from the same source. Results are independent of what they were made from and of each other: changing the
    values, coordinates, units or longitude range of one object changes no other.""",
    text='all sequences of operations on a set of point and gridded data, made or read from files',
    why="""Each test makes or reads its own data, does one thing with it, and looks at the result only.""",
    files=['cis/data_io/ungridded_data.py', 'cis/data_io/gridded_data.py', 'cis/data_io/common_data.py', 'cis/data_io/Coord.py',
           'cis/collocation/col_implementations.py', 'cis/collocation/gridded_interpolation.py', 'cis/aggregation/gridded_collapsor.py',
           'cis/aggregation/ungridded_aggregator.py', 'cis/subsetting/subset.py', 'cis/evaluate.py', 'cis/stats.py', 'cis/plotting/plot.py'],
    mechanism=[('GriddedCollapsor.__call__', 'cis/aggregation/gridded_collapsor.py'), ('Subsetter, subset', 'cis/subsetting/subset.py'),
               ('collocate', 'cis/collocation/col_implementations.py'), ('LazyData.data', 'cis/data_io/ungridded_data.py'),
               ('UngriddedData.copy', 'cis/data_io/ungridded_data.py')],
    observe=['subset, aggregate, collapsed, collocated_onto, as_data_frame, get_all_points, save_data, plot, cis.evaluate, cis.stats'],
    note="""Hypothesis sequences of operations; every result is compared with that of the same operation on objects made anew, and every object
    with what it was before, after each step.""")

RULE = ('A case is a set of data objects and a sequence of operations on them and on what these give. Non-trivial: an object is used a second '
        'time, after an operation which worked.')

DIMS = ['latitude', 'longitude', 'time', 'altitude']
KERNELS = ['mean', 'max', 'min', 'sum', 'stddev', 'moments']
OPS = ['subset', 'subset', 'aggregate', 'collapse', 'collocate', 'collocate', 'collocate', 'evaluate', 'stats', 'save', 'frame', 'points', 'copy',
       'slice', 'pair', 'plot', 'turn', 'assign', 'convert', 'rewrite', 'rewrite', 'rewrite']
CHANGES = ['turn', 'assign', 'convert', 'rewrite']
BASES = ['u', 'v', 's', 'g', 'h']


@st.composite
def cases(draw):
    coords = ['latitude', 'longitude'] + [c for c in ('altitude', 'time') if draw(st.booleans())]
    u = draw(gen.ungridded(min_n=2, max_n=6, coords=coords))
    v = draw(st.lists(gen.values(), min_size=len(u['pts']), max_size=len(u['pts'])))
    s = draw(gen.ungridded(min_n=2, max_n=6, coords=coords))
    if draw(st.booleans()):
        # near each other
        k = coords.index('longitude')
        s['pts'] = [list(u['pts'][i % len(u['pts'])]) for i in range(len(s['pts']))]
        for i, p in enumerate(s['pts']):
            p[k] = gen._wrap(p[k] + (i % 3) / 4., draw(st.sampled_from([-180, 0])))
    dims = draw(st.permutations([c for c in coords if c in ('latitude', 'longitude') or draw(st.booleans())]))
    g = draw(gen.grid(dims=dims, max_n=4, bounds=draw(st.booleans())))
    h = draw(gen.grid(dims=draw(st.permutations(dims)), max_n=4, bounds=draw(st.booleans())))
    if draw(st.booleans()):
        h['points'] = dict(g['points'], longitude=h['points']['longitude'])
        h['bounds'] = dict(g['bounds'], longitude=h['bounds']['longitude'])
        size = int(np.prod([len(h['points'][d]) for d in h['dims']]))
        h['missing'] = [m for m in h['missing'] if m < size]
    for x in (g, h):
        if draw(st.booleans()):
            # (cells of every dimension given)
            x['bounds'] = {d: [list(c)[::1 if x['points'][d][0] < x['points'][d][-1] else -1] for c in gen.cells(x, d)] for d in x['dims']}
    step = st.tuples(st.sampled_from(OPS), st.lists(st.integers(0, 60), min_size=6, max_size=6)).map(list)
    return dict(u=u, v=v, s=s, g=g, h=h, files=draw(st.integers(0, 2)) == 0, aux=draw(st.integers(0, 3)), steps=draw(st.lists(step, min_size=2, max_size=6)))


# --- Objects ---------------------------------------------------------------------------------------------------------

class World(object):
    """The objects of the case, made (or read) when first asked for."""

    def __init__(self, case, folder):
        self.case, self.folder, self.made = case, folder, {}

    def base(self, name):
        if name not in self.made:
            self.made.update(self.make(name))
        return self.made[name]

    def build(self, name):
        c = self.case
        if name in 'gh':
            grid = gen.build_grid(c[name], var='x_' + name, attributes={'source': 'made up'})
            from iris.coords import AuxCoord, DimCoord
            if c['aux'] % 2:
                grid.add_aux_coord(AuxCoord(3., long_name='member'))
            if c['aux'] > 1:
                shape = grid.shape[:2] if name == 'g' else grid.shape[:1]
                grid.add_aux_coord(AuxCoord(np.arange(float(np.prod(shape))).reshape(shape), long_name='surface', units='m'), range(len(shape)))
            if c['aux'] > 2 and 'altitude' in c[name]['dims']:
                # (heights over the ground)
                from iris.aux_factory import HybridHeightFactory
                lev, = grid.coord_dims('altitude')
                level = grid.coord('altitude')
                grid.remove_coord(level)
                grid.add_dim_coord(DimCoord(level.points, long_name='level_height', units='m', bounds=level.bounds), lev)
                others = [i for i in range(grid.ndim) if i != lev][:2]
                sigma = AuxCoord(np.linspace(1, 0, len(level.points)), long_name='sigma', units='1')
                ground = AuxCoord(np.arange(float(np.prod([grid.shape[i] for i in others]))).reshape([grid.shape[i] for i in others]),
                                  standard_name='surface_altitude', units='m')
                grid.add_aux_coord(sigma, lev)
                grid.add_aux_coord(ground, others)
                grid.add_aux_factory(HybridHeightFactory(grid.coord('level_height'), sigma, ground))
            return [grid]
        if name == 's':
            return [gen.make(c['s'], var='x_s')]
        from cis.data_io.ungridded_data import UngriddedData, Metadata
        one = gen.make(c['u'], var='x_u')
        two = gen.to_ma(c['v'], c['u']['force_mask']).reshape(one.data.shape)
        return [one, UngriddedData(two, Metadata(name='x_v', long_name='second', units='K', shape=two.shape), one.coords().copy())]

    def make(self, name):
        names = ['u', 'v'] if name in 'uv' else [name]
        if not self.case['files']:
            return dict(zip(names, self.build(name)))
        import cis
        from vf import cli
        path = os.path.join(self.folder, names[0] + '.nc')
        if not os.path.exists(path):
            objs = self.build(name)
            (objs[0] if len(objs) == 1 else cli.listed(objs)).save_data(path)
        return dict(zip(names, cis.read_data_list(path, ['x_' + n for n in names])))


def plain(text):
    """Without times and addresses."""
    return re.sub(r'\d{4}-\d\d-\d\d ?T?\d\d:\d\d:\d\dZ?|0x[0-9a-f]+', '', str(text))


def everything(o):
    """All there is to see of an object."""
    attributes = {k: plain(a) for k, a in (o.attributes if o.is_gridded else dict(o.metadata.misc, **o.attributes)).items()}
    out = [('values', gen.filled(o.data)), ('kind of values', str(o.data.dtype)), ('names', (o.var_name, o.standard_name, o.long_name)),
           ('units', str(o.units)), ('history', None if o.is_gridded else plain(o.history)), ('attributes', attributes)]
    for c in o.coords():
        what = c.name()
        out.append((what, gen.filled(c.points)))
        out.append(('names of ' + what, (c.var_name, c.standard_name, c.long_name, str(c.units))))
        if o.is_gridded:
            out.append(('bounds of ' + what, None if c.bounds is None else np.array(c.bounds, float)))
            out.append(('dimensions of ' + what, o.coord_dims(c)))
            out.append(('kind of ' + what, (type(c).__name__, getattr(c, 'circular', None))))
    return out


def differences(a, b):
    if [k for k, _ in a] != [k for k, _ in b]:
        return '%s instead of %s' % ([k for k, _ in a], [k for k, _ in b])
    for (what, x), (_, y) in zip(a, b):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if not gen.same(x, y, rtol=1e-9, atol=1e-9):
                return '%s: %s instead of %s' % (what, x.tolist(), y.tolist())
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray) or x != y:
            return '%s: %r instead of %r' % (what, x, y)
    return None


# --- Operations ------------------------------------------------------------------------------------------------------

def apply(step, objs, folder):
    """Does one thing; gives (new objects, anything else to compare)."""
    kind, n = step
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    a, b = objs
    many = None
    if kind == 'pair':
        many = (GriddedDataList if a.is_gridded else UngriddedDataList)([a, b] if a is not b else [a])
        kind, a = ['subset', 'collocate', 'aggregate', 'collapse', 'frame', 'copy', 'save'][n[5] % 7], many
        b = objs[n[4] % 2]
    names = [c.name() for c in a[0].coords()] if many is not None else [c.name() for c in a.coords()]
    if kind == 'subset':
        limits = {d: LIMITS[d][(n[2] + i) % len(LIMITS[d])] for i, d in enumerate(chosen(names, n[3]))}
        if n[4] % 5 == 0:
            limits['shape'] = 'POLYGON((-150 -80, 40 -85, 170 10, 100 85, -100 70, -150 -80))'
        return listify(a.subset(**limits)), None
    if kind == 'aggregate':
        if a.is_gridded:
            return [], None
        return listify(a.aggregate(how=KERNELS[n[2] % 6], **{d: STEPS[d][(n[4] + i) % len(STEPS[d])] for i, d in enumerate(chosen(names, n[3]))})), None
    if kind == 'collapse':
        if not a.is_gridded:
            return [], None
        return listify(a.collapsed(chosen(names, n[3]), how=KERNELS[n[2] % 6])), None
    if kind == 'collocate':
        kw = {}
        if a.is_gridded:
            kw['how'] = ['lin', 'nn'][n[2] % 2]
            kw['extrapolate'] = n[4] % 4 == 0
        elif b.is_gridded and n[2] % 2:
            kw.update(how='bin', kernel=KERNELS[n[4] % 6])
        else:
            kw.update(how='box', kernel=(KERNELS + ['nn_h'])[n[4] % 7], h_sep=['1000km', '9000km'][n[5] % 2])
        if not b.is_gridded and n[5] % 5 == 0:
            # (only the places)
            from cis.data_io.ungridded_data import UngriddedCoordinates
            b = UngriddedCoordinates(b.coords())
        return listify(a.collocated_onto(b, missing_data_for_missing_sample=bool(n[3] % 2), **kw)), None
    if kind == 'evaluate':
        from cis.evaluate import Calculator
        if n[3] % 4 == 0:
            import cis.maths
            return [[lambda: a * 2, lambda: a + a, lambda: cis.maths.abs(a) if not a.is_gridded else a - 1, lambda: a ** 2][n[4] % 4]()], None
        pair = [a, b] if n[2] % 2 and a is not b else [a]
        for o, name in zip(pair, 'ab'):
            o.alias = name
        expr = 'a + 2 * b' if len(pair) == 2 else ['numpy.abs(a) - 1', 'a', 'a[:]'][n[4] % 3]
        return listify(Calculator().evaluate(pair, expr, 'out', '1', *([{'note': 'evaluated', 'long_name': 'of both'}] if n[5] % 2 else []))), None
    if kind == 'stats':
        from cis.stats import StatsAnalyzer
        return [], [r.pprint() for r in StatsAnalyzer(a, b).analyze()]
    if kind == 'save':
        path = os.path.join(folder, 'saved.nc')
        a.save_data(path)
        return [], saved(path)
    if kind == 'frame':
        f = a.as_data_frame()
        out = [f.shape, sorted(map(str, f.columns)), str(f.index.dtype), [sorted(np.asarray(f[c], float).ravel().round(6).tolist(), key=str)
                                                                              for c in sorted(f.columns, key=str)]]
        # (a table is a copy)
        for c in f.columns:
            f.loc[:, c] = 99.
        return [], out
    if kind == 'points':
        if n[2] % 2:
            points = [p for p in a.get_all_points()]
        else:
            points = [p for p in a.get_non_masked_points()]
        return [], [[str(p.val[0]) if p.val else None, p.latitude, p.longitude, p.altitude, p.time] for p in points]
    if kind == 'copy':
        return listify(a.copy()), None
    if kind == 'slice':
        return [a[tuple(slice(n[2] % 2, None) for _ in a.shape)]], None
    if kind == 'turn':
        a.set_longitude_range([-180, 0, 100, -300][n[2] % 4])
        return [], None
    if kind == 'assign':
        if n[2] % 3 == 0:
            a.data = a.data + 1
        elif n[2] % 3 == 1:
            a.data[(0,) * a.data.ndim] = 77.
        else:
            a.coords()[n[3] % len(names)].points[0] -= 0.015625
        return [], None
    if kind == 'rewrite':
        rewrite(a)
        return [], None
    if kind == 'convert':
        a.coord('latitude').convert_units('radians')
        a.add_attributes({'note': 'converted'})
        return [], None
    if kind == 'plot':
        with offline() as plt:
            a.plot()
            if n[2] % 3 == 0:
                plt.gcf().canvas.draw()
        return [], None


def rewrite(a):
    """Changes everything that belongs to an object, in place."""
    values = a.data
    values += 1
    if isinstance(values, np.ma.MaskedArray):
        values[(0,) * values.ndim] = np.ma.masked
    for c in a.coords():
        if a.is_gridded:
            c.points = c.points + 0.0078125
            if c.has_bounds():
                c.bounds = c.bounds + 0.0078125
            c.attributes['note'] = 'changed'
        else:
            c.data[...] += 0.0078125
            c.metadata.misc['note'] = 'changed'
        c.long_name = 'changed ' + c.name()
    a.units = 'K'
    a.long_name = 'changed'
    a.add_attributes({'note': 'changed'})
    a.add_history('Changed')


LIMITS = {'latitude': [[-90, 90], [-30, 60], [10, 40]], 'longitude': [[-180, 180], [170, 200], [0, 360], [-20, 100], [300, 420]],
          'time': [[150000, 150030], [150003, 150010]], 'altitude': [[0, 5000], [100, 2500]]}
STEPS = {'latitude': [[-90, 90, 30], [-40, 60, 10]], 'longitude': [[-180, 180, 60], [0, 360, 45], [-30, 60, 10]],
         'time': [[150000, 150020, 5]], 'altitude': [[0, 5000, 1000]]}


def chosen(names, k):
    known = [d for d in DIMS if d in names]
    return [d for i, d in enumerate(known) if (k + 1) & (1 << i)] or known[:1] or ['latitude']


def independent(results, inputs, forward, what):
    """Changes to any of the results leave the inputs and each other as they are, and the other way round."""
    change, keep = (inputs, results) if forward else (results, inputs)
    if len(change) > 1 and change[0] is change[1]:
        change = change[:1]
    for k, o in enumerate(change):
        others = list(keep) + ([] if forward else change[:k] + change[k + 1:])
        was = [everything(x) for x in others]
        try:
            rewrite(o)
        except Exception as e:
            from vf.core import _reraise_environment
            _reraise_environment(e)
        for x, y in zip(others, was):
            diff = differences(everything(x), y)
            check(diff is None, '%s: a change to %s changed %s: %s', what, 'an input' if forward else 'a result',
                  'an input' if not forward and any(x is z for z in inputs) else 'a result', diff)


def index(k, size):
    """An object of the pool: one of those it started with, or one of the last results."""
    results = size - len(BASES)
    return size - 1 - k % min(3, results) if k >= 30 and results else k % len(BASES)


def listify(x):
    return list(x) if isinstance(x, list) else [] if x is None else [x]


def saved(path):
    from netCDF4 import Dataset
    out = {}
    with Dataset(path) as f:
        for name, var in f.variables.items():
            data = gen.filled(var[...]) if np.issubdtype(var.dtype, np.number) else None
            out[name] = [var.dimensions, str(var.dtype), None if data is None else np.round(data, 9).tolist(),
                         {k: plain(var.getncattr(k)) for k in var.ncattrs()}]
    return {k: str(v) for k, v in out.items()}


def attempt(step, objs, folder):
    try:
        return apply(step, objs, folder) + (None,)
    except Exception as e:
        from vf.core import _reraise_environment
        _reraise_environment(e)
        return [], None, e


def decide(case, ctx):
    folder = ctx.dir()
    world = World(case, folder)
    # An object: how it was made (a base, or a step with the recipes of its objects, and which of the results)
    pool = [(name, world.base(name)) for name in BASES]
    before = None
    again, worked, used = False, False, set()

    def fresh(recipe):
        def follow(r):
            if isinstance(r, str):
                return World(case, folder).base(r)
            step, parts, k = r
            if k == 'changed':
                objs = again_of(parts)
                attempt(step, objs, folder)
                return objs[0]
            return attempt(step, again_of(parts), folder)[0][k]

        def again_of(parts):
            objs = [follow(parts[0])]
            objs.append(objs[0] if parts[1] == parts[0] else follow(parts[1]))
            return objs
        return again_of(recipe) if isinstance(recipe, list) else follow(recipe)

    if not case['files']:
        before = [everything(o) for _, o in pool]
    for number, step in enumerate(case['steps']):
        kind, n = step
        i, j = [index(k, len(pool)) for k in n[:2]]
        if kind in ('collapse', 'aggregate'):
            while pool[i][1].is_gridded != (kind == 'collapse'):
                i = (i + 1) % len(pool)
        if kind == 'pair':
            # Lists hold objects of one kind with the same coordinates
            i, j = (0, 1) if n[0] % 2 else (i, i)
        objs = [pool[i][1], pool[j][1]]
        recipes = [pool[i][0], pool[j][0]]
        new, other, error = attempt(step, objs, folder)
        ctx.tag('refused' if error else kind)
        if worked and {i, j} & used:
            again = True
        used |= {i, j}
        worked = worked or not error
        objs2 = fresh(recipes)
        new2, other2, error2 = attempt(step, objs2, folder)
        what = 'step %d (%s of %s)' % (number, kind, recipes if all(isinstance(r, str) for r in recipes) else 'results')
        check(type(error) is type(error2), '%s: %r instead of %r', what, error or 'a result', error2 or 'a result')
        check(len(new) == len(new2), '%s: %d results instead of %d', what, len(new), len(new2))
        for x, y in zip(new, new2):
            diff = differences(everything(x), everything(y))
            check(diff is None, '%s is not what it is with new objects: %s', what, diff)
        check(str(other) == str(other2), '%s gives %s, but %s with new objects', what, other, other2)
        independent(new2, objs2, n[5] % 2, what)
        if kind in CHANGES:
            pool[i] = ((step, recipes, 'changed'), objs[0])
            diff = differences(everything(objs[0]), everything(fresh(pool[i][0])))
            check(diff is None, '%s does not do what it does to a new object: %s', what, diff)
            if before is not None:
                before[i] = everything(objs[0])
        if before is not None:
            for (recipe, o), was in zip(pool, before):
                diff = differences(everything(o), was)
                check(diff is None, '%s changed %s: %s', what, recipe if isinstance(recipe, str) else 'an earlier result', diff)
            before += [everything(x) for x in new]
        for k, x in enumerate(new):
            pool.append(((step, recipes, k), x))
    if before is None:
        for recipe, o in pool:
            diff = differences(everything(o), everything(fresh(recipe)))
            check(diff is None, 'at the end %s is changed: %s', recipe if isinstance(recipe, str) else 'a result', diff)
    ctx.nontrivial(again)


SUBS = [Sub('histories', cases(), decide, quick=450, thorough=12000)]
