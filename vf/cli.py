"""Running the command line in this process, and comparing its output files."""
import contextlib
import io
import os
import sys

import numpy as np

from vf import gen
from vf.core import check


class Outcome(object):
    def __init__(self):
        self.code = None          # exit status, if the command ended itself
        self.error = None         # the exception which main() would report (and exit with status 1 for)
        self.out = ''
        self.err = ''
        self.prompts = 0

    @property
    def ok(self):
        return self.error is None and self.code in (None, 0)

    def __repr__(self):
        return '<code %r, error %r, stdout %r, stderr %r>' % (self.code, self.error, self.out[-300:], self.err[-600:])


def run(args, answers=(), env=None):
    """Run a command as the program does, without its logging set-up. `answers` are given to prompts, then end of file."""
    from cis import cis_main
    res = Outcome()
    out, err = io.StringIO(), io.StringIO()
    stdin = sys.stdin
    saved = os.environ.get('CIS_FORCE_OVERWRITE')
    if env is None:
        os.environ.pop('CIS_FORCE_OVERWRITE', None)
    else:
        os.environ['CIS_FORCE_OVERWRITE'] = env
    sys.stdin = io.StringIO(''.join(a + '\n' for a in answers))
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cis_main.parse_and_run_arguments([str(a) for a in args])
            except SystemExit as e:
                res.code = 0 if e.code is None else e.code
            except MemoryError:
                raise
            except Exception as e:
                from vf.core import _reraise_environment
                _reraise_environment(e)
                res.error = e
    finally:
        res.prompts = len(answers) - len(sys.stdin.read().splitlines())
        sys.stdin = stdin
        if saved is None:
            os.environ.pop('CIS_FORCE_OVERWRITE', None)
        else:
            os.environ['CIS_FORCE_OVERWRITE'] = saved
    res.out, res.err = out.getvalue(), err.getvalue()
    return res


def escape(text):
    return text.replace(':', '\\:')


def number(v, style=0):
    """A number as it might be typed."""
    v = float(v)
    forms = [repr(v)]
    if v == int(v) and abs(v) < 1e15:
        forms.append('%d' % v)
        forms.append('%d.' % v)
    if float('%e' % v) == v:
        forms.append('%e' % v)
    return forms[style % len(forms)]


def same_data(got, want, what, names=True, history=False, rtol=1e-9, attributes=False):
    """A data object which was read against one which was worked out."""
    check(got.is_gridded == want.is_gridded, '%s: %s instead of %s', what, type(got).__name__, type(want).__name__)
    if got.is_gridded:
        a, b = gen.filled(got.data), gen.filled(want.data)
        dims = [[[c.name() for c in x.coords(dimensions=i, dim_coords=True)] for i in range(x.ndim)] for x in (got, want)]
        check(dims[0] == dims[1], '%s: dimensions %s instead of %s', what, *dims)
        coords = [(c.name(), c.points, c.bounds, str(c.units)) for c in got.coords()]
        other = {c.name(): (c.points, c.bounds, str(c.units)) for c in want.coords()}
    else:
        a, b = gen.filled(got.data).ravel(), gen.filled(want.data).ravel()
        coords = [(c.standard_name, gen.filled(c.data).ravel(), None, str(c.units)) for c in got.coords()]
        other = {c.standard_name: (gen.filled(c.data).ravel(), None, str(c.units)) for c in want.coords()}
    check(gen.same(a, b, rtol=rtol), '%s: values %s instead of %s', what, a.tolist(), b.tolist())
    check(sorted(c[0] for c in coords) == sorted(other), '%s: coordinates %s instead of %s', what, [c[0] for c in coords],
          sorted(other))
    for name, points, bounds, units in coords:
        p, bnd, u = other[name]
        check(gen.same(points, p, rtol=rtol), '%s: %s %s instead of %s', what, name, points, p)
        check((bounds is None) == (bnd is None) and (bounds is None or gen.same(bounds, bnd, rtol=rtol)),
              '%s: bounds of %s %s instead of %s', what, name, bounds, bnd)
        check(units == u, '%s: units of %s %r instead of %r', what, name, units, u)
    if names:
        check(got.var_name == want.var_name, '%s: var_name %r instead of %r', what, got.var_name, want.var_name)
        check((got.standard_name or '') == (want.standard_name or ''), '%s: standard name %r instead of %r', what,
              got.standard_name, want.standard_name)
        check((got.long_name or '') == (want.long_name or ''), '%s: long name %r instead of %r', what, got.long_name,
              want.long_name)
        check(str(got.units) == str(want.units), '%s: units %r instead of %r', what, got.units, want.units)
    if history:
        check(str(got.history).strip() == str(want.history).strip(), '%s: history %r instead of %r', what, got.history,
              want.history)


def stamp(path):
    """What is on disk at a path."""
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


# --- Input files and the datagroups naming them ----------------------------------------------------------------------

VARS = [('rain', 'rainfall_flux', 'the rain', 'kg m-2 s-1'), ('rate', None, 'some rate', 'K'), ('x_2', None, 'third', '1')]


def files(st, kinds=('ungridded', 'gridded'), max_vars=3, min_vars=1, max_files=2, grid_kw=None, points_kw=None, time0=150000,
          files_how=('list', 'dir', 'wild')):
    """Strategy of input files: data of one kind, in one file or (ungridded) split over two, and how they are spelt."""
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(kinds))
        nv = draw(st.integers(min_vars, max_vars))
        case = dict(kind=kind, nv=nv, colon=draw(st.integers(0, 3)) == 0, how=draw(st.sampled_from(files_how)),
                    vars=draw(st.permutations(list(range(nv)))), wild=draw(st.integers(0, 3)) == 0,
                    product=draw(st.sampled_from(['', '', 'key', 'plain'])))
        if kind == 'gridded':
            kw = dict(bounds=False, time0=time0)
            kw.update(grid_kw or {})
            case['data'] = draw(gen.grid(**kw))
            case['cut'] = None
        else:
            kw = dict(min_n=1, max_n=12, two_d=False, time0=time0)
            kw.update(points_kw or {})
            case['data'] = draw(gen.ungridded(**kw))
            n = len(case['data']['pts'])
            case['cut'] = draw(st.integers(1, n - 1)) if max_files > 1 and n > 1 and draw(st.booleans()) else None
            case['more'] = draw(st.lists(st.lists(gen.values(), min_size=n, max_size=n), min_size=nv - 1, max_size=nv - 1))
        return case
    return cases()


def objects(case, points=None):
    """The data objects of the case, in the order of VARS; of some of the points only."""
    out = []
    for k in range(case['nv']):
        name, std, long_name, units = VARS[k]
        if case['kind'] == 'gridded':
            g = dict(case['data'], seed=case['data']['seed'] + k)
            out.append(gen.build_grid(g, var=name, standard_name=std, long_name=long_name, units=units))
        else:
            d = dict(case['data'])
            if k:
                d['vals'] = case['more'][k - 1]
            if points is not None:
                d = dict(d, pts=d['pts'][points], vals=d['vals'][points])
            from cis.time_util import cis_standard_time_unit
            obj = gen.make(d, var=name, standard_name=std, long_name=long_name, units=units)
            for c in obj.coords():
                if c.standard_name == 'time':
                    c.units = cis_standard_time_unit
            out.append(obj)
    return out


def listed(objs):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    return (GriddedDataList if objs[0].is_gridded else UngriddedDataList)(objs)


def write(case, folder, name='data'):
    """Writes the files; gives (variables as typed, files as typed, options as typed, the data objects to be read)."""
    folder = os.path.join(folder, name + (':odd' if case['colon'] else ''))
    os.makedirs(folder)
    parts = [None] if case['cut'] is None else [slice(None, case['cut']), slice(case['cut'], None)]
    paths = []
    for i, part in enumerate(parts):
        path = os.path.join(folder, '%s_%d.nc' % (name, i))
        objs = objects(case, part)
        if len(objs) == 1:
            objs[0].save_data(path)
        else:
            listed(objs).save_data(path)
        paths.append(path)
    wanted = [objects(case)[k] for k in case['vars']]
    if case['how'] == 'list':
        spelt = ','.join(paths)
    elif case['how'] == 'dir':
        spelt = folder
    else:
        spelt = os.path.join(folder, name + '_*.nc')
    names = ','.join(w.var_name for w in wanted)
    if case['wild']:
        names = ','.join(n[:-2] + '?' + n[-1] for n in names.split(','))
    product = 'NetCDF_Gridded' if case['kind'] == 'gridded' else 'cis'
    return names, escape(spelt), {'': '', 'key': 'product=' + product, 'plain': product}[case['product']], wanted, paths


def read_back(path, wanted):
    import cis
    if wanted[0].is_gridded:
        # (directly, since reading each variable with CIS is slow)
        import iris
        from cis.data_io.gridded_data import make_from_cube
        cubes = {}
        for cube in iris.load_raw(path):
            check(cube.var_name not in cubes, 'two variables %s in the output', cube.var_name)
            cubes[cube.var_name] = make_from_cube(cube)
        for w in wanted:
            check(w.var_name in cubes, 'no variable %s in the output', w.var_name)
        return [cubes[w.var_name] for w in wanted]
    return [cis.read_data(path, w.var_name) for w in wanted]


class Quiet(object):
    """A context for deciding a part of a case: it leaves what the case counts as to the whole."""

    def __init__(self, ctx):
        self._ctx = ctx

    def __getattr__(self, name):
        return getattr(self._ctx, name)

    def tag(self, *args):
        pass

    def nontrivial(self, *args):
        pass
