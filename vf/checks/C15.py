"""Evaluation of expressions, against an evaluation point by point."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen, cli
from vf.core import Sub, check

PROPERTY = dict(
    title='Evaluated expressions hold point by point, missing where an input is',
    statement="""Evaluating an expression over any number of variables of equal shape, gridded or ungridded and under their own names (also
    if typed as wildcards) or aliases, gives for each point the value of the expression there (whole-array functions taking the non-missing values), and a
    missing value where a variable it depends on is missing or the expression is undefined; coordinates stay in step, and name,
    units, attributes and history of the result are as asked for. Expressions with a double underscore or any
    function other than the listed safe ones and numpy's are refused, as are results of another shape, clashing names and
    malformed attributes, and neither input files nor data are changed.""",
    text='all expressions, variables, aliases, shapes and missing values',
    why="""The tests evaluate sums and means of a few arrays without missing values.""",
    files=['cis/evaluate.py', 'cis/cis_main.py', 'cis/parse.py', 'cis/data_io/gridded_data.py', 'cis/data_io/ungridded_data.py'],
    mechanism=[('Calculator', 'cis/evaluate.py'), ('evaluate_cmd', 'cis/cis_main.py'),
               ('make_new_with_same_coordinates', 'cis/data_io/ungridded_data.py'),
               ('make_new_with_same_coordinates', 'cis/data_io/gridded_data.py'),
               ('_set_aliases_for_datagroups', 'cis/parse.py')],
    observe=['cis eval', 'cis.evaluate.Calculator.evaluate'],
    note="""Hypothesis expression trees against an evaluator working on one point at a time.""")

RULE = 'A case is data, an expression tree and options. Non-trivial: the result has two different values or a missing one.'

NAMES = [('a', None), ('Beta_1', None), ('550-870Angstrom', 'a550'), ('r.x', 'rx')]
FUNCS1 = {'abs': abs, 'numpy.sqrt': math.sqrt, 'numpy.exp': lambda x: math.exp(x), 'numpy.log': math.log, 'numpy.abs': abs,
          'numpy.sin': math.sin, '-': lambda x: -x, '+': lambda x: x, 'numpy.log10': math.log10}
FUNCS2 = {'numpy.maximum': max, 'numpy.minimum': min}
WHOLE = {'numpy.mean': lambda v: sum(v) / len(v), 'numpy.max': max, 'numpy.min': min, 'numpy.sum': sum,
         }
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def trees(nv):
    var = st.integers(0, nv - 1).map(lambda i: ['var', i])
    const = gen.fixed(-8, 8, 4).map(lambda c: ['const', c])
    whole = st.tuples(st.sampled_from(sorted(WHOLE)), st.integers(0, nv - 1)).map(lambda t: ['whole', t[0], t[1]])

    def grow(inner):
        return st.one_of(st.tuples(st.sampled_from(sorted(OPS)), inner, inner).map(lambda t: ['op'] + list(t)),
                         st.tuples(st.sampled_from(sorted(FUNCS1)), inner).map(lambda t: ['f1'] + list(t)),
                         st.tuples(st.sampled_from(sorted(FUNCS2)), inner, inner).map(lambda t: ['f2'] + list(t)),
                         st.tuples(inner, st.integers(0, 3)).map(lambda t: ['pow', t[0], t[1]]),
                         st.tuples(var, const, var).map(lambda t: ['where'] + list(t)))
    return st.recursive(st.one_of(var, var, const, whole), grow, max_leaves=6)


COMPARE = {'>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def conditions(nv):
    """Comparisons, which hold (1) or do not (0)."""
    arrays = trees(nv).filter(has_var).filter(numeric)
    one = st.tuples(st.sampled_from(sorted(COMPARE)), arrays, st.one_of(arrays, gen.fixed(-8, 8, 4).map(lambda c: ['const', c])))
    return st.recursive(one.map(lambda t: ['cmp'] + list(t)), lambda inner: st.one_of(
        st.tuples(st.sampled_from('&|'), inner, inner).map(lambda t: ['bool'] + list(t)), inner.map(lambda t: ['not', t])), max_leaves=3)


def text(t, names, sp=''):
    k = t[0]
    if k == 'var':
        return names[t[1]]
    if k == 'const':
        return '(%r)' % t[1]
    if k == 'whole':
        return '%s(%s)' % (t[1], names[t[2]])
    if k == 'op':
        return '(%s%s%s%s%s)' % (text(t[2], names, sp), sp, t[1], sp, text(t[3], names, sp))
    if k in ('cmp', 'bool'):
        return '(%s%s%s%s%s)' % (text(t[2], names, sp), sp, t[1], sp, text(t[3], names, sp))
    if k == 'not':
        return '(~%s)' % text(t[1], names, sp)
    if k == 'f1':
        return '%s(%s)' % (t[1], text(t[2], names, sp)) if t[1] not in '+-' else '(%s%s)' % (t[1], text(t[2], names, sp))
    if k == 'f2':
        return '%s(%s,%s%s)' % (t[1], text(t[2], names, sp), sp, text(t[3], names, sp))
    if k == 'pow':
        return '(%s**%d)' % (text(t[1], names, sp), t[2])
    if k == 'where':
        return 'numpy.ma.masked_where(%s>%s,%s%s)' % (text(t[1], names, sp), text(t[2], names, sp), sp, text(t[3], names, sp))


class Undefined(Exception):
    pass


def evaluate(t, at, columns):
    """The value at a point (None missing); Undefined where it may be missing, infinite or not a number."""
    k = t[0]
    if k == 'var':
        return at[t[1]]
    if k == 'const':
        return t[1]
    if k == 'whole':
        v = [x for x in columns[t[2]] if x is not None]
        if not v:
            raise Undefined()
        return float(WHOLE[t[1]](v))
    if k == 'where':
        a, c = evaluate(t[1], at, columns), evaluate(t[2], at, columns)
        v = evaluate(t[3], at, columns)
        if a is None:
            raise Undefined()
        return None if a > c else v
    if k == 'pow':
        v = evaluate(t[1], at, columns)
        return None if v is None else finite(lambda: float(v) ** t[2])
    if k == 'cmp':
        a, b = [evaluate(x, at, columns) for x in t[2:]]
        if a is None or b is None:
            return None
        tol = 1e-9 * max(size_of(x, at, columns) for x in t[2:])
        if t[2][0] in ('var', 'const') and t[3][0] in ('var', 'const'):
            tol = -1
        if abs(a - b) <= tol:
            raise Undefined()
        return float(COMPARE[t[1]](a, b))
    if k == 'not':
        a = evaluate(t[1], at, columns)
        return None if a is None else 1.0 - a
    if k == 'bool':
        a, b = [evaluate(x, at, columns) for x in t[2:]]
        return None if a is None or b is None else min(a, b) if t[1] == '&' else max(a, b)
    parts = []
    undefined = False
    for x in t[2:]:
        try:
            parts.append(evaluate(x, at, columns))
        except Undefined:
            undefined = True
    if undefined:
        raise Undefined()
    if any(p is None for p in parts):
        return None
    f = {'op': OPS, 'f1': FUNCS1, 'f2': FUNCS2}[k][t[1]]
    return finite(lambda: f(*parts))


def finite(f):
    try:
        v = f()
    except (ZeroDivisionError, ValueError, OverflowError):
        raise Undefined()
    if isinstance(v, complex) or v != v or abs(v) > 1e280:
        raise Undefined()
    return v


def size_of(t, at, columns):
    """The greatest intermediate value, which bounds the rounding."""
    out = [1.0]
    for x in t[1:]:
        if isinstance(x, list):
            out.append(size_of(x, at, columns))
    try:
        v = evaluate(t, at, columns)
        if v is not None:
            out.append(abs(v))
    except Undefined:
        pass
    return max(out)


def has_var(t):
    return t[0] == 'var' or any(has_var(x) for x in t[1:] if isinstance(x, list))


def numeric(t):
    """No part works on Python numbers alone, which have errors where arrays have missing values."""
    if t[0] in ('var', 'const', 'whole'):
        return True
    return all(numeric(x) for x in t[1:] if isinstance(x, list)) and has_data(t)


def has_data(t):
    return t[0] in ('var', 'whole') or any(has_data(x) for x in t[1:] if isinstance(x, list))


@st.composite
def cases(draw):
    nv = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(['ungridded', 'gridded']))
    case = dict(kind=kind, nv=nv, tree=draw(st.one_of(*[trees(nv).filter(has_var).filter(numeric)] * 5 + [conditions(nv)])))
    if kind == 'gridded':
        d = draw(gen.grid(max_n=3, bounds=True))
        n = int(np.prod([len(d['points'][x]) for x in d['dims']]))
    else:
        d = draw(gen.ungridded(max_n=8))
        n = len(d['pts'])
    case['data'] = d
    case['vals'] = draw(st.lists(st.lists(st.one_of(gen.fixed(-10, 10, 4), gen.fixed(-10, 10, 4), gen.fixed(0, 3), st.none()),
                                          min_size=n, max_size=n), min_size=nv, max_size=nv))
    if draw(st.integers(0, 3)) == 0:
        case['dtype'] = draw(st.sampled_from(['i4', 'i8']))
        case['vals'] = [[None if x is None else float(round(x)) for x in v] for v in case['vals']]
    case['files'] = draw(st.lists(st.integers(0, 1), min_size=nv, max_size=nv))
    case['sp'] = draw(st.sampled_from(['', ' ']))
    case['aliases'] = [draw(st.sampled_from([None, None, 'q%d' % i])) for i in range(nv)]
    case['out_var'] = draw(st.sampled_from([None, 'result', 'new_var']))
    case['units'] = draw(st.sampled_from(['1', 'kg m-2', 'K']))
    case['attributes'] = draw(st.dictionaries(st.sampled_from(['title', 'level', 'operating system']),
                                              st.sampled_from(['x', 'AIX 6.1', '6.1.00']), max_size=2))
    case['cli'] = draw(st.booleans())
    case['force_mask'] = draw(st.booleans())
    case['wild'] = draw(st.sampled_from([0, 0, 1, 2, 3, 3, 4]))
    return case


def make(case, i, name):
    if case['kind'] == 'gridded':
        g = case['data']
        shape = [len(g['points'][x]) for x in g['dims']]
        a = gen.to_ma(case['vals'][i], case['force_mask'], case.get('dtype') or float).reshape(shape)
        return gen.build_grid(g, var=name, long_name='about ' + name, data=a)
    from cis.time_util import cis_standard_time_unit
    out = gen.make(dict(case['data'], vals=case['vals'][i], force_mask=case['force_mask']), var=name, standard_name=None,
                   long_name='about ' + name)
    for c in out.coords():
        if c.standard_name == 'time':
            c.units = cis_standard_time_unit
    return out


def spelt(case, mine, names, aliases):
    """The variables as typed, some by wildcards."""
    wild = case.get('wild', 0)
    out = []
    both = wild == 3 and {'a', 'Beta_1'} <= set(names[i] for i in mine if aliases[i] == names[i])
    for i in mine:
        name = names[i]
        if both and name in ('a', 'Beta_1'):
            name = '*[a1]'
        elif wild and wild != 3 and (i + wild) % 2:
            # (names in files, and thus wildcards, need not be those of variables in expressions, nor do aliases)
            name = {'a': '[a]', 'Beta_1': ['Beta_?', 'B*'][wild % 2]}.get(name, name[:-1] + '?')
        if aliases[i] != names[i]:
            name += '=' + aliases[i]
        if name not in out:
            out.append(name)
    if wild == 4 and 0 in mine:
        out.insert(0, 'zz*')        # which matches nothing
    return out


def decide(case, ctx):
    case = enlarged(case)
    nv = case['nv']
    names = [NAMES[i][0] for i in range(nv)]
    aliases = [case['aliases'][i] or NAMES[i][1] or NAMES[i][0] for i in range(nv)]
    if case['kind'] == 'gridded':
        # (Iris does not save other characters in names)
        names = ['v_' + ''.join(c for c in n if c.isalnum()) if NAMES[i][1] else n for i, n in enumerate(names)]
    expr = text(case['tree'], aliases, case['sp'])
    ctx.tag(case['kind'], 'cli' if case['cli'] else 'api', case.get('dtype') or 'f8')
    objs = [make(case, i, names[i]) for i in range(nv)]
    used = list(range(nv))
    if case['cli']:
        folder = ctx.dir()
        groups, paths = [], []
        used = [i for f in (0, 1) for i in range(nv) if case['files'][i] == f]
        for f in (0, 1):
            mine = [i for i in range(nv) if case['files'][i] == f]
            if not mine:
                continue
            path = os.path.join(folder, 'f%d.nc' % f)
            with ctx.sut('writing the input'):
                (cli.listed([objs[i] for i in mine]) if len(mine) > 1 else objs[mine[0]]).save_data(path)
            paths.append(path)
            groups.append(','.join(spelt(case, mine, names, aliases)) + ':' + cli.escape(path))
        out = os.path.join(folder, 'out.nc')
        var = case['out_var']
        # (NetCDF attribute names have no spaces)
        attributes = dict((k.replace(' ', '_'), v) for k, v in case['attributes'].items())
        args = ['eval'] + groups + [expr, case['units'], '-o', (var + ':' if var else '') + out]
        if attributes:
            args += ['--attributes', ','.join('%s=%s' % kv for kv in sorted(attributes.items()))]
        before = [cli.stamp(p) for p in paths]
        with np.errstate(all='ignore'):
            res = cli.run(args)
        check([cli.stamp(p) for p in paths] == before, 'an input file was changed by %s', args)
        check(res.ok, 'the command %s failed: %r', args, res)
        import cis
        with ctx.sut('reading the output of %s' % args):
            got = cis.read_data(out, var or 'calculated_variable')
            misc = dict(got.attributes)
            if not got.is_gridded:
                misc.update(got.metadata.misc)
    else:
        from cis.evaluate import Calculator
        attributes = case['attributes']
        for o, a in zip(objs, aliases):
            o.alias = a
        copies = [np.ma.copy(o.data) for o in objs]
        with ctx.sut('evaluate(%r)' % expr), np.errstate(all='ignore'):
            got = Calculator().evaluate(objs, expr, case['out_var'], case['units'], dict(attributes) or None)
        misc = got.attributes
        for o, c in zip(objs, copies):
            check(gen.same(gen.filled(o.data), gen.filled(c)), 'evaluating %r changed %s', expr, o.var_name)
    check(got.var_name == (case['out_var'] or 'calculated_variable'), 'var_name %r', got.var_name)
    from cf_units import Unit
    check(Unit(str(got.units)) == Unit(case['units']), 'units %s instead of %s', got.units, case['units'])
    for k, v in attributes.items():
        check(misc.get(k) == v, 'attribute %s is %r, not %r', k, misc.get(k), v)
    history = str(got.history if not case['cli'] or case['kind'] != 'gridded' else got.attributes.get('history'))
    check(expr in history and all(names[i] in history for i in used), 'history %r of %r', history, expr)
    first = objs[used[0]]
    want_coords = {c.name() if first.is_gridded else c.standard_name: c.points for c in first.coords()}
    have_coords = {c.name() if got.is_gridded else c.standard_name: c.points for c in got.coords()}
    check(sorted(want_coords) == sorted(have_coords), 'coordinates %s instead of %s', sorted(have_coords), sorted(want_coords))
    for k in want_coords:
        check(gen.same(gen.filled(have_coords[k]).ravel(), gen.filled(want_coords[k]).ravel()), '%s is %s, not %s', k, have_coords[k],
              want_coords[k])
    values = np.ma.asarray(got.data)
    n = len(case['vals'][0])
    check(values.size == n and (values.shape == first.data.shape if first.is_gridded else values.ndim == 1), 'shape %s', values.shape)
    values = values.ravel()
    mask = np.ma.getmaskarray(values)
    missing = 0
    for j in range(n):
        at = [v[j] for v in case['vals']]
        try:
            want = evaluate(case['tree'], at, case['vals'])
        except Undefined:
            continue
        have = None if mask[j] else float(values.data[j])
        if want is None:
            missing += 1
            check(have is None, '%r is %r at point %d, where a variable is missing (%s)', expr, have, j, at)
        else:
            size = size_of(case['tree'], at, case['vals'])
            if case.get('dtype') and size > {'i4': 1e9, 'i8': 1e15}[case['dtype']]:
                continue        # out of the range of the type
            tol = 1e-9 * size
            if have is None and tol > 1e270:
                continue
            check(have is not None and abs(have - want) <= tol, '%r is %r, not %r, at point %d (%s)', expr, have, want, j, at)
    ctx.nontrivial(missing or len(set(values.compressed())) > 1)


@st.composite
def refused(draw):
    name = draw(st.sampled_from(['open(\'{0}\',\'w\')', '__import__(\'os\').system(\'touch {0}\')', 'a.__class__', 'a+eval(\'1\')',
                                 'exec(\'x=1\')', 'getattr(a,\'data\')', 'globals()', 'os.system(\'touch {0}\')', 'a+b', 'numpy.mean(a)',
                                 'a[:1]', 'a+', 'compile(\'1\',\'\',\'eval\')', 'input()', 'a if a else', 'vars()', 'a_+_b__c',
                                 'numpy.concatenate([a,a])', 'print(a)', '(1).__class__', 'a[numpy.newaxis]']))
    if draw(st.booleans()):
        # The result would be an array of the right shape
        if draw(st.booleans()):
            lines = st.sampled_from('___\ufe33\ufe34\ufe4d\ufe4e\ufe4f\uff3f')
            two = '_' + draw(lines)
            name = draw(st.sampled_from(['a.{u}class{v}', 'numpy.{u}builtins{v}', '(1).{u}class{v}', "''.{u}len{v}", 'a.{u}init{v}',
                                         'numpy.{u}dict{v}', 'abs.{u}self{v}', 'a.data.{u}array{v}',
                                         "numpy.{u}builtins{v}['o'+'pen']"])).format(u=two, v='_' + draw(lines))
        else:
            name = draw(st.sampled_from(['open', 'eval', 'exec', '__import__', 'getattr', 'globals', 'os', 'compile', 'input', 'vars',
                                         'print', 'str', 'type', 'object', 'setattr', 'sys', 'self', 'expr', 'data_list', 'locals']))
        name = draw(st.sampled_from(['a+({0} is not None)', 'a*1.0+(0 if {0} else 1)', 'a-bool({0})', 'a+len([{0}])'])).format(name)
    how = draw(st.integers(0, 3))
    if how == 0:
        # The right number of values, but not as the data have them
        name = draw(st.sampled_from(['a.reshape(-1,1)', 'a.reshape(1,-1)', 'a.reshape(-1,2)', 'numpy.outer(a,a)', 'a[:,numpy.newaxis]',
                                     'numpy.atleast_2d(a)', 'numpy.ma.reshape(a,(2,-1))', 'numpy.stack([a,a])', 'a.sum()']))
    elif how == 1:
        m, n = draw(st.sampled_from([(2, 3), (3, 2), (1, 4), (4, 1), (2, 4)]))
        name = draw(st.sampled_from(['a.T', 'a.transpose()', 'a.ravel()', 'a.flatten()', 'a.reshape(-1)', 'a[numpy.newaxis]', 'a.T*2',
                                     'a.reshape(a.shape[1],a.shape[0])', 'numpy.swapaxes(a,0,1)', 'a.reshape(2,-1,1)',
                                     'numpy.ma.transpose(a)', 'a[:1,:]*1' if m > 1 else 'a[:,:1]', 'a.compressed()']))
        return dict(expr=name, n=m * n, grid=[m, n], cli=draw(st.booleans()), how='expr', bad='x')
    return dict(expr=name, n=draw(st.sampled_from([2, 3, 4, 4])), cli=draw(st.booleans()), how=draw(st.sampled_from(['expr', 'expr', 'attributes',
                                                                                                      'alias', 'clash'])),
                bad=draw(st.sampled_from(['x', 'x=', '=x', 'a=b=c', ','])))


def decide_refused(case, ctx):
    from cis.evaluate import Calculator
    folder = ctx.dir()
    flag = os.path.join(folder, 'touched')
    d = dict(coords=['latitude', 'longitude'], pts=[[float(i), 2. * i] for i in range(case['n'])],
             vals=[float(i) for i in range(case['n'])], force_mask=False)
    expr = case['expr'].format(flag)
    grid = None
    if case.get('grid'):
        m, n = case['grid']
        grid = gen.build_grid(dict(dims=['latitude', 'longitude'], points={'latitude': [10. * i for i in range(m)], 'longitude': [
            10. * i for i in range(n)]}, bounds={}, circular=False, seed=n, missing=[1] if n > 2 else []), var='a')
        ctx.tag('gridded')
    ctx.tag(case['how'])
    ctx.nontrivial()
    if case['how'] == 'expr' and not case['cli']:
        obj = grid if grid is not None else gen.make(d, var='a', standard_name=None)
        obj.alias = 'a'
        try:
            res = Calculator().evaluate([obj], expr)
        except Exception:
            res = None
        check(res is None, '%r gave %r', expr, res)
    else:
        path, out = os.path.join(folder, 'in.nc'), os.path.join(folder, 'out.nc')
        (grid if grid is not None else gen.make(d, var='a', standard_name=None)).save_data(path)
        args = ['eval', 'a:' + path, expr if case['how'] == 'expr' else 'a', '1', '-o', out]
        if case['how'] == 'attributes':
            args += ['-a', case['bad']]
        elif case['how'] == 'alias':
            args[1] = {'x': 'a=b=c:', 'x=': 'a=:', '=x': '=a:', 'a=b=c': 'a==b:', ',': 'a=x=:'}[case['bad']] + path
        elif case['how'] == 'clash':
            args[1:2] = ['a:' + path, 'a:' + path]
        res = cli.run(args)
        check(not res.ok, 'the command %s succeeded', args)
        check(not os.path.exists(out), 'the command %s wrote a file', args)
    check(not os.path.exists(flag), '%r had an effect', expr)


@st.composite
def many(draw):
    case = draw(cases().filter(lambda c: c['kind'] == 'ungridded'))
    return dict(case, more=[draw(st.integers(30, 1500)), draw(st.integers(0, 10 ** 6))])


def enlarged(case):
    """The case with more points, of the values it has."""
    if not case.get('more'):
        return case
    n, seed = case['more']
    rng = np.random.RandomState(seed)
    old = len(case['data']['pts'])
    return dict(case, data=dict(case['data'], pts=[case['data']['pts'][i] for i in rng.randint(0, old, n)], vals=[None] * n, shape=None),
                vals=[[v[i] for i in rng.randint(0, old, n)] for v in case['vals']])


SUBS = [Sub('evaluate', cases(), decide, quick=900, thorough=20000),
        Sub('many_points', many(), decide, quick=100, thorough=3000),
        Sub('refused', refused(), decide_refused, quick=400, thorough=4000)]
