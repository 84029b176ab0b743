"""The stats command against statistics worked out from the definitions."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from vf import gen, cli
from vf.core import Sub, check

PROPERTY = dict(
    title='Statistics of two variables follow their definitions over shared points',
    statement="""Comparing two variables of the same size, gridded or ungridded and of any number type, gives the number of points
    non-missing in both and, over exactly those points, each variable's mean and corrected standard deviation, those of the difference
    second minus first and of its ratio to the first, the rank correlation with ties averaged, and the gradient, intercept, r-value and
    standard error of the regression of the second on the first. The printed values and the output file agree with
    them, and neither the data nor the input files are changed. Variables of different sizes, or other than two variables, are
    refused.""",
    text='all pairs of data sets, missing values, shapes and number types',
    why="""The tests use a handful of points, without ties, small integers or differing missing values.""",
    files=['cis/stats.py', 'cis/cis_main.py', 'cis/utils.py'],
    mechanism=[('StatsAnalyzer', 'cis/stats.py'), ('stats_cmd', 'cis/cis_main.py'),
               ('apply_intersection_mask_to_two_arrays', 'cis/utils.py')],
    observe=['cis stats', 'cis.stats.StatsAnalyzer'],
    note="""Hypothesis pairs of variables against sums written from the definitions.""")

RULE = ('A case is two variables and how they are given. Non-trivial: the variables share at least three points, neither is constant '
        'there, and a value is missing from one of them only or the values have ties.')

KINDS = ['f8', 'f8', 'f4', 'i4', 'i2', 'u1', 'i1', 'i8']
RANGE = {'u1': (0, 255), 'i1': (-128, 127), 'i2': (-32768, 32767), 'i4': (-2 ** 31, 2 ** 31 - 1), 'i8': (-2 ** 40, 2 ** 40)}
NAMES = ['num_points', 'dataset_mean_1', 'dataset_mean_2', 'dataset_stddev_1', 'dataset_stddev_2', 'abs_mean', 'abs_stddev', 'rel_mean',
         'rel_stddev', 'spearman', 'regression_gradient', 'regression_intercept', 'regression_r', 'regression_stderr']
PRINTED = ['Number of points', 'Mean value of dataset 1', 'Mean value of dataset 2', 'Standard deviation for dataset 1',
           'Standard deviation for dataset 2', 'Mean of absolute difference', 'Standard deviation of absolute difference',
           'Mean of relative difference', 'Standard deviation of relative difference', "Spearman's rank coefficient",
           'Linear regression gradient', 'Linear regression intercept', 'Linear regression r-value', 'Linear regression standard error']


@st.composite
def columns(draw, n, kind):
    if kind[0] == 'f':
        value = st.one_of(gen.fixed(-20, 20, 4), gen.fixed(-2000, 2000, 8), gen.fixed(1, 4))
    else:
        lo, hi = RANGE[kind]
        # (the ends of the range stand for missing values in files)
        value = st.one_of(st.integers(max(lo + 2, -5), 5), st.integers(lo + 2, hi - 2), st.sampled_from([lo + 2, hi - 2]))
    none = draw(st.sampled_from([0, 0, 1, 3]))
    # (a spread which is small compared with the values)
    far = draw(st.sampled_from([0, 0, 0, 2. ** 27, -3 * 2. ** 24])) if kind == 'f8' else 0
    vals = draw(st.lists(st.one_of([value] * 6 + [st.none()] * none), min_size=n, max_size=n))
    return [v if v is None else v + far for v in vals]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['ungridded', 'gridded']))
    if kind == 'gridded':
        d = draw(gen.grid(max_n=4))
        n = int(np.prod([len(d['points'][x]) for x in d['dims']]))
    else:
        d = draw(gen.ungridded(min_n=1, max_n=20))
        n = len(d['pts'])
    types = [draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS))]
    return dict(kind=kind, data=d, types=types, vals=[draw(columns(n, t)) for t in types], how=draw(st.sampled_from(
        ['api', 'api', 'one file', 'two files'])), save=draw(st.booleans()), ext=draw(st.booleans()), force_mask=draw(st.booleans()),
        flat=draw(st.integers(0, 5)) == 0, same=draw(st.booleans()))


@st.composite
def many(draw):
    case = draw(cases().filter(lambda c: c['kind'] == 'ungridded'))
    return dict(case, more=[draw(st.integers(50, 3000)), draw(st.integers(0, 10 ** 6))])


def enlarged(case):
    """The case with more points, of the values it has and others."""
    if not case.get('more'):
        return case
    n, seed = case['more']
    rng = np.random.RandomState(seed)
    pts = [case['data']['pts'][i] for i in rng.randint(0, len(case['data']['pts']), n)]
    vals = []
    for v, t in zip(case['vals'], case['types']):
        new = [float(i) / 4 if t[0] == 'f' else int(i) for i in rng.randint(1, 100, n)]
        old = rng.randint(0, len(v), n)
        vals.append([v[j] if rng.rand() < 0.3 else x for x, j in zip(new, old)])
    return dict(case, data=dict(case['data'], pts=pts, vals=vals[0], shape=None), vals=vals)


def make(case, i, name):
    if case['kind'] == 'gridded':
        g = case['data']
        shape = [len(g['points'][x]) for x in g['dims']]
        a = gen.to_ma([None if v is None else float(v) for v in case['vals'][i]], case['force_mask']).reshape(shape)
        out = gen.build_grid(g, var=name, long_name='about ' + name, data=a)
        out.data = out.data.astype(case['types'][i])
        return out
    out = gen.make(dict(case['data'], vals=[None if v is None else float(v) for v in case['vals'][i]], force_mask=case['force_mask'],
                        shape=None if case['flat'] and i else case['data'].get('shape')), var=name, standard_name=None,
                   long_name='about ' + name)
    out.data = out.data.astype(case['types'][i])
    out.metadata.units = '1'
    return out


def ranks(v):
    order = sorted(range(len(v)), key=lambda i: v[i])
    out = [0.] * len(v)
    i = 0
    while i < len(order):
        j = i
        while j + 1 < len(order) and v[order[j + 1]] == v[order[i]]:
            j += 1
        for k in range(i, j + 1):
            out[order[k]] = (i + j) / 2. + 1
        i = j + 1
    return out


def mean(v):
    return math.fsum(v) / len(v)


def products(x, y):
    a, b = mean(x), mean(y)
    return math.fsum((p - a) * (q - b) for p, q in zip(x, y))


def std(v):
    return math.sqrt(products(v, v) / (len(v) - 1)) if len(v) > 1 else None


def statistics(x, y):
    """The statistics as in NAMES; None for what is not defined."""
    n = len(x)
    out = [n]
    if not n:
        return out + [None] * 13
    diff = [b - a for a, b in zip(x, y)]
    rel = [d / a for d, a in zip(diff, x)] if all(x) else None
    out += [mean(x), mean(y), std(x), std(y), mean(diff), std(diff), mean(rel) if rel else None, std(rel) if rel else None]
    if n < 3 or min(x) == max(x) or min(y) == max(y):
        return out + [None] * 5
    rx, ry = ranks(x), ranks(y)
    out.append(products(rx, ry) / math.sqrt(products(rx, rx) * products(ry, ry)))
    sxx, sxy, syy = products(x, x), products(x, y), products(y, y)
    grad = sxy / sxx
    r = sxy / math.sqrt(sxx * syy)
    return out + [grad, mean(y) - grad * mean(x), r, math.sqrt(max(0, (1 - r * r)) * syy / sxx / (n - 2))]


def decide(case, ctx):
    from cis.stats import StatsAnalyzer
    case = enlarged(case)
    # (variables of the same name can only be in different files)
    names = ['same', 'same'] if case['same'] and (case['how'] != 'one file' or case['flat']) else ['first', 'second']
    objs = [make(case, i, n) for i, n in enumerate(names)]
    both = [(float(a), float(b)) for a, b in zip(*case['vals']) if a is not None and b is not None]
    x, y = [p[0] for p in both], [p[1] for p in both]
    if 'f4' in case['types']:
        x, y = [[float(np.dtype(t).type(v)) for v in c] for t, c in zip(case['types'], (x, y))]
    want = statistics(x, y)
    degenerate = len(x) < 3 or min(x) == max(x) or min(y) == max(y)
    single = [np.dtype(t) == np.float32 for t in case['types']]
    ctx.tag(case['kind'], case['how'], *case['types'])
    copies = [np.ma.copy(o.data) for o in objs]
    if case['how'] == 'api':
        if degenerate:
            got = []
            with ctx.sut('the counts, means and deviations'), np.errstate(all='ignore'):
                a = StatsAnalyzer(*objs)
                for f in (a.points_count, a.means, a.stddevs, a.abs_mean, a.abs_stddev):
                    got.extend(f())
        else:
            with ctx.sut('analyze()'), np.errstate(all='ignore'):
                got = StatsAnalyzer(*objs).analyze()
        cubes = [g.as_cube() for g in got]
        check([c.var_name for c in cubes] == NAMES[:len(cubes)], 'statistics %s', [c.var_name for c in cubes])
        values = [c.data.ravel() for c in cubes]
        for w, v, name in zip(want, values, NAMES):
            compare(w, v, name, x, y, single)
        for o, c in zip(objs, copies):
            check(gen.same(gen.filled(o.data), gen.filled(c)) and o.data.dtype == c.dtype, 'analyzing changed %s', o.var_name)
    else:
        if degenerate:
            # (regression is not defined)
            ctx.nontrivial(False)
            return
        folder = ctx.dir()
        paths = [os.path.join(folder, 'a.nc'), os.path.join(folder, 'b.nc')]
        with ctx.sut('writing the input'):
            if case['how'] == 'one file' and not case['flat']:
                paths = paths[:1]
                cli.listed(objs).save_data(paths[0])
                groups = ['%s,%s:' % tuple(names) + cli.escape(paths[0])]
            else:
                for o, p in zip(objs, paths):
                    o.save_data(p)
                groups = [n + ':' + cli.escape(p) for n, p in zip(names, paths)]
        out = os.path.join(folder, 'out')
        args = ['stats'] + groups + (['-o', out + ('.nc' if case['ext'] else '')] if case['save'] else [])
        before = [cli.stamp(p) for p in paths]
        with np.errstate(all='ignore'):
            res = cli.run(args)
        check([cli.stamp(p) for p in paths] == before, 'an input file was changed by %s', args)
        check(res.ok, 'the command %s failed: %r', args, res)
        for w, label, name in zip(want, PRINTED, NAMES):
            line = [l for l in res.out.splitlines() if l.startswith(label + ':')]
            check(len(line) == 1, '%s printed in %s', label, res.out)
            text = line[0][len(label) + 1:].strip()
            if w is None:
                continue
            number = re.match(r'[-+0-9.einfa]+$', text)
            check(number, '%s is printed as %r', label, text)
            compare(w, np.array([float(text)]), name, x, y, single)
        check(os.path.exists(out + '.nc') == case['save'], 'output file %s', args)
        if case['save']:
            import netCDF4
            with netCDF4.Dataset(out + '.nc') as nc:
                for w, name in zip(want, NAMES):
                    check(name in nc.variables, 'no %s in the output, but %s', name, list(nc.variables))
                    compare(w, np.ma.ravel(nc.variables[name][...]), name, x, y, single)
                check(names[0] in nc.variables['dataset_mean_1'].long_name and names[1] in nc.variables['dataset_mean_2'].long_name,
                      'long names %s, %s', nc.variables['dataset_mean_1'].long_name, nc.variables['dataset_mean_2'].long_name)
    some = [(a is None) != (b is None) for a, b in zip(*case['vals'])]
    ctx.nontrivial(not degenerate and (any(some) or len(set(x)) < len(x) or len(set(y)) < len(y)))


def compare(want, values, name, x, y, single):
    if want is None:
        return
    check(values.size == 1, '%s has the shape %s', name, values.shape)
    check(not np.ma.is_masked(values), '%s is missing, not %r (%s, %s)', name, want, x, y)
    have = float(values[0])
    # The rounding of sums of values of this size
    eps = 3e-5 if any(single) else 1e-9
    top = {'num_points': 0, 'spearman': 1, 'regression_r': 1, 'dataset_mean_1': big(x), 'dataset_stddev_1': big(x),
           'dataset_mean_2': big(y), 'dataset_stddev_2': big(y), 'abs_mean': big(x) + big(y), 'abs_stddev': big(x) + big(y)}.get(name)
    if top is None and name.startswith('rel'):
        top = max(abs(b - a) / abs(a) for a, b in zip(x, y)) + max((abs(a) + abs(b)) / abs(a) for a, b in zip(x, y))
    if top is None or name in ('regression_r',):
        sx, sy = std(x), std(y)
        ratio = big(x) / sx + big(y) / sy
        if ratio > 1e4:
            return               # too ill-conditioned to say
        eps *= ratio ** 2
        top = {'regression_r': 1, 'regression_gradient': sy / sx, 'regression_stderr': sy / sx,
               'regression_intercept': big(y) + sy / sx * big(x)}[name]
        if name == 'regression_stderr':
            # sqrt(1 - r*r) near one
            eps = math.sqrt(eps)
    check(abs(have - want) <= eps * top + eps * abs(want) * (name != 'num_points'), '%s is %r, not %r (%s, %s)', name, have, want, x, y)


def big(v):
    return max([abs(a) for a in v] or [0])


@st.composite
def refused(draw):
    return dict(how=draw(st.sampled_from(['sizes', 'sizes', 'sizes cli', 'one', 'three', 'mixed'])), n=draw(st.integers(1, 5)),
                m=draw(st.integers(1, 5)), save=draw(st.booleans()))


def decide_refused(case, ctx):
    from cis.stats import StatsAnalyzer

    def points(n, name):
        d = dict(coords=['latitude', 'longitude'], pts=[[float(i), 2. * i] for i in range(n)],
                 vals=[float(i * i % 7) for i in range(n)], force_mask=False)
        return gen.make(d, var=name, standard_name=None)
    ctx.tag(case['how'])
    n, m = case['n'], case['m'] + (case['m'] >= case['n'])
    ctx.nontrivial()
    if case['how'] == 'sizes':
        try:
            res = StatsAnalyzer(points(n, 'a'), points(m, 'b')).analyze()
        except Exception:
            res = None
        check(res is None, 'data of %d and %d points were compared', n, m)
        return
    folder = ctx.dir()
    path, out, other = os.path.join(folder, 'in.nc'), os.path.join(folder, 'out.nc'), os.path.join(folder, 'other.nc')
    cli.listed([points(n + 3, v) for v in 'abc']).save_data(path)
    points(m + 3, 'd').save_data(other)
    args = {'sizes cli': ['a:' + path, 'd:' + other], 'one': ['a:' + path], 'three': ['a,b,c:' + path],
            'mixed': ['a:' + path, 'b,c:' + path]}[case['how']]
    args = ['stats'] + args + (['-o', out] if case['save'] else [])
    res = cli.run(args)
    check(not res.ok, 'the command %s succeeded', args)
    check(not os.path.exists(out), 'the command %s wrote a file', args)


SUBS = [Sub('many_points', many(), decide, quick=150, thorough=4000),
        Sub('stats', cases(), decide, quick=900, thorough=20000),
        Sub('refused', refused(), decide_refused, quick=60, thorough=150)]
