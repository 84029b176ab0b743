"""What a command line says: taken as written, or refused."""
import datetime as dt
import os
import re

import numpy as np
from hypothesis import strategies as st

from vf import cli, gen
from vf.checks.C22 import offline
from vf.core import Sub, check

PROPERTY = dict(
    title='A command line is taken as it is written, or refused',
    statement="""Each variable, file, option, limit and step of a command takes effect with exactly the value written, whatever the order of
    the options, with colons escaped in names, brackets, commas and equals signs in values, and names of options and outputs as documented; what is
    not given is not set. A command of which a part cannot be taken as documented - an unknown command, option, product, kernel, collocator, colour or
    kind of plot, a value which is not a number, a date, a step, a list, or true or false, a range which is incomplete or has something left
    over, or something given twice or without a value - is refused with a message, and makes or changes no file.""",
    text='all commands, options, their values and orders, and ways of getting them wrong',
    why="""The tests parse single well-formed commands with one option each, and a handful of malformed ones.""",
    files=['cis/parse.py', 'cis/parse_datetime.py', 'cis/cis_main.py', 'cis/utils.py'],
    mechanism=[('parse_colon_and_comma_separated_arguments', 'cis/parse.py'), ('get_subset_limits', 'cis/parse.py'),
               ('get_aggregate_grid', 'cis/parse.py'), ('parse_args', 'cis/parse.py'), ('_parse_datetime_delta', 'cis/parse_datetime.py'),
               ('split_into_float_and_units', 'cis/utils.py')],
    observe=['cis plot, info, subset, aggregate, collapse, collocate, eval, stats; cis.parse.parse_args'],
    note="""Hypothesis commands made from what they should mean, and commands which work with one part broken.""")

RULE = ('A case is a command. Non-trivial: it has two or more options, or it is a command which works and of which one part was then broken.')

FILES = ['a.nc', 'b.nc', 'c d.nc', 'e:1.nc', 'f=2.nc', 'g(3).nc']
VARIABLES = ['rain', 'my:var', 'x_1', 'AOT_550', 'temp*', 'T-2m', 'o3.total']
PRODUCTS = ['cis', 'NetCDF_Gridded', 'Aerosol_CCI_L2', 'MODIS_L3', 'Caliop_L2', 'HadGEM_PP', 'ASCII_Hyperpoints']
KERNELS = ['sum', 'mean', 'min', 'max', 'moments', 'median', 'stddev']
LABELS = ['a (b [c (d, e)], f)', '[(x), (y, [z, (w)])] t', 'my data', 'a=b', 'x (1, 2)', '50%', 'T [K, C]', 'to: 1', 'w==', 'product=cis'.replace('product', 'prod'), '-', 'label', "it's", 'x^2/y']
COLOURS = ['red', 'Blue', 'grey', 'GREEN', 'lightgoldenrodyellow']
TYPES = ['contour', 'contourf', 'heatmap', 'line', 'scatter', 'scatter2d', 'comparativescatter', 'histogram', 'histogram2d', 'taylor']
NUMBER = st.tuples(st.integers(-4000, 4000).map(lambda i: i / 8.), st.integers(0, 3)).map(list)
NATURAL = st.integers(0, 30)

# The options of a datagroup of a plot, and how their values are made
LAYER = {'color': st.sampled_from(COLOURS), 'edgecolor': st.sampled_from(COLOURS), 'itemstyle': st.sampled_from(['x', 'o', '--', '+']),
         'itemwidth': NUMBER, 'label': st.sampled_from(LABELS), 'product': st.sampled_from(PRODUCTS), 'type': st.sampled_from(TYPES),
         'alpha': NUMBER, 'cmap': st.sampled_from(['RdBu', 'jet']), 'vmin': NUMBER, 'vmax': NUMBER, 'vstep': NUMBER,
         'contnlevels': st.integers(1, 30), 'contlevels': st.lists(NUMBER, min_size=1, max_size=4),
         'contlabel': st.sampled_from(['true', 'False', 'TRUE']), 'contwidth': st.integers(1, 9), 'cbarscale': NUMBER,
         'cbarorient': st.sampled_from(['vertical', 'horizontal']), 'colourbar': st.sampled_from(['true', 'false', 'False']),
         'cbarlabel': st.sampled_from(LABELS)}
LAYER_NUMBERS = ['itemwidth', 'alpha', 'vmin', 'vmax', 'vstep', 'cbarscale']
# The options of the plot as a whole
PLOT = {'type': st.sampled_from(TYPES), 'xlabel': st.sampled_from(LABELS[:6] + LABELS[10:]), 'title': st.sampled_from(LABELS[:4]), 'fontsize': NUMBER, 'width': NUMBER, 'height': NUMBER, 'xmin': NUMBER,
        'xmax': NUMBER, 'xstep': NUMBER, 'ymin': NUMBER, 'ymax': NUMBER, 'ystep': NUMBER, 'vmin': NUMBER, 'vmax': NUMBER, 'vstep': NUMBER,
        'xbins': NATURAL, 'ybins': NATURAL, 'cbarorient': st.sampled_from(['vertical', 'horizontal']), 'logx': None, 'logy': None,
        'logv': None, 'grid': None, 'nocolourbar': None, 'xaxis': st.sampled_from(['time', 'longitude']), 'yaxis': st.sampled_from(['rain', 'y']),
        'cbarlabel': st.sampled_from(LABELS[:3]), 'cbarscale': NUMBER, 'nasabluemarble': None, 'coastlinescolour': st.sampled_from(['red', 'grey']),
        'solid': None, 'fold': None, 'extend': NUMBER, 'gammamax': NUMBER, 'stdbiasmax': NUMBER, 'bias': st.sampled_from(['color', 'size'])}
METHODS = {'collocator': (['box', 'bin', 'lin', 'nn'], {'h_sep': ['10km', '500m', '3.5e2'], 'a_sep': ['1km', '20'], 'p_sep': ['1.5'],
                                                        't_sep': ['P1DT5M', 'PT30S'], 'fill_value': ['-9999', '0.5'],
                                                        'missing_data_for_missing_sample': ['True', 'false'], 'extrapolate': [True]}),
           'kernel': (['mean', 'moments', 'nn_h', 'max'], {'stddev_name': ['s', 'a b'], 'nopoints_name': ['n']})}
UNITS = ['seconds', 'minutes', 'hours', 'days', 'months', 'years']


@st.composite
def dates(draw):
    """A date with some of its parts, and how it is written."""
    parts = [draw(st.integers(1990, 2015)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)),
             draw(st.integers(0, 59)), draw(st.integers(0, 59))][:draw(st.sampled_from([2, 3, 5, 6]))]
    return dict(date=parts, sep=draw(st.sampled_from('T :')))


@st.composite
def commands(draw):
    command = draw(st.sampled_from(['plot', 'plot', 'info', 'subset', 'sub', 'aggregate', 'agg', 'collapse', 'collocate', 'col', 'eval', 'stats']))
    case = dict(command=command, groups=[], flags=[], output=None)
    count = {'plot': 3, 'collocate': 3, 'col': 3, 'eval': 3, 'stats': 2}.get(command, 1)
    for _ in range(draw(st.integers(1, count))):
        g = dict(vars=draw(st.lists(st.sampled_from(VARIABLES), min_size=1, max_size=1 if command == 'plot' else 3, unique=True)),
                 files=draw(st.lists(st.sampled_from(FILES), min_size=1, max_size=3, unique=True)), opts=[], bare=draw(st.booleans()),
                 blanks=draw(st.integers(0, 9)) == 0)
        if command == 'plot':
            names = draw(st.lists(st.sampled_from(sorted(LAYER)), max_size=6, unique=True))
            g['opts'] = [[n, draw(LAYER[n])] for n in names]
        elif command in ('aggregate', 'agg', 'collapse'):
            names = draw(st.lists(st.sampled_from(['product', 'kernel']), max_size=2, unique=True))
            g['opts'] = [[n, draw(st.sampled_from(PRODUCTS if n == 'product' else KERNELS))] for n in names]
        elif draw(st.booleans()):
            g['opts'] = [['product', draw(st.sampled_from(PRODUCTS))]]
        if command == 'eval':
            g['aliases'] = [draw(st.sampled_from([None, None, 'a%d' % i, 'b_%d' % i])) for i in range(len(g['vars']))]
        case['groups'].append(g)
    if command == 'stats':
        case['groups'] = case['groups'][:1]
        case['groups'][0]['vars'] = ['rain', 'my:var']
    if command == 'info':
        case['no_variables'] = draw(st.integers(0, 3)) == 0
        if case['no_variables']:
            case['groups'][0]['opts'] = []
    if command == 'eval':
        # names have to be different
        for i, g in enumerate(case['groups']):
            g['aliases'] = [(a or 'c') + '_%d' % i if a or i else a for a in g['aliases']]
            if len(set(g['aliases'])) < len(g['aliases']):
                g['aliases'] = ['z%d_%d' % (i, k) for k in range(len(g['aliases']))]
        case['expr'] = draw(st.sampled_from(['a + b', 'numpy.sqrt(a)', 'a[1:, :]', 'x == y']))
        case['units'] = draw(st.sampled_from(['1', 'kg m-2', '']))
        case['attributes'] = draw(st.lists(st.tuples(st.sampled_from(['note', 'my_name', 'x']), st.sampled_from(['1', 'some text', 'a:b'])).map(list),
                                           max_size=3, unique_by=lambda a: a[0]))
    if command in ('subset', 'sub'):
        names = draw(st.lists(st.sampled_from(['x', 'X', 'y', 'z', 't', 'time', 'latitude', 'shapes', 'level_1', 'shape']), min_size=1, max_size=3,
                              unique_by=lambda n: n.lower()[0]))
        case['limits'] = []
        for n in names:
            if n == 'shape':
                case['limits'].append([n, 'POLYGON ((0 0, 10 0, 5 5.5, 0 0))'])
            elif n.lower() in ('t', 'time'):
                a, b = sorted([draw(dates()), draw(dates())], key=lambda d: d['date'] + [0] * 6)
                case['limits'].append([n, [a, b][:draw(st.integers(1, 2))]])
            elif draw(st.integers(0, 3)) == 0 and n not in 'xXyz':
                case['limits'].append([n, [draw(dates()), draw(dates())]])
            else:
                a, b = sorted([draw(NUMBER), draw(NUMBER)])
                if n in 'xX':
                    b = [a[0] + min(b[0] - a[0], 360.), b[1]]
                case['limits'].append([n, [a, b][:draw(st.integers(1, 2))]])
    if command in ('aggregate', 'agg'):
        case['grid'] = []
        for n in draw(st.lists(st.sampled_from(['x', 'y', 'z', 't', 'latitude', 'level_1']), min_size=1, max_size=3, unique=True)):
            if draw(st.integers(0, 4)) == 0:
                case['grid'].append([n, None])
            elif n == 't' or draw(st.integers(0, 5)) == 0 and n != 'x':
                step = draw(st.lists(st.tuples(st.integers(1, 40), st.sampled_from(UNITS)).map(list), min_size=1, max_size=4, unique_by=lambda u: u[1]))
                case['grid'].append([n, [draw(dates()), draw(dates()), dict(step=step)]])
            else:
                a, b = sorted([draw(NUMBER), draw(NUMBER)])
                if n == 'x':
                    b = [a[0] + min(b[0] - a[0], 360.), b[1]]
                case['grid'].append([n, [a, b, draw(NUMBER)]])
    if command == 'collapse':
        case['dims'] = draw(st.lists(st.sampled_from(['x', 'y', 't', 'latitude', 'my_dim']), min_size=1, max_size=3, unique=True))
        case['commas'] = draw(st.booleans())
    if command in ('collocate', 'col'):
        s = dict(files=draw(st.lists(st.sampled_from(FILES), min_size=1, max_size=2, unique=True)), opts=[])
        for n in draw(st.lists(st.sampled_from(['variable', 'collocator', 'kernel', 'product']), max_size=4, unique=True)):
            if n == 'variable':
                s['opts'].append([n, draw(st.sampled_from(['rain', 'x_1', 'my:var']))])
            elif n == 'product':
                s['opts'].append([n, draw(st.sampled_from(PRODUCTS))])
            else:
                args = draw(st.lists(st.sampled_from(sorted(METHODS[n][1])), max_size=4, unique=True))
                s['opts'].append([n, [draw(st.sampled_from(METHODS[n][0])), [[a, draw(st.sampled_from(METHODS[n][1][a]))] for a in args]]])
        case['sample'] = s
    if command == 'plot':
        names = draw(st.lists(st.sampled_from(sorted(PLOT)), max_size=8, unique=True))
        case['flags'] = [[n, None if PLOT[n] is None else draw(PLOT[n])] for n in names]
        dated = draw(st.integers(0, 3))
        for f in case['flags']:
            if f[0] in ('xmin', 'xmax', 'ymin', 'ymax') and dated == 0:
                f[1] = draw(dates())
            if f[0] in ('xstep', 'ystep') and dated == 0:
                f[1] = dict(step=[[draw(st.integers(1, 9)), draw(st.sampled_from(UNITS))]])
    if command != 'info' and draw(st.booleans()):
        case['output'] = [draw(st.sampled_from(['result', 'result.nc', 'my result', 'sub/res.png', 'sub/res', 'v1.2/res', 'v1.2/res.x.nc', './res', 'v1.2/../res'])),
                          draw(st.sampled_from([None, 'new_var'])) if command in ('eval', 'plot') else None, draw(st.booleans())]
    case['globals'] = [[draw(st.sampled_from(['--force-overwrite', '-v', '-vv', '-q'])), draw(st.booleans())] for _ in range(draw(st.integers(0, 1)))]
    case['front'] = draw(st.booleans()) and command not in ()
    return case


# --- Writing commands ------------------------------------------------------------------------------------------------

def text(v):
    """A value as it is typed."""
    if isinstance(v, dict) and 'date' in v:
        d = v['date']
        out = '-'.join(['%04d' % d[0]] + ['%02d' % x for x in d[1:3]])
        return out + (v['sep'] + ':'.join('%02d' % x for x in d[3:]) if len(d) > 3 else '')
    if isinstance(v, dict):
        given = {u: n for n, u in v['step']}
        day = ''.join('%d%s' % (given[u], u[0].upper()) for u in ('years', 'months', 'days') if u in given)
        time = ''.join('%d%s' % (given[u], u[0].upper()) for u in ('hours', 'minutes', 'seconds') if u in given)
        return 'P' + day + ('T' + time if time else '')
    if isinstance(v, list) and len(v) == 2 and isinstance(v[0], float):
        return cli.number(*v)
    return str(v)


def method(v):
    name, args = v
    return name + ('[%s]' % ','.join(a if b is True else '%s=%s' % (a, b) for a, b in args) if args else '')


def option(n, v):
    if n == 'contlevels':
        return 'contlevels=[%s]' % ','.join(text(x) for x in v)
    if n in ('collocator', 'kernel') and isinstance(v, list):
        return '%s=%s' % (n, method(v))
    return '%s=%s' % (n, text(v))


def group(g, lone=False):
    names = [v + ('=' + a if a else '') for v, a in zip(g['vars'], g.get('aliases') or [None] * len(g['vars']))]
    out = cli.escape((',,,' if g.get('blanks') and len(names) > 1 else ',').join(names)) + ':' + cli.escape(','.join(g['files']))
    if g['opts']:
        opts = [option(n, v) for n, v in g['opts']]
        if lone and g['bare']:
            opts = [str(g['opts'][0][1])]
        out += ':' + cli.escape(','.join(opts))
    return out


def written(case):
    """The arguments of the command."""
    command = case['command']
    groups = [group(g, command in ('info', 'subset', 'sub', 'eval', 'stats', 'collocate', 'col')) for g in case['groups']]
    if case.get('no_variables'):
        groups = [cli.escape(','.join(case['groups'][0]['files']))]
    body = list(groups)
    if 'limits' in case:
        body.append(','.join('%s=%s' % (n, v if n == 'shape' else '[%s]' % ','.join(text(x) for x in v)) for n, v in case['limits']))
    if 'grid' in case:
        body.append(','.join(n + ('' if v is None else '=[%s]' % ','.join(text(x) for x in v)) for n, v in case['grid']))
    if 'dims' in case:
        body += [','.join(case['dims'])] if case['commas'] else case['dims']
    if 'sample' in case:
        s = case['sample']
        body.append(cli.escape(','.join(s['files'])) + (':' + cli.escape(','.join(option(n, v) for n, v in s['opts'])) if s['opts'] else ''))
    if 'expr' in case:
        body += [case['expr'], case['units']]
    flags = []
    for n, v in case['flags']:
        # (a value which starts like an option has to be joined to its own, and any may be)
        flags += ['--' + n] if v is None else ['--%s=%s' % (n, text(v))] if text(v)[:1] == '-' or len(n) % 2 else ['--' + n, text(v)]
    if case['output']:
        name, var, long = case['output']
        flags += ['--output' if long else '-o', (var + ':' if var else '') + name]
    if case.get('attributes'):
        flags += ['-a', ','.join('%s=%s' % (k, v) for k, v in case['attributes'])]
    before = [g for g, first in case['globals'] if first]
    after = [g for g, first in case['globals'] if not first]
    return before + [command] + (flags + after + body if case['front'] else body + flags + after)


# --- What they mean --------------------------------------------------------------------------------------------------

def moment(v, latest=False):
    d = v['date']
    if not latest:
        return dt.datetime(*(d + [1] * (3 - len(d))))
    full = d + [12, None, 23, 59, 59][len(d) - 1:]
    if full[2] is None:
        first = dt.datetime(full[0] + full[1] // 12, full[1] % 12 + 1, 1)
        full[2] = (first - dt.timedelta(days=1)).day
    return dt.datetime(*full)


def value(v, latest=False):
    if isinstance(v, dict) and 'date' in v:
        return moment(v, latest)
    if isinstance(v, dict):
        s = {u: n for n, u in v['step']}
        return dt.timedelta(days=s.get('days', 0) + 30 * s.get('months', 0) + 365 * s.get('years', 0), hours=s.get('hours', 0),
                            minutes=s.get('minutes', 0), seconds=s.get('seconds', 0))
    if isinstance(v, list) and len(v) == 2 and isinstance(v[0], float):
        return v[0]
    return v


def equal(a, b):
    if isinstance(b, (dt.datetime, dt.timedelta)) or isinstance(a, (dt.datetime, dt.timedelta)):
        return a == b
    if isinstance(b, float) and not isinstance(a, (str, bool)) and a is not None:
        return bool(np.isclose(float(a), b, rtol=1e-12))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def layer_value(n, v):
    if n in ('color', 'edgecolor'):
        return v.lower()
    if n in ('contlabel', 'colourbar'):
        return v.lower() == 'true'
    if n == 'contlevels':
        return [x[0] for x in v]
    return value(v)


def meaning_of_group(got, g, root, what):
    for k in ('variables', 'filenames'):
        want = g['vars'] if k == 'variables' else [os.path.join(root, f) for f in g['files']]
        have = got.get(k)
        check(have == want or k == 'variables' and [have] == want, '%s: %s %r instead of %r', what, k, have, want)
    want = {n: layer_value(n, v) if not isinstance(v, list) or n != 'kernel' else v for n, v in g['opts']}
    for n in sorted((set(got) - {'variables', 'filenames', 'aliases'}) | set(want)):
        if n not in want:
            check(got[n] is None, '%s: %s is %r, which was not given', what, n, got[n])
        elif isinstance(want[n], list):
            check(got.get(n) is not None and len(got[n]) == len(want[n]) and all(equal(a, b) for a, b in zip(got[n], want[n])),
                  '%s: %s %r instead of %r', what, n, got.get(n), want[n])
        else:
            check(equal(got.get(n), want[n]), '%s: %s %r instead of %r', what, n, got.get(n), want[n])
    if 'aliases' in g:
        check(got['aliases'] == [a or v for v, a in zip(g['vars'], g['aliases'])], '%s: aliases %r', what, got['aliases'])


def decide_meaning(case, ctx):
    from cis.parse import parse_args
    root = ctx.dir()
    for f in FILES:
        open(os.path.join(root, f), 'w').close()
    os.mkdir(os.path.join(root, 'sub'))
    os.mkdir(os.path.join(root, 'v1.2'))
    here = os.path.abspath(os.getcwd())
    args = written(case)
    what = ' '.join(args)
    ctx.tag(case['command'])
    import contextlib
    import io
    import logging
    err = io.StringIO()
    handlers = logging.getLogger().handlers
    added = logging.NullHandler()
    handlers.insert(0, added)
    os.chdir(root)
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            try:
                got = parse_args(args)
            except SystemExit as e:
                check(False, '%s: refused: %s', what, err.getvalue()[-300:])
            except Exception as e:
                from vf.core import Violation, _reraise_environment
                _reraise_environment(e)
                if isinstance(e, Violation):
                    raise
                check(False, '%s: refused: %r', what, e)
    finally:
        os.chdir(here)
        handlers.remove(added)
    long = {'sub': 'subset', 'agg': 'aggregate', 'col': 'collocate'}
    check(got.command == long.get(case['command'], case['command']), '%s: command %s', what, got.command)
    check(len(got.datagroups) == len(case['groups']), '%s: %d datagroups', what, len(got.datagroups))
    for have, g in zip(got.datagroups, case['groups']):
        if case.get('no_variables'):
            g = dict(g, vars=None)
        have = dict(have, filenames=[os.path.join(root, f) for f in have['filenames']])
        meaning_of_group(have, g, root, what)
    if 'limits' in case:
        check(set(got.limits) == {n for n, _ in case['limits']}, '%s: limits of %s', what, sorted(got.limits))
        for n, v in case['limits']:
            have = got.limits[n]
            if n == 'shape':
                check(have == v, '%s: shape %r', what, have)
                continue
            if len(v) == 1 and isinstance(v[0], dict):
                # The whole of the period
                have = have if isinstance(have, (list, tuple)) else [have.min(), have.max()]
            ends = [value(v[0]), value(v[-1], latest=True)]
            check(len(have) == 2 and all(equal(a, b) for a, b in zip(have, ends)), '%s: limits of %s %r instead of %r', what, n, have, ends)
    if 'grid' in case:
        check(set(got.grid) == {n for n, _ in case['grid']}, '%s: grids of %s', what, sorted(got.grid))
        for n, v in case['grid']:
            have = got.grid[n]
            if v is None:
                check(have is None, '%s: grid of %s %r', what, n, have)
                continue
            want = [value(v[0]), value(v[1], latest=True), value(v[2])]
            have = [have.start, have.stop, have.step]
            check(all(equal(a, b) for a, b in zip(have, want)), '%s: grid of %s %r instead of %r', what, n, have, want)
    if 'dims' in case:
        check(list(got.dimensions) == case['dims'], '%s: dimensions %r', what, got.dimensions)
    if 'sample' in case:
        s = case['sample']
        want = dict(s['opts'])
        files = [os.path.join(root, f) for f in s['files']]
        check([os.path.join(root, f) for f in got.samplefiles] == files, '%s: sample files %r', what, got.samplefiles)
        check(got.samplevariable == want.get('variable'), '%s: sample variable %r', what, got.samplevariable)
        check(got.sampleproduct == want.get('product'), '%s: sample product %r', what, got.sampleproduct)
        for n in ('collocator', 'kernel'):
            have = got.samplegroup.get(n)
            check((have is None) == (n not in want) and (have is None or tuple(have) == (want[n][0], dict(want[n][1]))), '%s: %s %r instead of %r',
                  what, n, have, want.get(n))
    if 'expr' in case:
        check(got.expr == case['expr'] and got.units == case['units'], '%s: expression %r, units %r', what, got.expr, got.units)
        check((got.attributes or {}) == dict(case['attributes']), '%s: attributes %r', what, got.attributes)
    if case['command'] == 'plot':
        given = dict(case['flags'])
        for n in sorted(PLOT):
            have = getattr(got, 'colourbar' if n == 'nocolourbar' else n, None)
            if n == 'nocolourbar':
                check(have is (n not in given) or have is None and n not in given, '%s: colour bar %r', what, have)
            elif n not in given:
                check(have in (None, False), '%s: %s is %r, which was not given', what, n, have)
            elif given[n] is None:
                check(have is True, '%s: %s is %r', what, n, have)
            else:
                want = value(given[n], latest=False)
                check(equal(have, want), '%s: %s %r instead of %r', what, n, have, want)
    if case['output']:
        name, var, _ = case['output']
        want = name if '.' in os.path.basename(name) else name + ('.png' if case['command'] == 'plot' else '.nc')
        check(got.output == want and getattr(got, 'output_var', None) == var, '%s: output %r, variable %r', what, got.output,
              getattr(got, 'output_var', None))
    elif case['command'] not in ('info', 'plot', 'stats'):
        check(got.output == 'out.nc', '%s: output %r', what, got.output)
    options = [g for g, _ in case['globals']]
    check(bool(got.force_overwrite) == ('--force-overwrite' in options), '%s: force overwrite %r', what, got.force_overwrite)
    check(bool(got.quiet) == ('-q' in options), '%s: quiet %r', what, got.quiet)
    check((got.verbose or 0) == (1 if '-v' in options else 2 if '-vv' in options else 0), '%s: verbose %r', what, got.verbose)
    ctx.nontrivial(len(case['flags']) + sum(len(g['opts']) for g in case['groups']) + len(case.get('sample', {}).get('opts', [])) +
                   len(case.get('limits', [])) + len(case.get('grid', [])) + len(case['globals']) > 1)


# --- Commands which must be refused ----------------------------------------------------------------------------------

# For every kind of mistake: what to put where.
BAD_OPTIONS = {
    'all': ['prodct=cis', 'foo=1', 'product', 'product=', 'product=nosuch', 'product=cis2', '=cis', 'product=cis,product=cis',
            'product=cis,foo', 'product=cis,=', 'cis2', 'product=CIS'],
    'agg': ['kernel', 'kernel=', 'kernel=nosuch', 'kernel=mean,kernel=max', 'label=x', 'kernel=mean,product', 'kernel=mean,product=nosuch',
            'kernel=Mean', 'mean', 'kernel=mean,kernel=mean', 'product=cis,kernel=mean,product=cis', 'kernel=mean,product=cis,kernel=max'],
    'plot': ['color=nocolour', 'color', 'color=', 'itemwidth=wide', 'itemwidth=1x', 'alpha=half', 'type=pie', 'vmin=low', 'vmax=1e', 'vstep=a',
             'contnlevels=2.5', 'contnlevels=many', 'contlevels=[1,b]', 'contlevels=1234', 'contlevels=[1,2', 'contlevels=1,2', 'contlevels=[]',
             'contlabel=maybe', 'contwidth=2.5', 'cbarscale=big', 'colourbar=perhaps', 'label', 'label=', 'color=red,color=blue', 'kernel=mean',
             'color=red,label=x,color=red', 'edgecolor=1', 'label=a,b', 'cbarlabel', 'product=nosuch', 'foo=1', 'itemstyle', 'label=x,foo'],
}
BAD_LIMITS = ['x', 'x=', 'x=[]', 'x=[0,20', 'x=0,20]', 'x=0', 'x=[0,20]]', 'x=[[0,20]', 'x=[0,20,5]', 'x=[0;20]', 'x=[a,20]', 'x=[0,b]', 'x=[20,0]',
              'x=[0,360.5]', '=[0,20]', '[0,20]', 'x=[0,20],x=[0,20]', 'x=[0,20],y', 'x=[0,20],y=[0,20],x=[0,30]', 'x=[0,20]y=[0,20]', 'x=[0,20],,y=[0,20]',
              't=[2010-13]', 't=[2010-02-30]', 't=[2010-01-01,2010-01-40]', 't=[soon]', 't=[2010-01-01,later]', 'time=[2010-01-01T25]', '', ',',
              'y=[0,]', 'y=[,20]', 'y=[0,20]junk', 'x=(0,20)', 'nosuch=[0,20]', 'latitude=[north]', 'latitude=[0,north]', 'shape', 'shape=',
              'shape=POLYGON((0 0, 1 1))', 'shape=nonsense', 't=[2010-01-01T00:00:61]', 'x=[0,20] y=[0,20]', 'x=[0x10,20]']
BAD_GRIDS = ['x=[0,360,30]junk', 'x=[0,360,30', 'x=[0', 'x=[', 'x=]', 'x=0,360,30]', 'x=30', 'x=[0,360]', 'x=[0]', 'x=[,360,30]', 'x=[,,30]', 'x=[0,,30]',
             'x=[0,360,30,5]', 'x=[0,360,30]]', 'x=[360,0,30]', 'x=[0,361,30]', 'x=[a,360,30]', 'x=[0,b,30]', 'x=[0,360,c]', '=[0,360,30]',
             'x=[0,360,30],x=[0,360,60]', 'x=[0,360,30],y=[0', 'x=[0,360,30],,y=[0,10,5]', 'y=[0,20,5]x=[0,20,5]', 'x=[0,360,P1.5D]', '[0,360,30]', '', ',',
             'nosuch=[0,360,30]', 'x=[0,360,30],y=[0,30]', 'x=[,360]', 'x=(0,360,30)', 'y=[0,20,1O]']
STEPS = ['P', 'P1', 'P1.5D', 'PD', 'P1D2', 'P1X', 'PT', 'PT1D', 'P1H', 'P-1D', '1D', 'D1', 'P1D!', 'P1M,5', 'P 1D', 'PT1.5H', 'P1DT5', 'P1W', 'T1H', 'one']
BAD_SEPARATIONS = ['h_sep=10parsecs', 'h_sep=km', 'h_sep=', 'h_sep', 'h_sep=ten', 'h_sep=10;km', 'h_sep=10%', 'h_sep=10km5', 'h_sep=1.0.5km', 'a_sep=10kg',
                   'a_sep=high', 'p_sep=2hPa', 'p_sep=a', 'q_sep=1', 'h_sep=100km,foo=1', 'fill_value=none_',
                   'missing_data_for_missing_sample=maybe', 'missing_data_for_missing_sample=1', 'missing_data_for_missing_sample='] + ['t_sep=' + s for s in STEPS]
BAD_METHODS = ['collocator=nosuch', 'collocator=box[h_sep=100km', 'collocator=box]h_sep=100km', 'collocator=box[h_sep=100km]]', 'collocator=box[h_sep=100km]x',
               'collocator=', 'collocator', 'collocator=box[h_sep=100km],kernel=nosuch', 'collocator=box[h_sep=100km],kernel=',
               'collocator=box[h_sep=100km],kernel', 'collocator=box[h_sep=100km],kernel=mean[foo=1]', 'collocator=box[h_sep=100km],kernel=mean,kernel=max',
               'collocator=box[h_sep=100km],variable=', 'collocator=box[h_sep=100km],variable=nosuch', 'collocator=box[h_sep=100km],product=nosuch',
               'collocator=box[h_sep=100km],foo=1', 'collocator=box[h_sep=100km],collocator=bin', 'box[h_sep=100km]',
               'collocator=box[[h_sep=100km]]', 'collocator=box(h_sep=100km)', 'collocator=lin', 'collocator=box[h_sep=100km],variable=x_u,product']
BAD_GROUPS = [':{f}', '{v}:', '{v}', '{f}', '{v}:{f}:product=cis:product=cis', '{v}:nosuch.nc', '{v}:{f},nosuch.nc', 'nosuch:{f}', '{v},nosuch:{f}', ':', '',
              '{v}:nosuch*.nc', '{v}:{f}:product=cis:', '{v}::{f}']
BAD_FLAGS = {'all': [['--nosuch'], ['--nosuch', '1'], ['-o', 'a:b:c'], ['-o'], ['-o', ''], ['-x']],
             'plot': [['--xmin', 'low'], ['--type', 'pie'], ['--fontsize', 'big'], ['--xbins', '2.5'], ['--cbarorient', 'diagonal'],
                      ['--coastlinescolour', 'blurple'], ['--projection', 'Nosuch'], ['--bias', 'smell'], ['--ystep', 'P1.5D'], ['--xstep', 'P'], ['--width', 'x'],
                      ['--gammamax', 'x'], ['--vmin', 'x'], ['--nosuch', '1'], ['--type', 'line', 'scatter'], ['--color', 'red'], ['--xmin', '2010-13']]}
BAD_EVAL = [['a +', '1'], ['a ** nosuch', '1'], ['a + (1', '1'], ['', '1'], ['a'], ['nosuch.f(a)', '1'], ['import os', '1'], ['a = 1', '1']]
BAD_ATTRIBUTES = ['note', 'note=', '=1', 'note=1,', 'note=1,other', 'a=b=c', ',', 'note=1,=2', '']


@st.composite
def wrong(draw):
    command = draw(st.sampled_from(['plot', 'info', 'subset', 'subset', 'aggregate', 'aggregate', 'collapse', 'collocate', 'collocate', 'eval', 'stats']))
    where = ['group', 'options', 'options', 'flag', 'command']
    where += {'subset': ['limits'] * 4, 'aggregate': ['grid'] * 3 + ['step'] * 2, 'collapse': ['dims'], 'collocate': ['separation'] * 3 + ['method'] * 2, 'eval': ['expr', 'attributes', 'alias'],
              'stats': ['count'], 'plot': ['options', 'options', 'flag'], 'info': []}[command]
    where = draw(st.sampled_from(where))
    case = dict(command=command, where=where, rest=draw(st.integers(0, 3)), data=draw(st.sampled_from('ug')), control=draw(st.integers(0, 4)) == 0,
                front=draw(st.booleans()))
    pool = {'group': BAD_GROUPS, 'limits': BAD_LIMITS, 'grid': BAD_GRIDS, 'step': STEPS, 'separation': BAD_SEPARATIONS, 'method': BAD_METHODS,
            'expr': BAD_EVAL, 'attributes': BAD_ATTRIBUTES, 'dims': [['nosuch'], ['x', 'nosuch'], ['x,nosuch'], [','], ['x=[0,10,5]'], ['']],
            'alias': ['x_u=a,y_u=a', 'x_u=a|y_u=a', 'x_u|x_u', 'x_u=a|y_u=b|x_u=a', 'x_u=y_u|y_u', 'x_u|y_u=|x_u=a', 'x_u=', '=a', 'x_u=a=b', 'x_u=a,y_u=', 'x_u,y_u=x_u'], 'count': ['x_u', 'x_u,y_u,x_u', '*_u,x_u'],
            'command': [[], ['nosuch'], ['subse'], ['col', 'col'], ['Subset']]}
    if where == 'options':
        pool = BAD_OPTIONS['plot'] if command == 'plot' else BAD_OPTIONS['agg'] + BAD_OPTIONS['all'] if command in ('aggregate', 'collapse') else BAD_OPTIONS['all']
    elif where == 'flag':
        pool = BAD_FLAGS['plot'] if command == 'plot' else BAD_FLAGS['all']
    else:
        pool = pool[where]
    # (these have no need of variables, or of an output)
    without = {'info': ['{f}'], 'stats': [['-o'], ['-o', '']]}.get(command, [])
    case['bad'] = draw(st.sampled_from([x for x in pool if x not in without]))
    return case


def inputs(folder):
    """Small files of points and of grids."""
    from cis.data_io.ungridded_data import UngriddedData, Metadata, UngriddedDataList
    from cis.data_io.gridded_data import GriddedDataList
    pts = [[0., 0., 149752. + 0.5], [5., 10., 149753.], [10., 15., 149754.], [15., 18., 149755.5]]
    one = gen.build_ungridded(['latitude', 'longitude', 'time'], pts, [1., 2., 3., 4.], var='x_u')
    two = UngriddedData(np.ma.array([3., 1., 2., 5.]), Metadata(name='y_u', long_name='second', units='K', shape=(4,)), one.coords().copy())
    UngriddedDataList([one, two]).save_data(os.path.join(folder, 'u.nc'))
    grid = dict(dims=['latitude', 'longitude', 'time'], points={'latitude': [0., 5., 10.], 'longitude': [0., 10., 20.], 'time': [149752., 149753.]}, bounds={},
                circular=False, seed=1, missing=[], force_mask=False)
    GriddedDataList([gen.build_grid(grid, var='x_u'), gen.build_grid(dict(grid, seed=2), var='y_u', long_name='second')]).save_data(os.path.join(folder, 'g.nc'))


def good(case):
    """The parts of a command which works."""
    command = case['command']
    kind = case['data']
    if command in ('aggregate', 'plot'):
        kind = 'u'
    if command == 'collapse':
        kind = 'g'
    parts = dict(vars='x_u,y_u' if command in ('stats', 'eval') else 'x_u', file=kind + '.nc', opts='', tail=[], flags=[] if command == 'info' else ['-o', 'result'])
    if command == 'collocate' and kind == 'g':
        parts['tail'] = ['u.nc:collocator=lin']
    elif command == 'collocate':
        parts['tail'] = ['g.nc:collocator=bin,kernel=mean']
    elif command == 'subset':
        parts['tail'] = ['x=[0,20]']
    elif command == 'aggregate':
        parts['tail'] = ['x=[0,20,10]']
    elif command == 'collapse':
        parts['tail'] = ['x']
    elif command == 'eval':
        parts['tail'] = ['x_u + y_u', '1']
    return parts


def spell(case, broken=True):
    p = good(case)
    command, where, bad = case['command'], case['where'] if broken else None, case['bad']
    head = [command]
    groups = ['%s:%s' % (p['vars'], p['file'])]
    if where == 'group':
        groups = [bad.format(v=p['vars'], f=p['file'])]
    elif where == 'options':
        groups[0] += ':' + bad
    elif where in ('limits', 'grid'):
        p['tail'] = [bad]
    elif where == 'step':
        p['tail'] = ['t=[2010-01-01,2010-01-10,%s]' % bad]
    elif where == 'separation':
        p['file'], p['vars'] = 'u.nc', 'x_u'
        groups = ['x_u:u.nc']
        p['tail'] = ['u.nc:variable=x_u,collocator=box[%s],kernel=mean' % bad]
    elif where == 'method':
        groups = ['x_u:u.nc']
        p['tail'] = ['u.nc:' + bad]
    elif where == 'expr':
        groups = ['x_u=a:' + p['file']]
        p['tail'] = list(bad)
    elif where == 'attributes':
        p['flags'] = p['flags'] + ['-a', bad]
    elif where == 'dims':
        p['tail'] = list(bad)
    elif where in ('alias', 'count'):
        groups = ['%s:%s' % (b, p['file']) for b in bad.split('|')]
        if where == 'alias':
            p['tail'] = ['a + 1', '1']
    elif where == 'flag':
        p['flags'] = list(bad) if '-o' in bad else p['flags'] + list(bad)
    elif where == 'command':
        head = list(bad)
    front = case['front'] and len(p['flags']) % 2 == 0 and where != 'flag'
    return head + (p['flags'] + groups + p['tail'] if front else groups + p['tail'] + p['flags'])


def everything(folder):
    return {f: (cli.stamp(os.path.join(folder, f)) if os.path.isfile(os.path.join(folder, f)) else 'a directory') for f in sorted(os.listdir(folder))}


def decide_wrong(case, ctx):
    folder = ctx.dir()
    inputs(folder)
    here = os.path.abspath(os.getcwd())
    before = everything(folder)
    args = spell(case)
    what = ' '.join(map(repr, args))
    ctx.tag(case['where'])
    os.chdir(folder)
    try:
        with offline():
            res = cli.run(args, answers=['n'])
        check(not res.ok, '%s was not refused', what)
        message = (str(res.error) if res.error is not None else '') + res.err
        check(message.strip(), '%s: refused without a message', what)
        check(res.code in (None, 1, 2), '%s: exit status %r', what, res.code)
        after = everything(folder)
        check(after == before, '%s: refused, but there are now %s', what, sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f)))
        if case['control'] and case['where'] not in ('command',):
            with offline():
                res = cli.run(spell(case, broken=False))
            check(res.ok, 'the command which works, %s: %r', spell(case, broken=False), res)
        ctx.nontrivial(True)
    finally:
        os.chdir(here)


# --- Ranges, steps and distances with characters changed -------------------------------------------------------------

SOUND = {'limits': ['x=[0,20],y=[0,15]', 'x=[0,20]', 'y=[5],x=[-20,20.5]', 'latitude=[0,15],x=[0,20]', 't=[2010-01-01,2010-01-05],y=[0,15]'],
         'grid': ['x=[0,20,10],y=[0,15,5]', 'x=[0,20,10]', 'y=[0,15,5],x=[-20,20.5,10]', 'latitude=[0,15,5]', 't=[2010-01-01,2010-01-10,P1D],y=[0,15,5]'],
         'step': ['P1D', 'P1M2D', 'PT12H', 'P1DT6H30M', 'P1Y', 'PT1H30M5S'],
         'separation': ['h_sep=100km', 'h_sep=500m', 'h_sep=1.5e3km', 'a_sep=10m', 'a_sep=0.5 km', 't_sep=P1DT2H', 'h_sep=100km,t_sep=P2D', 'p_sep=1.5'] }
CHARACTERS = {'limits': '[],=0.xy5e-;(', 'grid': '[],=0.xyPD5e-;(', 'step': 'PTYMDHS012.-: ', 'separation': '0.5ekm ,=-+%;PTDH'}


@st.composite
def changed(draw):
    where = draw(st.sampled_from(sorted(SOUND)))
    return dict(command={'limits': 'subset', 'separation': 'collocate'}.get(where, 'aggregate'), where=where, sound=draw(st.sampled_from(SOUND[where])),
                edits=draw(st.lists(st.tuples(st.sampled_from(['delete', 'insert', 'insert', 'double', 'swap', 'cut']), st.integers(0, 60),
                                              st.sampled_from(CHARACTERS[where])).map(list), min_size=1, max_size=2)),
                data=draw(st.sampled_from('ug')), front=draw(st.booleans()), control=False)


def edited(case):
    out = case['sound']
    for kind, at, char in case['edits']:
        at %= len(out) + 1
        if kind == 'delete':
            out = out[:at] + out[at + 1:]
        elif kind == 'insert':
            out = out[:at] + char + out[at:]
        elif kind == 'double':
            out = out[:at] + out[at:at + 1] + out[at:]
        elif kind == 'swap':
            out = out[:at] + out[at:at + 2][::-1] + out[at + 2:]
        else:
            out = out[:max(at, 1)]
    return out


def is_number(v):
    try:
        return bool(np.isfinite(float(v)))
    except ValueError:
        return False


def is_step(v):
    return re.match(r'P(\d+[YMD])*([T :](\d+[HMS])*)?$', v, re.I) is not None and re.search(r'\d', v) is not None


def segments(v):
    """The parts between commas which aren't in brackets, or None if the brackets don't match."""
    out, depth = [''], 0
    for ch in v:
        if ch in '[(':
            depth += 1
        elif ch in '])':
            depth -= 1
        if depth < 0 or depth > 1:
            return None
        if ch == ',' and depth == 0:
            out.append('')
        else:
            out[-1] += ch
    return None if depth else out


def surely_wrong(where, v):
    """Whether it can't be taken for anything. (What might be taken for a date isn't judged.)"""
    if where == 'step':
        return not (is_step(v) or is_number(v))
    if where == 'separation':
        names = set()
        for part in v.split(','):
            name, equals, value = part.partition('=')
            if not part:
                continue
            if name not in ('h_sep', 'a_sep', 'p_sep', 't_sep') or not equals:
                return True
            names.add(name)
            m = re.match(r'\s*([-+]?[0-9.]+(?:e[-+]?[0-9]+)?)\s*(m|km)?\s*$', value, re.I)
            if name == 'p_sep' and not is_number(value) or name == 't_sep' and not is_step(value) or \
                    name in ('h_sep', 'a_sep') and (m is None or not is_number(m.group(1))):
                return True
        return False
    known = ['x', 'y', 't', 'X', 'Y', 'latitude', 'longitude', 'time']
    v = v[:-1] if v.endswith(',') else v
    parts = segments(v)
    if parts is None:
        return True
    if len(set(p.split('=')[0].split('[')[0] for p in parts)) < len(parts):
        return True
    for part in parts:
        m = re.match(r'([A-Za-z]+)(=?)(?:\[([^\[\]()]*)\])?$', part)
        if m is None or m.group(1) not in known:
            return True
        values = None if m.group(3) is None else m.group(3).split(',')
        if where == 'limits':
            if values is None or not m.group(2) or len(values) not in (1, 2) or '' in values:
                return True
            if m.group(1) in 'xXyY' and not all(is_number(x) for x in values):
                return True
        elif values is not None and values != [''] and (len(values) != 3 or '' in values):
            return True
    return False


def decide_changed(case, ctx):
    bad = edited(case)
    if not surely_wrong(case['where'], bad):
        return
    decide_wrong(dict(case, bad=bad), ctx)


SUBS = [Sub('meaning', commands(), decide_meaning, quick=900, thorough=30000),
        Sub('refused', wrong(), decide_wrong, quick=700, thorough=8000),
        Sub('changed', changed(), decide_changed, quick=900, thorough=20000)]
