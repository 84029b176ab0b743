"""Which product reads a file and which kernel is used, with the ones of the user's own next to the built-in ones."""
import gc
import importlib
import os
import re
import sys

import numpy as np
from hypothesis import strategies as st

from vf import cli, fork, gen
from vf.core import Ctx, Sub, check

PROPERTY = dict(
    title="The product and kernel which are used: the user's own, or built in",
    statement="""Every data product and kernel defined in a Python file of the folder CIS_PLUGIN_HOME can be used, just as the built-in ones, in every
    command and function which reads data, aggregates or collocates. A file is read by the product which is named or, if none is, by one of the
    highest priority of all those which have a signature matching the whole of the (first) file's name - whatever its folder is, and whether
    letters are capitals or not - and which don't object to what is in it; if there is none, or what is named is not a product, that is reported. Priorities,
    signatures and objections may be inherited from other products. The kernel is the one which is named, with the arguments given. Classes whose names start
    with Abstract or abstract, classes of other kinds, files of other kinds and products and kernels which aren't the ones to use make no difference.""",
    text='plugin folders with product and kernel hierarchies, priorities, signatures, objections; file names; commands and functions',
    why="""The tests never load a plugin: they look at the signatures of built-in products for a list of file names.""",
    files=['cis/plugin.py', 'cis/data_io/products/AProduct.py', 'cis/collocation/col_framework.py', 'cis/collocation/col.py', 'cis/parse.py'],
    mechanism=[('find_plugins', 'cis/plugin.py'), ('find_plugin_classes', 'cis/plugin.py'), ('__get_class', 'cis/data_io/products/AProduct.py'),
               ('get_kernel', 'cis/collocation/col_framework.py'), ('get_kernel', 'cis/collocation/col.py'), ('check_product', 'cis/parse.py'),
               ('check_aggregate_kernel', 'cis/parse.py')],
    observe=['cis.data_io.products.AProduct.get_product_full_name, get_data, get_coordinates, get_variables, get_file_format; cis.read_data; '
             'UngriddedData.aggregate, collocated_onto; cis info, subset, aggregate, collocate'],
    note="""Hypothesis plugin folders, each tried in a forked process, against a model of the choice of a product.""")

RULE = ('A case is a plugin folder and a file or data to use it on. Non-trivial: at least two of its products match the file, or the product or '
        'kernel used is inherited from another one of the folder, or there are abstract or other classes next to it.')

MODULES = ['_vfp', 'vfp_one', 'vfp_two', 'vfp-three', 'vfp_AProduct_tools', 'VfpKernels']
NAMES = ['obs_0123.vfd', 'OBS_0123.VFD', 'obs_0123.vfd.bak', 'xobs_0123.vfd', 'obs_012.vfd', 'mod_9.txt', 'Mod_9.TXT', 'mod_9', 'obs', 'notes.txt',
         'obs_0123vfd', 'mod_9.txt2', 'obs 1.vfd', 'a+b.vfd']
SIGNATURES = [r'obs_.*\.vfd', r'.*\.vfd', r'obs_\d{4}\.vfd', r'obs_0123\.vfd|mod_.*', r'obs|mod', r'mod.*\.txt', r'.*\.txt', r'.*', r'OBS.*', r'.*vfd',
              r'(obs|mod)_\d+', r'obs_\d+', r'[a-z]+_[0-9]{1,4}\.(vfd|txt)', r'mod_9|mod_9\.txt', r'nothing', r'a\+b\.vfd', r'obs_0123\.vfd$', r'^obs.*d']
JUNK = {'notes.txt': 'class A(', 'README': '', '__init__.py': 'raise ValueError("not a plugin")\n', 'old.py.bak': 'raise ValueError()\n',
        'old.pyc': 'not really', '__INIT__.PY': 'raise ValueError()', 'data.csv': '1,2', 'plugin.txt.py~': 'def'}

BUILT_IN = {'ASCII_Hyperpoints': dict(signature=[r'.*\.txt'], priority=10, objects=None, marker=None)}

PRODUCT = '''
class {name}({bases}):
{body}
    def get_variable_names(self, filenames, data_type=None):
        return set(['v', 'mark_{marker}'])

    def create_coords(self, filenames, variable=None):
        from cis.data_io.Coord import Coord, CoordList
        from cis.data_io.ungridded_data import Metadata, UngriddedCoordinates, UngriddedData
        import numpy as np
        if {broken} and variable:
            raise KeyError('there is no such thing in the file')
        coords = CoordList()
        coords.append(Coord(np.array([1., 2., 3.]), Metadata('lat', standard_name='latitude', units='degrees_north'), 'Y'))
        coords.append(Coord(np.array([{marker}., 20., 30.]), Metadata('lon', standard_name='longitude', units='degrees_east'), 'X'))
        if variable is None:
            return UngriddedCoordinates(coords)
        return UngriddedData(np.array([{marker}., 1000. + len(filenames), 7.]), Metadata('v', long_name='the variable', units='1'), coords)

    def create_data_object(self, filenames, variable):
        return self.create_coords(filenames, variable)

    def get_file_format(self, filename):
        return 'Vfp/{name}'
'''


def later(c, classes, modules):
    """The module of a class: not one which the module of its parent imports from."""
    for other in classes:
        if other['name'] == c['base'] and modules.index(other['module']) > modules.index(c['module']):
            return other['module']
    return c['module']


@st.composite
def folders(draw, name):
    """The classes of the modules of a plugin folder, in the order in which they are defined."""
    signature = st.sampled_from(SIGNATURES + 2 * [s for s in SIGNATURES if re.match(s, name, re.I)])
    modules = draw(st.lists(st.sampled_from(MODULES), min_size=1, max_size=3, unique=True))
    classes = []
    for k in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['product', 'product', 'product', 'abstract', 'helper']))
        above = [c['name'] for c in classes if c['kind'] != 'helper']
        c = dict(kind=kind, module=draw(st.sampled_from(modules)),
                 name=draw(st.sampled_from({'product': ['Prod%d', 'my_prod%d', 'NotAbstract%d'], 'abstract': ['Abstract%d', 'abstract_Prod%d', 'AbstractProd%d'],
                                            'helper': ['Settings%d', 'AProductTools%d', 'abstractThing%d']}[kind])) % k)
        if kind == 'helper':
            tools = [x['name'] for x in classes if x['kind'] == 'helper']
            c['base'] = draw(st.sampled_from(['object'] + tools))
        else:
            c['base'] = draw(st.sampled_from(['AProduct', 'AProduct', 'ASCII_Hyperpoints'] + above + above))
            c['priority'] = draw(st.sampled_from([None, None, 0, 9, 11, 11, 20, 100]))
            c['signature'] = draw(st.one_of(st.none() if c['base'] in above else st.just([SIGNATURES[0]]), st.lists(signature, max_size=3, unique=True)))
            c['objects'] = draw(st.sampled_from([None, None, None, None, None, 'never', 'always', 'unless', 'unless']))
            c['bare'] = kind == 'abstract' and draw(st.booleans())
            c['mixin'] = draw(st.integers(0, 5)) == 0
            c['broken'] = kind == 'product' and draw(st.integers(0, 9)) == 0
        c['module'] = later(c, classes, modules)
        classes.append(c)
    return dict(modules=modules, classes=classes, junk=draw(st.lists(st.sampled_from(sorted(JUNK)), max_size=3, unique=True)),
                order=draw(st.permutations(MODULES)))


@st.composite
def product_cases(draw):
    name = draw(st.sampled_from(NAMES))
    case = draw(folders(name))
    case['file'] = name
    case['tag'] = draw(st.booleans())
    case['folder'] = draw(st.sampled_from(['in', 'in', 'in.txt', 'obs_0123.vfd']))
    case['more'] = draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True))
    case['home'] = draw(st.sampled_from(['set', 'set', 'set', 'set', 'set', 'set', 'slash', 'unset', 'missing']))
    names = [c['name'] for c in case['classes']]
    case['product'] = draw(st.sampled_from([None] * 14 + names + ['ASCII_Hyperpoints', 'AProduct', 'abstract_Caliop', 'nosuch', names[0].lower(),
                                                                        names[0][:-1]]))
    case['actions'] = draw(st.lists(st.sampled_from(['data', 'read', 'coords', 'variables', 'format', 'info', 'info v', 'subset', 'plot help']),
                                    min_size=1, max_size=3, unique=True))
    return case


# --- The model -------------------------------------------------------------------------------------------------------

def resolved(case):
    """name -> what the product with that name is, with what it has inherited."""
    known = {'AProduct': dict(signature=None, priority=10, objects=None), 'ASCII_Hyperpoints': BUILT_IN['ASCII_Hyperpoints']}
    for i, c in enumerate(case['classes']):
        if c['kind'] == 'helper':
            continue
        base = known[c['base']]
        p = dict(c, index=i, marker=40 + i)
        p['signature'] = c['signature'] if c['signature'] is not None else base['signature']
        if p['signature'] is None:          # no class above has given one
            p['signature'] = c['signature'] = []
        p['priority'] = c['priority'] if c['priority'] is not None else base['priority']
        p['objects'] = c['objects'] if c['objects'] is not None else base['objects']
        known[c['name']] = p
    return known


def choices(case, known, available):
    """The names of the products of which any may be used (none: it is an error)."""
    products = {n: p for n, p in known.items() if n == 'ASCII_Hyperpoints' or (n != 'AProduct' and available and p['kind'] == 'product')}
    if case['product'] is not None:
        return [case['product']] if case['product'] in products else []
    fit = [n for n, p in products.items() if any(re.fullmatch(s, case['file'], re.I) for s in p['signature'])]
    fit = [n for n in fit if products[n]['objects'] in (None, 'never') or (products[n]['objects'] == 'unless' and case['tag'])]
    top = max([products[n]['priority'] for n in fit] or [0])
    return [n for n in fit if products[n]['priority'] == top]


WARM = []


def warm(folder):
    """Load in this process what the code under test loads when it is needed, so that the forked ones don't each have to."""
    if WARM:
        return
    WARM.append(True)
    os.environ.pop('CIS_PLUGIN_HOME', None)
    names = os.path.join(folder, 'modules')

    def work():
        # (in another process: what it uses may start threads, which cannot be forked)
        data = gen.build_ungridded(['latitude', 'longitude'], [[1., 2.], [3., 4.]], [1., 2.])
        path = cli.escape(os.path.join(folder, 'warm.nc'))
        data.save_data(os.path.join(folder, 'warm.nc'))
        for k, args in enumerate([['aggregate', 'rain:' + path + ':kernel=max', 'x=[0,10,5]'], ['subset', 'rain:' + path, 'x=[0,9]'], ['info', path],
                                  ['collocate', 'rain:' + path, path + ':collocator=box[h_sep=5],kernel=max'], ['plot', '-h']]):
            cli.run(args + (['-o', os.path.join(folder, 'warm%d.nc' % k)] if args[0] not in ('info', 'plot') else []))
        with open(names, 'w') as f:
            f.write('\n'.join(sys.modules))
    fork.isolated(work, Ctx(folder))
    with open(names) as f:
        for name in f.read().split():
            if not name.startswith('vfp'):
                try:
                    importlib.import_module(name)
                except Exception:
                    pass
    gc.collect()
    gc.freeze()


# --- The plugin folder -----------------------------------------------------------------------------------------------

def module_text(case, module, known):
    lines = ['import re', 'import numpy', 'from cis.data_io.products.AProduct import AProduct', 'from cis.data_io.products.products import ASCII_Hyperpoints',
             'from cis.collocation.col_framework import Kernel, AbstractDataOnlyKernel', 'from datetime import datetime', '',
             '']
    where = {c['name']: c['module'] for c in case['classes']}
    for i, c in enumerate(case['classes']):
        if c['module'] != module:
            continue
        base = c['base']
        if where.get(base, module) != module:
            lines.append('%s = __import__(%r).%s' % (base, where[base], base))
        if c['kind'] == 'helper':
            lines += ['class %s(%s):' % (c['name'], base), '    priority = "high"', '    def __init__(self, needed):', '        self.needed = needed', '']
            continue
        body = []
        if c['priority'] is not None:
            body.append('    priority = %d\n' % c['priority'])
        if c['signature'] is not None:
            body.append('    def get_file_signature(self):\n        return [%s]\n' % ', '.join('r"%s"' % s for s in c['signature']))
        if c['objects'] is not None:
            body.append('    def get_file_type_error(self, filename):\n')
            body.append({'never': '        return None\n', 'always': '        return ["not mine"]\n',
                         'unless': '        with open(filename) as f:\n            return None if "TAG" in f.read() else ["no TAG", "none"]\n'}[c['objects']])
        body = ''.join(body) or '    pass\n'
        bases = base
        if c['mixin']:
            lines += ['class Mixin%d(object):' % i, '    pass', '']
            bases = 'Mixin%d, %s' % (i, base)
        if c['bare'] and c['kind'] == 'abstract':
            lines += ['class %s(%s):' % (c['name'], bases), body]
        else:
            lines.append(PRODUCT.format(name=c['name'], bases=bases, body=body, marker=known[c['name']]['marker'], broken=bool(c['broken'])))
    return '\n'.join(lines)


def lay_out(case, folder, texts):
    home = os.path.join(folder, 'plugins')
    os.mkdir(home)
    for name in [m for m in case['order'] if m in texts]:
        with open(os.path.join(home, name + '.py'), 'w') as f:
            f.write(texts[name])
    for name in case['junk']:
        with open(os.path.join(home, name), 'w') as f:
            f.write(JUNK[name])
    if 'README' in case['junk']:
        os.mkdir(os.path.join(home, 'more'))
        with open(os.path.join(home, 'more', 'inner.py'), 'w') as f:
            f.write('raise ValueError("not to be loaded")\n')
    os.environ.pop('CIS_PLUGIN_HOME', None)
    kind = case.get('home', 'set')
    if kind != 'unset':
        os.environ['CIS_PLUGIN_HOME'] = {'set': home, 'slash': home + '/', 'missing': os.path.join(folder, 'nowhere')}[kind]


def product_decide(case, ctx):
    folder = ctx.dir()
    known = resolved(case)
    # Of abstract classes some leave out what has to be there, so a product needs to have everything above it, or itself
    available = case['home'] in ('set', 'slash')
    allowed = choices(case, known, available)
    texts = {m: module_text(case, m, known) for m in case['modules']}
    inside = os.path.join(folder, case['folder'])
    os.mkdir(inside)
    paths = []
    for name in [case['file']] + case['more']:
        paths.append(os.path.join(inside, name))
        with open(paths[-1], 'w') as f:
            f.write('# TAG\n' if case['tag'] else '# no\n')
            f.write('10.0,20.0,5.0,2010-01-01T00:00:00,5.0\n11.0,21.0,5.0,2010-01-01T00:00:00,6.0\n12.0,22.0,5.0,2010-01-01T00:00:00,7.0\n')

    warm(folder)

    def work():
        lay_out(case, folder, texts)
        use(case, ctx, known, allowed, folder, paths)
    fork.isolated(work, ctx)


def expected(product, known, n):
    """Values which tell the products apart."""
    if known[product]['marker'] is None:
        return [5., 6., 7.] * n
    return [float(known[product]['marker']), 1000. + n, 7.]


def use(case, ctx, known, allowed, folder, paths):
    product = importlib.import_module('cis.data_io.products.AProduct')
    from cis.exceptions import ClassNotFoundError
    matching = [n for n in known if n != 'AProduct' and any(re.fullmatch(s, case['file'], re.I) for s in known[n]['signature'])]
    ctx.nontrivial(len(matching) > 1 or any(c['kind'] != 'product' for c in case['classes']) or any(
        known[a].get('base', 'AProduct') != 'AProduct' for a in allowed))
    ctx.tag('none' if not allowed else 'tie' if len(allowed) > 1 else 'built-in' if allowed[0] in BUILT_IN else 'plugin')
    if case['product']:
        ctx.tag('named')
    if 'Abstract' in str(allowed):
        ctx.tag('name')
    what = 'the product for %s (product=%s)' % (case['file'], case['product'])
    kw = {'product': case['product']} if case['product'] else {}
    try:
        name = product.get_product_full_name(paths, **kw).split('/')[1]
    except ClassNotFoundError as e:
        name = None
        check(not allowed, '%s: not found (%s), but %s fit', what, e, allowed)
    except Exception as e:
        check(False, '%s: %s: %s', what, type(e).__name__, e)
    if name is not None:
        check(name in allowed, '%s: %s instead of %s', what, name, allowed or 'an error')
    for action in case['actions']:
        ctx.tag(action)
        do(action, case, known, allowed, name, folder, paths, what, kw)


def do(action, case, known, allowed, name, folder, paths, what, kw):
    import cis
    product = importlib.import_module('cis.data_io.products.AProduct')
    broken = name is not None and known[name].get('broken')
    if action in ('info', 'info v', 'subset', 'plot help'):
        command(action, case, known, name, folder, paths, what)
        return
    try:
        if action == 'data':
            got = product.get_data(paths, 'v', **kw)
        elif action == 'read':
            if case['folder'] == 'in' and any('+' in p or ' ' in p for p in paths):
                return
            got = cis.read_data(paths, 'v', **kw) if broken or name != 'ASCII_Hyperpoints' else cis.read_data(paths, 'value', **kw)
        elif action == 'coords':
            got = product.get_coordinates(paths, **kw)
        elif action == 'variables':
            got = product.get_variables(paths, **kw)
        else:
            got = product.get_file_format(paths, **kw)
    except Exception as e:
        if name is None:
            check(type(e).__name__ == 'ClassNotFoundError', '%s: %s failed with %s: %s', what, action, type(e).__name__, e)
        else:
            check(broken and action in ('data', 'read'), '%s: %s failed with %s: %s', what, action, type(e).__name__, e)
            check(name in str(e), '%s: %s failed, without saying that it was %s: %s', what, action, name, e)
        return
    check(name is not None, '%s: %s gave %s although there is no such product', what, action, got)
    check(not (broken and action in ('data', 'read')), '%s: %s gave %s although the product fails', what, action, got)
    marker = known[name]['marker']
    if action in ('data', 'read'):
        n = len(set(paths)) if action == 'read' else len(paths)
        want = expected(name, known, n)
        check(gen.filled(got.data).tolist() == want, '%s: %s gave %s instead of %s', what, action, got.data, want)
    elif action == 'coords':
        lon = gen.filled(got.coord('longitude').data).ravel().tolist()
        check(lon == ([20., 21., 22.] * len(paths) if marker is None else [marker, 20., 30.]), '%s: longitudes %s', what, lon)
    elif action == 'variables':
        check(set(got) == ({'value'} if marker is None else {'v', 'mark_%d' % marker}), '%s: variables %s', what, got)
    else:
        check(got == ('ASCII/ASCIIHyperpoints' if marker is None else 'Vfp/' + name), '%s: format %s', what, got)


def command(action, case, known, name, folder, paths, what):
    import cis
    broken = name is not None and known[name].get('broken')
    out = os.path.join(folder, 'out.nc')
    if action == 'plot help':
        # the names of all of the products there are
        res = cli.run(['plot', '-h'])
        check(res.ok, 'cis plot -h: %s', res)
        listed = re.findall(r"'(\w+)'", res.out.replace('\n', ' '))
        for n, p in known.items():
            usable = n == 'ASCII_Hyperpoints' or (n != 'AProduct' and p.get('kind') == 'product' and case['home'] in ('set', 'slash'))
            check((n in listed) == usable, 'cis plot -h: %s is%s listed as a product', n, '' if n in listed else ' not')
        return
    path = cli.escape(paths[0])
    option = ':product=' + case['product'] if case['product'] else ''
    variable = 'value' if name == 'ASCII_Hyperpoints' else 'v'
    if action == 'info':
        if option:
            return
        res = cli.run(['info', path])
    elif action == 'info v':
        res = cli.run(['info', variable + ':' + path + option])
    else:
        res = cli.run(['subset', variable + ':' + path + option, 'x=[0,80]', '-o', out])
    fails = name is None or (broken and action != 'info')
    check(res.ok == (not fails), '%s: cis %s: %s', what, action, res)
    if fails:
        check(not os.path.exists(out), '%s: a file was made although it cannot be read', what)
        if res.error is not None:
            check(type(res.error).__name__ == ('ClassNotFoundError' if name is None else 'ProductPluginException'), '%s: cis %s: %s', what, action, res)
        return
    marker = known[name]['marker']
    if action == 'info':
        check(sorted(res.out.split()) == (['value'] if marker is None else ['mark_%d' % marker, 'v']), '%s: cis info: %s', what, res.out)
    elif action == 'subset':
        got = cis.read_data(out, variable, 'cis')
        check(gen.filled(got.data).tolist() == expected(name, known, 1), '%s: cis subset gave %s', what, got.data)


# --- Kernels ---------------------------------------------------------------------------------------------------------

KERNEL = '''
class {name}({bases}):
{init}
{body}
'''
INIT = {'none': '', 'default': '    def __init__(self, factor=2.0, extra=0):\n        self.factor = float(factor)\n        self.extra = float(extra)\n',
        'needed': '    def __init__(self, factor, extra=0):\n        self.factor = float(factor)\n        self.extra = float(extra)\n'}


@st.composite
def kernel_cases(draw):
    modules = draw(st.lists(st.sampled_from(MODULES), min_size=1, max_size=3, unique=True))
    classes = []
    for k in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['kernel', 'kernel', 'kernel', 'abstract', 'helper']))
        above = [c['name'] for c in classes if c['kind'] != 'helper']
        c = dict(kind=kind, module=draw(st.sampled_from(modules)),
                 name=draw(st.sampled_from({'kernel': ['Kern%d', 'my_kern%d', 'percentile%d'], 'abstract': ['Abstract%d', 'abstract_kern%d', 'AbstractKernel%d'],
                                            'helper': ['Settings%d', 'KernelTools%d']}[kind])) % k)
        if kind == 'helper':
            c['base'] = draw(st.sampled_from(['object'] + [x['name'] for x in classes if x['kind'] == 'helper']))
        else:
            c['base'] = draw(st.sampled_from(['AbstractDataOnlyKernel', 'AbstractDataOnlyKernel', 'Kernel', 'mean'] + above))
            c['formula'] = draw(st.integers(0, 3))
            c['init'] = draw(st.sampled_from(['none', 'none', 'default', 'needed']))
            c['inherits'] = c['base'] in above and draw(st.booleans())
            c['several'] = draw(st.integers(0, 4)) == 0
        c['module'] = later(c, classes, modules)
        classes.append(c)
    usable = [c['name'] for c in classes if c['kind'] == 'kernel']
    names = usable * 4 + [c['name'] for c in classes] + ['max', 'nosuch', 'Kernel', 'Abstract', 'AbstractDataOnlyKernel', usable[0].upper() if usable else 'Mean']
    return dict(modules=modules, classes=classes, junk=draw(st.lists(st.sampled_from(sorted(JUNK)), max_size=2, unique=True)),
                order=draw(st.permutations(MODULES)), kernel=draw(st.sampled_from(names)),
                factor=draw(st.one_of(st.none(), st.integers(-8, 8).map(lambda i: i / 2.))), extra=draw(st.one_of(st.none(), st.integers(1, 5))),
                actions=draw(st.lists(st.sampled_from(['aggregate', 'collocate', 'cis aggregate', 'cis collocate']), min_size=1, max_size=2, unique=True)),
                groups=draw(st.lists(st.lists(st.integers(-40, 40).map(lambda i: i / 4.), min_size=1, max_size=4), min_size=2, max_size=2)))


def kernel_model(case):
    """name -> formula, the place of the kernel which has it, init, number of values returned."""
    known = {'AbstractDataOnlyKernel': dict(form=None, init='none', several=False, full=False), 'Kernel': dict(form=None, init='none', several=False, full=True),
             'mean': dict(form=None, init='none', several=False, full=False)}
    for i, c in enumerate(case['classes']):
        if c['kind'] == 'helper':
            continue
        base = known[c['base']]
        k = dict(c, full=base['full'])
        if c['inherits']:
            k.update(form=base['form'], several=base['several'])
        else:
            k.update(form=(c['formula'], i))
        if c['init'] == 'none':
            k['init'] = base['init']
        known[c['name']] = k
    return known


def formula(form, values, factor, extra):
    kind, i = form
    values = np.asarray(values, float)
    return {0: values.max() * factor + i, 1: len(values) * 100 + i + extra, 2: (values ** 2).sum() + factor * i,
            3: values.min() - factor + extra * (i + 1)}[kind]


def kernel_text(case, module, known):
    lines = ['import numpy as np', 'from cis.collocation.col_framework import Kernel, AbstractDataOnlyKernel', 'from cis.data_io.products.AProduct import AProduct',
             'from cis.collocation.col_implementations import mean', '']
    where = {c['name']: c['module'] for c in case['classes']}
    for i, c in enumerate(case['classes']):
        if c['module'] != module:
            continue
        if where.get(c['base'], module) != module:
            lines.append('%s = __import__(%r).%s' % (c['base'], where[c['base']], c['base']))
        if c['kind'] == 'helper':
            lines += ['class %s(%s):' % (c['name'], c['base']), '    def __init__(self, needed):', '        self.needed = needed', '']
            continue
        body = []
        if not c['inherits']:
            body.append('    return_size = %d\n' % (2 if c['several'] else 1))
            work = {0: 'values.max() * factor + {0}', 1: 'len(values) * 100 + {0} + extra', 2: '(values ** 2).sum() + factor * {0}',
                    3: 'values.min() - factor + extra * {1}'}[c['formula']].format(i, i + 1)
            if known[c['name']]['full']:
                body.append('    def get_value(self, point, data):\n        values = np.asarray(data.vals)\n')
                body.append('        if len(values) == 0:\n            raise ValueError\n')
            else:
                body.append('    def get_value_for_data_only(self, values):\n')
            body.append('        factor, extra = getattr(self, "factor", 1.0), getattr(self, "extra", 0.0)\n')
            body.append('        result = %s\n' % work)
            body.append('        return [result, len(values)]\n' if c['several'] else '        return result\n')
            if c['several']:
                body.append('    def get_variable_details(self, var_name, var_long_name, var_standard_name, var_units):\n'
                            '        return ((var_name, var_long_name, None, var_units), ("number", "number of values", None, "1"))\n')
            else:
                body.append('    def get_variable_details(self, var_name, var_long_name, var_standard_name, var_units):\n'
                            '        return ((var_name, var_long_name, None, var_units), )\n')
        lines.append(KERNEL.format(name=c['name'], bases=c['base'], init=INIT[c['init']], body=''.join(body) or '    pass\n'))
    return '\n'.join(lines)


def kernel_decide(case, ctx):
    folder = ctx.dir()
    known = kernel_model(case)
    for c in case['classes']:
        if c['kind'] == 'kernel' and known[c['name']]['form'] is None:
            return      # it never says how it works
    texts = {m: kernel_text(case, m, known) for m in case['modules']}

    warm(folder)

    def work():
        lay_out(case, folder, texts)
        kernel_use(case, ctx, known, folder)
    fork.isolated(work, ctx)


def kernel_use(case, ctx, known, folder):
    import cis
    name = case['kernel']
    k = known.get(name) if name in [c['name'] for c in case['classes'] if c['kind'] == 'kernel'] else None
    exists = k is not None or name == 'max'
    ctx.nontrivial(k is not None and (k['base'] not in ('Kernel', 'AbstractDataOnlyKernel') or len(case['classes']) > 1))
    ctx.tag('kernel' if k else 'built-in' if exists else 'none')
    pts, vals = [], []
    for g, values in enumerate(case['groups']):
        for i, v in enumerate(values):
            pts.append([10. + i / 100., 100. * g + i / 100.])
            vals.append(v)
    data = gen.build_ungridded(['latitude', 'longitude'], pts, vals)
    sample = gen.build_ungridded(['latitude', 'longitude'], [[10., 0.], [10., 100.]], [1., 2.], var='s')
    data.save_data(os.path.join(folder, 'data.nc'))
    sample.save_data(os.path.join(folder, 'sample.nc'))
    out = os.path.join(folder, 'out.nc')
    for action in case['actions']:
        ctx.tag(action)
        # Arguments can only be given on the command line of a collocation
        options = {}
        if action == 'cis collocate' and k is not None and k['init'] != 'none':
            options = {o: case[o] for o in ('factor', 'extra') if case[o] is not None}
        good = exists and not (k is not None and k['init'] == 'needed' and 'factor' not in options)
        if exists and not good:
            ctx.tag('without its arguments')
        init = 'none' if k is None else k['init']
        factor = options.get('factor', 2. if init == 'default' else 1.)
        extra = options.get('extra', 0.)
        error = None
        if os.path.exists(out):
            os.remove(out)
        try:
            if action == 'aggregate':
                got = data.aggregate(how=name, latitude=[0, 20, 20], longitude=[-50, 150, 100])
            elif action == 'collocate':
                got = data.collocated_onto(sample, how='box', kernel=name, h_sep=500)
            else:
                written = name + ('[' + ','.join('%s=%s' % o for o in sorted(options.items())) + ']' if options else '')
                if action == 'cis aggregate':
                    res = cli.run(['aggregate', 'rain:%s:kernel=%s' % (cli.escape(os.path.join(folder, 'data.nc')), name),
                                   'latitude=[0,20,20],longitude=[-50,150,100]', '-o', out])
                else:
                    res = cli.run(['collocate', 'rain:' + cli.escape(os.path.join(folder, 'data.nc')), '%s:collocator=box[h_sep=500km],kernel=%s' % (
                        cli.escape(os.path.join(folder, 'sample.nc')), written), '-o', out])
                if not res.ok:
                    error = res
                else:
                    got = cis.read_data_list(out, ['rain', 'number'] if k is not None and k['several'] else ['rain'])
        except Exception as e:
            error = e
        what = '%s with kernel %s %s' % (action, name, options or '')
        if error is not None:
            check(not good, '%s: %s: %s', what, type(error).__name__, error)
            check(not os.path.exists(out), '%s: a file was made although there is no such kernel', what)
            if not exists:
                check(name in str(error) or isinstance(error, cli.Outcome) and name in repr(error.err), '%s: the error does not name it: %s', what, error)
            continue
        check(good, '%s: worked, although it %s', what, 'does not exist' if not exists else 'needs an argument')
        try:
            outputs = list(got) if isinstance(got, list) else [got]
        except TypeError:
            outputs = [got]
        if k is None:
            want = [[max(g) for g in case['groups']]]
        else:
            want = [[formula(k['form'], g, factor, extra) for g in case['groups']]]
            if k['several']:
                want.append([float(len(g)) for g in case['groups']])
        by_name = {o.var_name: o for o in outputs}
        for var, w in zip(['rain', 'number'], want):
            check(var in by_name, '%s: gave %s, without %s', what, sorted(by_name), var)
            v = gen.filled(by_name[var].data).ravel()
            check(gen.same(v, w), '%s: %s %s instead of %s', what, var, v, w)


SUBS = [Sub('products', product_cases(), product_decide, quick=2000, thorough=40000),
        Sub('kernels', kernel_cases(), kernel_decide, quick=700, thorough=12000)]
