"""Which files a command reads, and what it may write."""
import fnmatch
import gc
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen, cli
from vf.core import Sub, check

PROPERTY = dict(
    title='Commands read exactly the files named and overwrite nothing unasked',
    statement="""Files given as a comma separated list of names, directories and wildcards, colons escaped, stand for the existing
    files in the order given, those of a directory or wildcard sorted and none twice or a directory; a name which does not exist or a
    wildcard matching nothing is refused. An output is given the .nc extension if it has none, is written over an existing file only
    if asked for by the option, the environment or the answer to the prompt, and never over a file the command reads, however either
    is spelt or linked. Over any sequence of commands every file thus holds what the last command allowed to write it made of its
    inputs, and commands that are declined or fail leave all files as they were.""",
    text='all sequences of commands, spellings of files, answers and existing files',
    why="""The tests try single commands with one existing file, without links, wildcards with directories or failing commands.""",
    files=['cis/parse.py', 'cis/data_io/data_reader.py', 'cis/cis_main.py', 'cis/data_io/write_netcdf.py'],
    mechanism=[('expand_filelist', 'cis/data_io/data_reader.py'), ('_validate_output_file', 'cis/parse.py'),
               ('_output_file_matches_an_input_file', 'cis/parse.py'), ('_file_already_exists_and_no_overwrite', 'cis/parse.py'),
               ('parse_colon_and_comma_separated_arguments', 'cis/parse.py')],
    observe=['cis subset, eval, collocate, stats and their output files', 'cis.data_io.data_reader.expand_filelist'],
    note="""Hypothesis file trees, and sequences of commands against a model of the files.""")

RULE = ('A case is a tree of files with ways to name some, or a sequence of commands. Non-trivial: two ways overlap or one names several '
        'files; a command wrote over a file another one had written, or was refused or declined for a file that exists.')

FILES = ['a.nc', 'b.nc', 'b2.nc', 'c d.nc', 'e:1.nc', 'B.nc', 'z.txt', '.h.nc', 'a.nc.bak', 'ab.nc', '10.nc', '9.nc']
DIRS = ['', 'one', 'two:x', 'one/in', 'b.d']
PATTERNS = ['*', '*.nc', '?.nc', '[ab]*.nc', 'b*', '*[0-9].nc', 'e*', 'none*', '?*.d*']


@st.composite
def trees(draw):
    files = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(FILES)).map(list), min_size=1, max_size=9,
                          unique_by=lambda f: tuple(f)))
    dirs = sorted(set(d for d, f in files) - {''})
    element = [st.sampled_from(files).map(lambda f: ['file'] + f), st.tuples(st.just('wild'), st.sampled_from([''] + dirs),
                                                                            st.sampled_from(PATTERNS)).map(list)]
    if dirs:
        element.append(st.sampled_from(dirs).map(lambda d: ['dir', d, draw(st.sampled_from(['', '/']))]))
    if draw(st.integers(0, 9)) == 0:
        element.append(st.tuples(st.just('file'), st.sampled_from(['', 'one']), st.sampled_from(FILES)).map(list))
    return dict(files=files, named=draw(st.lists(st.one_of(*element), min_size=1, max_size=4)), how=draw(st.sampled_from(
        ['list', 'text', 'cli', 'cli'])))


def inside(tree, folder):
    """The names of the files and of the directories within a directory."""
    files = [f for d, f in tree if d == folder]
    dirs = set()
    for d, _ in tree:
        if d != folder and (d.startswith(folder + '/') or not folder) and d:
            dirs.add(d[len(folder) + 1 if folder else 0:].split('/')[0])
    return files, dirs


def join(*parts):
    return '/'.join(p for p in parts if p)


def decide_files(case, ctx):
    from cis.data_io.data_reader import expand_filelist
    from cis.parse import parse_args
    root = ctx.dir()
    for d, f in case['files']:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        open(os.path.join(root, d, f), 'w').close()
    want, texts, several = [], [], False
    for e in case['named']:
        if e[0] == 'file':
            found = [join(root, e[1], e[2])] if [e[1], e[2]] in case['files'] else None
            texts.append(join(root, e[1], e[2]))
        elif e[0] == 'dir':
            found = [join(root, e[1], f) for f in sorted(inside(case['files'], e[1])[0])]
            texts.append(join(root, e[1]) + e[2])
        else:
            names = inside(case['files'], e[1])[0]
            # (as shells do, wildcards leave out names starting with a dot)
            found = [join(root, e[1], f) for f in sorted(names) if fnmatch.fnmatchcase(f, e[2]) and not f.startswith('.')]
            texts.append(join(root, e[1], e[2]))
        if found is None:
            want = None
            break
        several = several or len(found) > 1 or any(f in want for f in found)
        want += [f for f in found if f not in want]
    if want is None:
        texts = [join(root, e[1], e[2]) if e[0] != 'dir' else join(root, e[1]) + e[2] for e in case['named']]
    ctx.tag(case['how'])
    if case['how'] == 'cli':
        args = ['info', cli.escape(','.join(texts))]
        import contextlib
        import io
        got = None
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                got = parse_args(args).datagroups[0]['filenames']
            except SystemExit as e:
                check(e.code, 'status %r', e.code)
            except Exception as e:
                with ctx.sut('files %s' % texts):
                    raise
        if not want:
            check(got is None, '%s gave %s', texts, got)
            return
        check(got is not None, '%s was refused', texts)
    else:
        try:
            got = expand_filelist(texts if case['how'] == 'list' else ','.join(texts))
        except ValueError:
            check(want is None, '%s was refused', texts)
            return
        check(want is not None, '%s gave %s', texts, got)
    check(got == want, '%s is %s, not %s', texts, got, want)
    ctx.nontrivial(several)


# --- Sequences of commands -------------------------------------------------------------------------------------------

START = ['a.nc', 'b.nc', 'sub/c.nc']
OUTS = ['a', 'a.nc', 'b.nc', 'sub/c.nc', 'sub/../a.nc', './b', 'new', 'new.nc', 'other.nc', 'sub/new', 'link.nc', 'hard.nc', 'sub/link',
        'missing/x.nc']
INS = ['a.nc', 'b.nc', 'sub/c.nc', 'new.nc', './a.nc', 'link.nc', 'hard.nc', 'other.nc', 'sub', '*.nc', 'sub/new.nc', 'a.nc,b.nc']


@st.composite
def histories(draw):
    def step():
        return dict(command=draw(st.sampled_from(['eval', 'eval', 'subset', 'subset', 'col', 'stats', 'fail'])),
                    src=draw(st.sampled_from(INS)), src2=draw(st.sampled_from(INS)), out=draw(st.sampled_from(OUTS)),
                    k=draw(st.integers(1, 9)), lo=draw(st.integers(-2, 6)), force=draw(st.integers(0, 4)) == 0, absolute=draw(st.booleans()),
                    env=draw(st.sampled_from([None, None, None, 'TRUE', 'true', 'FALSE', 'false'])),
                    answers=draw(st.lists(st.sampled_from(['y', 'y', 'y', 'n', '', 'yes', 'Y', 'no']), max_size=3)),
                    fail=draw(st.sampled_from(['variable', 'limits', 'product', 'file', 'expression', 'empty'])))
    return dict(links=dict(link=draw(st.sampled_from(['a.nc', 'b.nc', 'other.nc'])), hard=draw(st.sampled_from(['a.nc', 'b.nc'])),
                           sublink=draw(st.sampled_from(['../a.nc', '../b.nc', 'c.nc']))),
                steps=[step() for _ in range(draw(st.integers(1, 6)))])


def read(path):
    """(latitudes, values of v) of a file, or the other variables' names."""
    import netCDF4
    with netCDF4.Dataset(path) as nc:
        if 'v' not in nc.variables:
            return sorted(nc.variables)
        v = nc.variables['v'][...]
        return [float(x) for x in np.ma.ravel(nc.variables['latitude'][...])], gen.filled(v).ravel().tolist()


def decide_history(case, ctx):
    root = os.path.realpath(ctx.dir())
    back = os.getcwd()
    os.chdir(root)
    try:
        history(case, ctx, root)
    finally:
        os.chdir(back)


def history(case, ctx, root):
    os.makedirs('sub')
    for i, f in enumerate(START):
        d = dict(coords=['latitude', 'longitude'], pts=[[float(j), 2. * j] for j in range(4)],
                 vals=[float(j * j + 10 * i) for j in range(4)], force_mask=False)
        gen.make(d, var='v', standard_name=None).save_data(f)
    os.symlink(case['links']['link'], 'link.nc')
    os.symlink(case['links']['sublink'], 'sub/link.nc')
    os.link(case['links']['hard'], 'hard.nc')
    model = {}
    refresh(model)
    interesting = False
    for n, s in enumerate(case['steps']):
        sources = resolve(s['src'])
        outputs = s['out'] if os.path.splitext(s['out'])[1] else s['out'] + '.nc'
        readable = sources and all(os.path.exists(f) for f in sources)
        both = readable
        src, src2, out = [cli.escape(','.join(os.path.join(root, p) for p in x.split(',')) if s['absolute'] else x)
                          for x in (s['src'], s['src2'], s['out'])]
        inputs = list(sources)
        command = s['command']
        if command == 'eval':
            args = ['eval', 'v:' + src, 'v+%d' % s['k'], '1', '-o', 'v:' + out]
        elif command == 'subset':
            args = ['subset', 'v:' + src, 'latitude=[%d,%d]' % (s['lo'], s['lo'] + 2), '-o', out]
        elif command == 'col':
            others = resolve(s['src2'])
            inputs += others
            both = both and others and all(os.path.exists(f) for f in others)
            args = ['col', 'v:' + src, src2 + ':collocator=box[h_sep=1km],kernel=mean', '-o', out]
        elif command == 'stats':
            others = resolve(s['src2'])
            inputs += others
            both = both and others and all(os.path.exists(f) for f in others)
            args = ['stats', 'v:' + src, 'v:' + src2, '-o', out]
        else:
            args = {'variable': ['subset', 'nothing:' + src, 'latitude=[0,3]'], 'limits': ['subset', 'v:' + src, 'latitude=[0,a]'],
                    'product': ['subset', 'v:' + src + ':product=none', 'latitude=[0,3]'],
                    'file': ['subset', 'v:%s,gone.nc' % src, 'latitude=[0,3]'],
                    'expression': ['eval', 'v:' + src, 'v+w', '1'], 'empty': ['subset', 'v:' + src, 'latitude=[50,60]']}[s['fail']]
            args += ['-o', out]
        if s['force']:
            args = args + ['--force-overwrite'] if s['lo'] % 2 else ['--force-overwrite'] + args
        exists = os.path.isfile(outputs)
        # What may be read, and whether it may be written
        answer = next((a for a in s['answers'] if a in ('y', 'n', '')), None)
        allowed = not exists or s['force'] or (s['env'].lower() == 'true' if s['env'] else answer == 'y')
        clash = exists and any(os.path.exists(f) and os.path.samefile(f, outputs) for f in inputs)
        want = None
        if both and allowed and not clash and command != 'fail' and os.path.isdir(os.path.dirname(os.path.abspath(outputs))):
            want = wanted(s, command, model, sources, inputs[len(sources):])
        before = {p: cli.stamp(p) for p in paths()}
        with np.errstate(all='ignore'):
            res = cli.run(args, s['answers'], s['env'])
        if res.error is not None:
            # (a command's process would end here; HDF5 refuses to write files which the process still has open)
            res.error = RuntimeError(repr(res.error))
        gc.collect()
        what = '%s (step %d, answers %s, environment %s)' % (args, n, s['answers'], s['env'])
        if both and exists and not s['force'] and not s['env'] and command != 'fail':
            wait = next((i + 1 for i, a in enumerate(s['answers']) if a in ('y', 'n', '')), len(s['answers']))
            check(res.prompts == wait, '%d of the answers read by %s', res.prompts, what)
            if answer in ('n', ''):
                check(res.code == 0 and res.error is None, 'declined but %r: %s', res, what)
        elif s['force'] or s['env'] or not exists:
            check(res.prompts == 0, 'an answer was read by %s', what)
        if want is None:
            after = {p: cli.stamp(p) for p in paths()}
            check(after == before, 'files %s changed by %s', [p for p in set(after) | set(before) if after.get(p) != before.get(p)], what)
            if not (both and exists and not allowed):
                check(not res.ok or (exists and not allowed), '%s succeeded: %r', what, res)
            interesting = interesting or (exists and command != 'fail' and bool(both))
            ctx.tag('clash' if clash and both else 'declined' if both and not allowed else 'failed')
        elif want == 'unknown':
            refresh(model)
        else:
            check(res.ok, '%s failed: %r', what, res)
            check(os.path.isfile(outputs), 'no output of %s', what)
            got = read(outputs)
            if want == 'stats':
                check('num_points' in got, '%s in the output of %s', got, what)
            else:
                check(isinstance(got, tuple) and got[0] == want[0] and gen.same(got[1], want[1]), '%s in the output of %s, not %s', got,
                      what, want)
            same = os.stat(outputs)
            for p, b in before.items():
                if os.path.realpath(p) == os.path.realpath(outputs) or os.path.samefile(p, outputs):
                    continue
                check(cli.stamp(p) == b, '%s was changed by %s', p, what)
            new = set(paths()) - set(before)
            check(all(os.path.samefile(p, outputs) for p in new), 'files %s made by %s', new, what)
            interesting = interesting or exists
            ctx.tag(command + (' over' if exists else ''))
            refresh(model)
    ctx.nontrivial(interesting)


def paths():
    return sorted(os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs if os.path.exists(os.path.join(d, f)))


def refresh(model):
    model.clear()
    for p in paths():
        model[os.path.realpath(p)] = read(p)


def resolve(text):
    import glob
    out = []
    for t in text.split(','):
        if '*' in t:
            out += sorted(f for f in glob.glob(t) if os.path.isfile(f))
        elif os.path.isdir(t):
            out += [os.path.join(t, f) for f in sorted(os.listdir(t)) if os.path.isfile(os.path.join(t, f))]
        else:
            out.append(t)
    return out


def wanted(s, command, model, sources, others):
    """What the output should hold, 'stats', or None if the command cannot work."""
    def data(files):
        parts = [model[os.path.realpath(f)] for f in files]
        if not all(isinstance(p, tuple) for p in parts):
            return None
        return [x for p in parts for x in p[0]], [x for p in parts for x in p[1]]
    a = data(sources)
    b = data(others) if others else None
    if a is None or (others and b is None):
        return None
    if command == 'eval':
        return a[0], [x + s['k'] for x in a[1]]
    if command == 'subset':
        keep = [i for i, x in enumerate(a[0]) if s['lo'] <= x <= s['lo'] + 2]
        return ([a[0][i] for i in keep], [a[1][i] for i in keep]) if keep else None
    if command == 'stats':
        if len(a[1]) != len(b[1]):
            return None
        ok = [(x, y) for x, y in zip(a[1], b[1]) if x == x and y == y]
        if len(ok) < 3 or len(set(x for x, _ in ok)) < 2 or len(set(y for _, y in ok)) < 2:
            return 'unknown'
        return 'stats'
    # The mean of those at the same latitude
    out = []
    for lat in b[0]:
        v = [y for x, y in zip(*a) if x == lat and y == y]
        out.append(sum(v) / len(v) if v else float('nan'))
    return b[0], out


# --- Outputs named as one of several inputs, gridded ones among them (which are read late, if at all) -----------------------

GRIDS = ['a.nc', 'b.nc', 'sub/c.nc', 'd.nc']


@st.composite
def clashes(draw):
    command = draw(st.sampled_from(['col', 'col', 'eval', 'eval', 'subset', 'aggregate', 'stats']))
    n = {'col': 2, 'stats': 2, 'eval': 2, 'subset': 1, 'aggregate': 1}[command]
    files = draw(st.permutations(GRIDS))[:n]
    return dict(command=command, files=files, points=draw(st.booleans()), product=draw(st.booleans()), variable=draw(st.booleans()),
                pad=draw(st.integers(0, 2)) == 0,
                out=draw(st.sampled_from(files + files + files + GRIDS + ['link.nc', 'hard.nc', 'new.nc'])),
                style=draw(st.sampled_from(['plain', 'dot', 'absolute', 'noext', 'updown'])), links=draw(st.permutations(GRIDS))[:2])


def decide_clash(case, ctx):
    root = os.path.realpath(ctx.dir())
    back = os.getcwd()
    os.chdir(root)
    try:
        clash(case, ctx, root)
    finally:
        os.chdir(back)


def clash(case, ctx, root):
    os.makedirs('sub')
    command, files = case['command'], case['files']
    grid = dict(dims=['latitude', 'longitude'], points=dict(latitude=[0., 10.], longitude=[0., 10., 20.]))
    for i, f in enumerate(GRIDS):
        if case['points'] and f == files[-1] and len(files) > 1 and command == 'col' or (command == 'stats' and case['points']):
            gen.make(dict(coords=['latitude', 'longitude'], pts=[[10. * (j % 2), 5. * j] for j in range(5)],
                          vals=[float(j * j + i) for j in range(5)], force_mask=False), var='v', standard_name=None).save_data(f)
        else:
            from iris.coords import DimCoord
            from iris.cube import Cube
            from cis.data_io.gridded_data import make_from_cube
            cs = [(DimCoord(grid['points'][d], standard_name=d, var_name=gen.VAR[d], units='degrees'), k) for k, d in enumerate(grid['dims'])]
            make_from_cube(Cube(np.arange(6.).reshape(2, 3) ** 2 + i, var_name='v', long_name='v', units='1',
                                dim_coords_and_dims=cs)).save_data(f)
    os.symlink(case['links'][0], 'link.nc')
    os.link(case['links'][1], 'hard.nc')
    out = case['out']
    written = out
    style = case['style']
    spelt = {'plain': out, 'dot': './' + out, 'absolute': os.path.join(root, out), 'noext': out[:-3],
             'updown': 'sub/../' + out}[style]
    what = 'grid' if not (case['points'] and command == 'stats') else 'points'
    product = {'grid': 'NetCDF_Gridded', 'points': 'cis'}[what]
    group = lambda f: 'v:' + f + (':product=' + product if case['product'] else '')
    if command == 'col':
        options = ['collocator=nn'] if not (case['points'] and len(files) > 1) else ['collocator=lin']
        if case['variable']:
            options.insert(0, 'variable=v')
        args = ['col', group(files[0]), files[1] + ':' + ','.join(options)]
    elif command == 'eval':
        args = ['eval'] + ['v=%s:%s' % (x, f) for x, f in zip('xy', files)] + ['x+y', '1']
        spelt = 'w:' + spelt
    elif command == 'subset':
        args = ['subset', group(files[0]), 'x=[0,10]']
    elif command == 'aggregate':
        args = ['aggregate', group(files[0]) + (',kernel=mean' if case['product'] else ':kernel=mean'), 'x']
    else:
        args = ['stats'] + [group(f) for f in files]
    args = ['--force-overwrite'] + args + ['-o', spelt] if case['pad'] else args + ['-o', spelt, '--force-overwrite']
    before = {p: cli.stamp(p) for p in paths()}
    exists = os.path.isfile(written)
    same = exists and any(os.path.samefile(f, written) for f in files)
    with np.errstate(all='ignore'):
        res = cli.run(args)
    if res.error is not None:
        res.error = RuntimeError(repr(res.error))
    gc.collect()
    after = {p: cli.stamp(p) for p in paths()}
    changed = sorted(p for p in set(after) | set(before) if after.get(p) != before.get(p))
    ctx.tag(command, 'clash' if same else 'free')
    if same:
        check(not changed, 'files %s, one of which it reads, changed by %s', changed, args)
        check(not res.ok, '%s succeeded', args)
    else:
        check(res.ok, '%s failed: %r', args, res)
        check(os.path.isfile(written) and changed, 'no output of %s', args)
        check(all(os.path.samefile(p, written) for p in changed), 'files %s changed by %s', changed, args)
    ctx.nontrivial(exists)


SUBS = [Sub('files', trees(), decide_files, quick=1200, thorough=20000),
        Sub('history', histories(), decide_history, quick=250, thorough=5000),
        Sub('clash', clashes(), decide_clash, quick=200, thorough=5000)]
