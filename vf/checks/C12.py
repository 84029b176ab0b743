"""The subset command, from its arguments to its output file."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen, cli
from vf.core import Sub, check
from vf.checks import C07, C08

PROPERTY = dict(
    title='The subset command selects what its arguments say',
    statement=""""cis subset" reads the given variables (lists and wildcards) from the given files (comma-separated lists, folders
    and wildcards, with escaped colons) and saves exactly the part of all of them which lies within the limits as typed: numbers
    in any notation, one value standing for both ends, and dates of which any trailing part may be left out, meaning the earliest
    such instant as a start and the latest such instant as an end, with T, a colon or a space before the time, and WKT
    shapes. If nothing is left it fails and writes no file; the input files are never changed.""",
    text='all variables, files, limits and ways of writing them',
    why="""The tests of the command need sample files which are not part of the repository, and spell dates in full.""",
    files=['cis/cis_main.py', 'cis/parse.py', 'cis/parse_datetime.py', 'cis/subsetting/subset.py', 'cis/data_io/data_reader.py'],
    mechanism=[('subset_cmd', 'cis/cis_main.py'), ('get_subset_limits', 'cis/parse.py'),
               ('parse_datetime, parse_partial_datetime', 'cis/parse_datetime.py'),
               ('expand_filelist', 'cis/data_io/data_reader.py')],
    observe=['cis subset'],
    note="""Hypothesis cases run through the command line in one process, their output files compared with subsetting by the numbers
    and instants the arguments denote (which C07 and C08 decide). Years after 1000.""")

# Names which files may give their coordinates
CAPITALS = {'latitude': ['Lat', 'LAT', 'nav_Lat'], 'longitude': ['Lon', 'XDim'], 'altitude': ['Alt', 'Level1'], 'time': ['Time', 'TIME']}

RULE = 'A case is a set of files and limits. Non-trivial: the command writes a file which holds part of the data only.'

# Februaries of years divisible by four with and without a 29th
CENTURIES = [(datetime.datetime(y, 2, 23) - C07.EPOCH).days - C07.T0 for y in (1900, 2000, 2100)]

SEPS = ['T', ' ', ':', 'T']


@st.composite
def dates(draw, vals):
    """Components of a date near one of the values."""
    date = C07.to_datetime(draw(st.sampled_from(vals)) + draw(st.sampled_from([0, 0, 0, 1, -1, 0.5])))
    return list(date.timetuple()[:draw(st.sampled_from([1, 2, 2, 3, 4, 5, 6]))])


@st.composite
def limits(draw, coords, value_of):
    out = []
    for c in draw(st.lists(st.sampled_from(coords), min_size=1, max_size=3, unique=True)):
        vals = value_of(c)
        # (coordinates are saved under their standard names)
        name = draw(st.sampled_from([n for n in C07.NAMES[c] if n != gen.VAR[c] or n == c]))
        style = draw(st.integers(0, 7))
        if c == 'time':
            lo = draw(dates(vals))
            hi = draw(dates(vals)) if draw(st.integers(0, 2)) else None
            if hi is not None and C07.partial_range(lo)[0] > C07.partial_range(hi)[1]:
                lo, hi = hi, lo
            out.append([c, name, lo, hi, style])
            continue
        lo, hi = C07.interval(draw, vals, 30 if c == 'longitude' else 10)
        if c == 'longitude':
            turn = draw(st.sampled_from([0, 0, -360, 360]))
            if draw(st.booleans()) and hi < lo + 360:
                lo, hi = hi, lo + 360.
            lo, hi = lo + turn, min(hi, lo + 300) + turn
        if draw(st.integers(0, 3)) == 0:
            lo, hi = draw(st.sampled_from(vals)), None
        out.append([c, name, lo, hi, style])
    return out


@st.composite
def cases(draw):
    case = draw(cli.files(st, time0=C07.T0, grid_kw=dict(max_n=4)))
    d = case['data']
    month = draw(st.sampled_from(C07.MONTHS + CENTURIES * 2))
    if case['kind'] == 'gridded':
        if 'time' in d['dims']:
            d['points']['time'] = [p + month for p in d['points']['time']]
        coords, value_of = [c for c in d['dims'] if c != 'air_pressure'], lambda c: d['points'][c]
    else:
        k = {c: i for i, c in enumerate(d['coords'])}
        if 'time' in k:
            for p in d['pts']:
                p[k['time']] = round(p[k['time']] * 8) / 8. + month
        coords, value_of = d['coords'], lambda c: [p[k[c]] for p in d['pts']]
    shape, lim = None, draw(limits(coords, value_of))
    if draw(st.integers(0, 3)) == 0 and (case['kind'] == 'ungridded' or d['dims'] in ([['latitude', 'longitude'], ['longitude',
                                                                                     'latitude']])):
        shape = draw(C07.polygons(value_of('longitude'), value_of('latitude')))
        xs = [p[0] for r in shape for p in r]
        shape = shape[:1] if max(xs) - min(xs) >= 300 else shape
        lim = [l for l in lim if l[0] != 'longitude']
    rename = {}
    if case['kind'] == 'gridded':
        for l in lim:
            if draw(st.integers(0, 2)) == 0:
                rename[l[0]] = l[1] = draw(st.sampled_from(CAPITALS[l[0]]))
    return dict(files=case, limits=lim, shape=shape, rename=rename, ext=draw(st.booleans()), alias=draw(st.booleans()),
                shape_first=draw(st.booleans()))


def date_text(p, style):
    text = '%04d' % p[0] + ''.join('-%0*d' % (2 if style & 4 else 1, v) for v in p[1:3])
    if len(p) > 3:
        text += SEPS[style % 4] + ':'.join('%02d' % v for v in p[3:])
    return text


def limit_text(l):
    c, name, lo, hi, style = l
    if c == 'time':
        ends = [date_text(p, style) for p in (lo, hi) if p is not None]
    else:
        ends = [cli.number(v, style) for v in (lo, hi) if v is not None]
    return '%s=[%s]' % (name, ','.join(ends))


def api_limits(case):
    kw = {}
    for c, name, lo, hi, style in case['limits']:
        if c == 'time':
            kw[name] = [C07.partial_range(lo)[0], C07.partial_range(lo if hi is None else hi)[1]]
        else:
            kw[name] = [lo, lo if hi is None else hi]
    if case['shape']:
        kw['shape'] = C07.wkt(case['shape'])
    return kw


def rename(names, wanted, paths):
    """Gives coordinate variables of the files other names."""
    import iris
    for path in paths if names else []:
        cubes = iris.load_raw(path)
        for cube in cubes:
            cube.data
            for c, name in names.items():
                cube.coord(c).var_name = name
        iris.save(cubes, path + '.new.nc')
        os.replace(path + '.new.nc', path)
    for w in wanted:
        for c, name in names.items():
            w.coord(c).var_name = name


def in_memory(case, ctx):
    """Decides what the same limits select in memory."""
    f, limits = case['files'], []
    for c, name, lo, hi, style in case['limits']:
        if c == 'time':
            lo, hi = [(t - C07.EPOCH) / datetime.timedelta(days=1) for t in
                      (C07.partial_range(lo)[0], C07.partial_range(lo if hi is None else hi)[1])]
        limits.append([c, c, 'datetime list' if c == 'time' else 'list', lo, lo if hi is None else hi])
    same = dict(limits=limits, shape=case['shape'], shape_first=case['shape_first'], two=False)
    if f['kind'] == 'gridded':
        C08.decide(dict(same, grid=f['data']), cli.Quiet(ctx))
    else:
        C07.decide(dict(same, data=f['data']), cli.Quiet(ctx))


def decide(case, ctx):
    in_memory(case, ctx)
    folder = ctx.dir()
    f = case['files']
    with ctx.sut('writing the input'):
        names, spelt, options, wanted, paths = cli.write(f, folder)
        rename(case.get('rename') or {}, wanted, paths)
    before = [cli.stamp(p) for p in paths]
    text = [limit_text(l) for l in case['limits']]
    if case['shape']:
        text.insert(0 if case['shape_first'] else len(text), 'shape=' + C07.wkt(case['shape']))
    out = os.path.join(folder, 'out')
    args = ['sub' if case['alias'] else 'subset', ':'.join([names, spelt] + ([options] if options else [])), ','.join(text), '-o',
            out + ('.nc' if case['ext'] else '')]
    ctx.tag(f['kind'], f['how'])
    kw = api_limits(case)
    with ctx.sut('subset(%r)' % kw):
        want = cli.listed(wanted).subset(**kw)
    res = cli.run(args)
    check([cli.stamp(p) for p in paths] == before, 'an input file was changed by %s', args)
    if want is None:
        check(not res.ok, 'nothing is within %s but the command succeeded', args)
        check(not os.path.exists(out + '.nc'), 'nothing is within %s but a file was written', args)
        ctx.nontrivial(False)
        return
    check(res.ok, 'the command %s failed: %r', args, res)
    check(os.path.exists(out + '.nc'), 'the command %s wrote no file', args)
    with ctx.sut('reading the output of %s' % args):
        got = cli.read_back(out + '.nc', want)
        for g, w in zip(got, want):
            cli.same_data(g, w, 'output %s of %s' % (w.var_name, args), names=True)
    ctx.nontrivial(np.ma.count(want[0].data) < np.ma.count(wanted[0].data) or want[0].data.size < wanted[0].data.size)


SUBS = [Sub('subset', cases(), decide, quick=500, thorough=12000)]
