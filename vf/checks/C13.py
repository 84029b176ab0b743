"""The aggregate and collapse commands, from their arguments to their output files."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from vf import gen, cli
from vf.core import Sub, check
from vf.checks import C05, C06, C07, C12

PROPERTY = dict(
    title='Aggregate and collapse commands work on the ranges as typed',
    statement=""""cis aggregate" and "cis collapse" save the statistics named by the kernel option (mean, deviation and count if
    there is none) of all of the given variables over the coordinates given, with the grid meant by each start,end,step: numbers
    in any notation, dates whose start is the earliest and whose end is the latest instant compatible with what was typed,
    and steps as ISO 8601 periods. Coordinates named without a grid are collapsed completely, dimensions of gridded data may be
    separated by spaces or commas, and the input files are never changed.""",
    text='all variables, grids, kernels and ways of writing them',
    why="""The tests of the commands need sample files which are not part of the repository.""",
    files=['cis/cis_main.py', 'cis/parse.py', 'cis/parse_datetime.py'],
    mechanism=[('aggregate_cmd, collapse_cmd', 'cis/cis_main.py'), ('get_aggregate_grid', 'cis/parse.py'),
               ('_parse_datetime_delta', 'cis/parse_datetime.py')],
    observe=['cis aggregate', 'cis collapse'],
    note="""Hypothesis cases run through the command line in one process, their output files compared with aggregation over the
    numbers the arguments denote (which C05 and C06 decide). Periods of months and years, whose length is not settled by the
    documentation, are not generated.""")

RULE = 'A case is a set of files, a grid and a kernel. Non-trivial: the output holds two different values.'


@st.composite
def periods(draw):
    """[seconds, text] of a period between 15 minutes and some days."""
    d, h, m, s = [draw(st.sampled_from(v)) for v in ([0, 0, 1, 2, 10], [0, 0, 1, 6, 12], [0, 0, 15, 30], [0, 0, 0, 45])]
    if draw(st.integers(0, 2)) == 0:
        # (in one of the units only, which may go beyond a whole one of the next)
        d, h, m, s = draw(st.sampled_from([(0, 0, 120, 0), (0, 0, 1440, 0), (0, 100, 0, 0), (0, 240, 0, 0), (0, 36, 0, 0), (0, 0, 0, 5400),
                                           (0, 0, 0, 86400), (100, 0, 0, 0), (0, 0, 90, 0), (0, 0, 0, 3600)]))
    if not (d or h or m >= 15):
        h = 6
    text = 'P'
    if d:
        text += '%dD' % d
    if h or m or s:
        text += draw(st.sampled_from(['T', 'T', ':', ' '])) + ''.join('%d%s' % (v, u) for v, u in ((h, 'H'), (m, 'M'), (s, 'S')) if v)
    if draw(st.booleans()):
        text = text.lower()
    return [d * 86400 + h * 3600 + m * 60 + s, text]


@st.composite
def cases(draw):
    f = draw(cli.files(st, kinds=['ungridded'], time0=C07.T0, points_kw=dict(max_n=10)))
    d = f['data']
    k = {c: i for i, c in enumerate(d['coords'])}
    if 'time' in k:
        for p in d['pts']:
            p[k['time']] = round(p[k['time']] * 8) / 8.
    spec = []
    for c in d['coords']:
        if draw(st.integers(0, 3)) == 0:
            continue
        x = gen.col(d, c)
        # (coordinates are saved under their standard names)
        name = draw(st.sampled_from([n for n in C05.NAMES[c] if n != gen.VAR[c] or n == c]))
        style = draw(st.integers(0, 7))
        if draw(st.integers(0, 5)) == 0:
            spec.append([c, name, None, None, None, style])
            continue
        if c == 'time':
            n = draw(st.integers(1, 4))
            lo = draw(C12.dates(list(x)))
            step = draw(periods())
            if draw(st.integers(0, 2)):
                days = int((max(x) - min(x)) // n) + 1
                lo, step = list(C07.to_datetime(min(x)).timetuple()[:draw(st.integers(3, 6))]), [days * 86400, draw(st.sampled_from(
                    ['P%dD' % days, 'PT%dH' % (days * 24), 'PT%dM' % (days * 1440), 'PT%dS' % (days * 86400)]))]
            start = C07.partial_range(lo)[0]
            end = start + datetime.timedelta(seconds=step[0] * n)
            hi = list(end.timetuple()[:draw(st.integers(1, 6))])
            if C07.partial_range(hi)[1] <= start or (C07.partial_range(hi)[1] - start).total_seconds() > 60 * step[0]:
                hi = list(end.timetuple()[:6])
            spec.append([c, name, lo, hi, step, style])
            continue
        unit = {'latitude': 1, 'longitude': 1, 'altitude': 50, 'air_pressure': 25}[c]
        step = unit * draw(st.sampled_from([1, 2.5, 3, 5, 10, 20, 45]))
        n = draw(st.integers(1, 5))
        start = float(np.floor(draw(st.sampled_from(list(x))) / unit) * unit - step * draw(st.integers(0, n - 1)))
        if draw(st.integers(0, 2)):
            # Most of the points
            step = unit * max(1., np.ceil((max(x) - min(x)) / unit / n))
            start = float(np.floor(min(x) / unit) * unit)
        if c == 'latitude':
            start = max(start, -90.0)
            n = min(n, int((90 - start) // step))
            if n < 1:
                start, n, step = -90.0, 3, 60.0
        if c == 'longitude' and n * step > 360:
            n, step = 6, 60.0
        spec.append([c, name, start, start + n * step, step, style])
    if not spec:
        spec.append([d['coords'][0], C05.NAMES[d['coords'][0]][0], None, None, None, 0])
    return dict(files=f, spec=spec, kernel=draw(st.sampled_from(['', 'moments', 'mean', 'min', 'max', 'sum', 'stddev'])),
                alias=draw(st.booleans()), swap=draw(st.booleans()))


def spec_text(s):
    c, name, lo, hi, step, style = s
    if lo is None:
        return name
    if c == 'time':
        return '%s=[%s,%s,%s]' % (name, C12.date_text(lo, style), C12.date_text(hi, style), step[1])
    return '%s=[%s]' % (name, ','.join(cli.number(v, style) for v in (lo, hi, step)))


def run(case, ctx, args, want, wanted, paths, out):
    before = [cli.stamp(p) for p in paths]
    res = cli.run(args)
    check([cli.stamp(p) for p in paths] == before, 'an input file was changed by %s', args)
    check(res.ok, 'the command %s failed: %r', args, res)
    check(os.path.exists(out), 'the command %s wrote no file', args)
    want = want if isinstance(want, list) else [want]
    with ctx.sut('reading the output of %s' % args):
        got = cli.read_back(out, want)
        for g, w in zip(got, want):
            check(list(g.shape) == [n for n in w.shape] or list(g.shape) == [n for n in w.shape if n > 1], '%s: shape %s, not %s',
                  args, g.shape, w.shape)
            check(gen.same(gen.filled(g.data).ravel(), gen.filled(w.data).ravel(), rtol=1e-8, atol=1e-9),
                  '%s: %s is %s, not %s', args, w.var_name, g.data, w.data)
            for c in w.coords():
                h = g.coord(c.name())
                check(gen.same(np.ravel(h.points), np.ravel(c.points), rtol=1e-12, atol=1e-8), '%s: %s at %s, not %s', args, c.name(),
                      h.points, c.points)
                check(gen.same(np.ravel(h.bounds), np.ravel(c.bounds), rtol=1e-12, atol=1e-8) if c.has_bounds() else
                      not h.has_bounds(), '%s: cells of %s %s, not %s', args, c.name(), h.bounds, c.bounds)
            check((g.long_name or '') == (w.long_name or '') and str(g.units) == str(w.units) and
                  (g.standard_name or '') == (w.standard_name or ''), '%s: metadata of %s', args, w.var_name)
    a = gen.filled(want[0].data).ravel()
    ctx.nontrivial(len(set(a[~np.isnan(a)])) > 1)


def options(case, given):
    opts = [given] if given else []
    if case['kernel']:
        opts.append('kernel=' + case['kernel'])
    if given and '=' not in given and case['kernel']:
        opts[0] = 'product=' + given
    if case['swap']:
        opts = opts[::-1]
    # (with two possible options the keyword is needed)
    opts = [o if '=' in o else 'product=' + o for o in opts]
    return [','.join(opts)] if opts else []


def in_memory(case, ctx):
    """Decides what the same grid gives in memory."""
    spec = {}
    for c, name, lo, hi, step, style in case['spec']:
        if lo is not None:
            if c == 'time':
                lo, hi = [(t - C07.EPOCH) / datetime.timedelta(days=1) for t in (C07.partial_range(lo)[0], C07.partial_range(hi)[1])]
                step = step[0] / 86400.
            spec[c] = dict(start=lo, end=hi, step=float(step), style=2 if c == 'time' else 0, name=c)
    f = case['files']
    C05.decide(dict(data=f['data'], spec=spec, kernel=case['kernel'], vals2=f['more'][0] if f['more'] else None), cli.Quiet(ctx))


def decide(case, ctx):
    in_memory(case, ctx)
    folder = ctx.dir()
    with ctx.sut('writing the input'):
        names, spelt, given, wanted, paths = cli.write(case['files'], folder)
    out = os.path.join(folder, 'out.nc')
    spec = case['spec'][::-1] if case['swap'] else case['spec']
    args = ['agg' if case['alias'] else 'aggregate', ':'.join([names, spelt] + options(case, given)),
            ','.join(spec_text(s) for s in spec), '-o', out]
    kw = {}
    for c, name, lo, hi, step, style in spec:
        if lo is None:
            kw[name] = None
        elif c == 'time':
            kw[name] = slice(C07.partial_range(lo)[0], C07.partial_range(hi)[1], datetime.timedelta(seconds=step[0]))
        else:
            kw[name] = slice(lo, hi, step)
    with ctx.sut('aggregate(%r)' % kw):
        want = cli.listed(wanted).aggregate(how=case['kernel'] or 'moments', **kw)
    ctx.tag('kernel ' + case['kernel'])
    run(case, ctx, args, want, wanted, paths, out)


@st.composite
def collapses(draw):
    f = draw(cli.files(st, kinds=['gridded'], grid_kw=dict(max_n=4, bounds=False)))
    dims = draw(st.lists(st.sampled_from(f['data']['dims']), min_size=1, max_size=3, unique=True))
    names = [draw(st.sampled_from([d, d, gen.VAR[d]] + ([gen.AXIS[d].lower()] if d != 'air_pressure' else []))) for d in dims]
    return dict(files=f, dims=names, over=dims, kernel=draw(st.sampled_from(['', 'moments', 'mean', 'min', 'max', 'sum'])),
                swap=draw(st.booleans()), command=draw(st.sampled_from(['collapse', 'collapse', 'aggregate'])),
                commas=draw(st.booleans()), alias=False)


def decide_collapse(case, ctx):
    C06.decide(dict(grid=case['files']['data'], coords=case['over'], names=case['over'], two=False, kernel=case['kernel'] or None),
               cli.Quiet(ctx))
    folder = ctx.dir()
    with ctx.sut('writing the input'):
        names, spelt, given, wanted, paths = cli.write(case['files'], folder)
    out = os.path.join(folder, 'out.nc')
    dims = [','.join(case['dims'])] if case['commas'] or case['command'] == 'aggregate' else case['dims']
    kernel = case['kernel']
    args = [case['command'], ':'.join([names, spelt] + options(case, given))] + dims + ['-o', out]
    with ctx.sut('collapsed(%r, %r)' % (case['dims'], kernel)):
        want = cli.listed(wanted).collapsed(case['dims'], how=kernel) if kernel else cli.listed(wanted).collapsed(case['dims'])
    ctx.tag(case['command'], 'kernel ' + kernel)
    run(case, ctx, args, want, wanted, paths, out)


SUBS = [Sub('aggregate', cases(), decide, quick=330, thorough=8000),
        Sub('collapse', collapses(), decide_collapse, quick=220, thorough=5000)]
