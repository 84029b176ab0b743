"""Grids with very many cells (regular, and few points in them, so that what is expected is found by counting steps)."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

# name: lowest start, highest end, steps (short binary fractions), most cells
AXES = {'latitude': (-90., 90., [0.125, 0.25, 0.5, 1.], 700), 'longitude': (-180., 180., [0.125, 0.25, 0.5, 1.], 900),
        'altitude': (0., 4096., [1., 8., 64.], 500), 'time': (150000., 150400., [0.0625, 0.25, 1.], 500)}
MOST = 400000


@st.composite
def axes(draw, names=None, decreasing=True, least=2):
    """[name, start of the first cell, step, cells, decreasing] of the dimensions."""
    if names is None:
        names = draw(st.permutations(['latitude', 'longitude'] + draw(st.lists(st.sampled_from(['altitude', 'time']), max_size=1))))
    out, size = [], 1
    many = draw(st.integers(0, len(names) - 1))
    for i, name in sorted(enumerate(names), key=lambda e: e[0] != many):
        lo, hi, steps, most = AXES[name]
        step = draw(st.sampled_from(steps))
        n = int(min(most, (hi - lo) / step, MOST // size // (least if len(names) - len(out) > 1 else 1)))
        n = draw(st.integers(max(least, n // 2) if i == many or draw(st.booleans()) else least, max(n, least)))
        start = lo + step * draw(st.integers(0, int((hi - lo) / step) - n))
        size *= n
        out.append([name, start, step, n, decreasing and draw(st.integers(0, 3)) == 0])
    return sorted(out, key=lambda a: names.index(a[0]))


@st.composite
def points_in(draw, ax, most=40):
    """Cells (counted from the start) and quarters of a cell."""
    n = draw(st.integers(2, most))
    seed = draw(st.integers(0, 10 ** 6))
    rng = np.random.RandomState(seed)
    at = np.array([rng.randint(-1, a[3] + 1, n) if rng.rand() < 0.2 else rng.randint(0, a[3], n) for a in ax])
    for i, a in enumerate(ax):                # the ends matter most
        at[i] = np.where(rng.rand(n) < 0.3, a[3] - 1 - rng.randint(0, 2, n), at[i])
        if a[0] in ('latitude', 'longitude') and (a[1] <= AXES[a[0]][0] or a[1] + a[2] * a[3] >= AXES[a[0]][1]):
            at[i] = np.clip(at[i], 0, a[3] - 1)
    again = rng.rand(n) < 0.4
    at[:, again] = at[:, rng.randint(0, max(1, n // 3), again.sum())]
    return dict(at=at.T.tolist(), part=rng.randint(0, 4, at.T.shape).tolist(), vals=(rng.randint(-800, 800, n) / 8.).tolist())


def where(case, i):
    return [a[1] + a[2] * (k + q / 4.) for a, k, q in zip(case['axes'], case['at'][i], case['part'][i])]


def data_of(case):
    return dict(coords=[a[0] for a in case['axes']], pts=[where(case, i) for i in range(len(case['at']))], vals=case['vals'],
                shape=None, force_mask=False)


def centres(a):
    x = a[1] + a[2] * (np.arange(a[3]) + 0.5)
    return [float(v) for v in (x[::-1] if a[4] else x)]


def as_grid(ax, seed=0, circular=False):
    return dict(dims=[a[0] for a in ax], points={a[0]: centres(a) for a in ax}, bounds={}, circular=False, seed=seed, missing=[],
                force_mask=False)


def per_cell(case):
    """{index of the cell in the grid: values}."""
    out = {}
    for k, v in zip(case['at'], case['vals']):
        if all(0 <= i < a[3] for i, a in zip(k, case['axes'])):
            out.setdefault(tuple(a[3] - 1 - i if a[4] else i for i, a in zip(k, case['axes'])), []).append(v)
    return out


FUNCTIONS = {'mean': np.mean, 'min': np.min, 'max': np.max, 'sum': np.sum,
             'stddev': lambda v: np.std(v, ddof=1) if len(v) > 1 else np.nan}


def judge(out, case, ctx):
    out = out if isinstance(out, list) else [out]
    shape = tuple(a[3] for a in case['axes'])
    cells = per_cell(case)
    kernel = case['kernel']
    names = ['mean', 'stddev', 'num'] if kernel == 'moments' else [kernel]
    check(len(out) == len(names), 'expected %d variables, got %d', len(names), len(out))
    for name, o in zip(names, out):
        check(o.shape == shape, 'shape %s, expected %s', o.shape, shape)
        got = gen.filled(o.data)
        if name == 'num':
            want = np.zeros(shape)
            got = np.where(np.isnan(got), 0, got)       # (missing where there are none, for some)
        else:
            want = np.full(shape, np.nan)
        for k, v in cells.items():
            want[k] = len(v) if name == 'num' else FUNCTIONS[name](v)
        ok = np.isclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True)
        if not ok.all():
            k = tuple(int(i) for i in np.argwhere(~ok)[0])
            check(False, '%s of cell %s of %s: %s, expected %s (%d cells are wrong)', name, k, shape, got[k], want[k], (~ok).sum())
    size = int(np.prod(shape))
    ctx.tag('cells>65535' if size > 65535 else 'cells>32767' if size > 32767 else 'cells<=32767')
    ctx.nontrivial(len(cells) > 1 and size > 1000)


@st.composite
def bins(draw, decreasing):
    ax = draw(axes(decreasing=decreasing))
    return dict(draw(points_in(ax)), axes=ax, kernel=draw(st.sampled_from(['moments', 'moments', 'mean', 'min', 'max', 'sum', 'stddev'])))


def collocate(case, ctx):
    data, sample = gen.make(data_of(case)), gen.build_grid(as_grid(case['axes']), var='samp')
    with ctx.sut('collocation'):
        out = data.collocated_onto(sample, how='bin', kernel=case['kernel'])
    judge(out, case, ctx)


def aggregate(case, ctx):
    data = gen.make(data_of(case))
    with ctx.sut('aggregation'):
        out = data.aggregate(how=case['kernel'], **{a[0]: [a[1], a[1] + a[2] * a[3], a[2]] for a in case['axes']})
    judge(out, case, ctx)


@st.composite
def collapses(draw):
    ax = draw(axes())
    over = draw(st.lists(st.sampled_from([a[0] for a in ax]), min_size=1, max_size=len(ax), unique=True))
    return dict(axes=ax, over=over, seed=draw(st.integers(0, 999)), missing=draw(st.sampled_from([0, 0, 0.2, 0.9])),
                kernel=draw(st.sampled_from(['moments', 'moments', 'mean', 'min', 'max', 'sum'])))


def collapse(case, ctx):
    ax = case['axes']
    g = as_grid(ax, case['seed'])
    v = gen.grid_values(g)
    rng = np.random.RandomState(case['seed'])
    if case['missing']:
        v = np.ma.array(v, mask=rng.rand(*v.shape) < case['missing'])
    data = gen.build_grid(g, data=v.copy())
    with ctx.sut('collapse'):
        out = data.collapsed(case['over'], how=case['kernel'])
    axis = tuple(i for i, a in enumerate(ax) if a[0] in case['over'])
    ok = ~np.ma.getmaskarray(v)
    x = np.where(ok, np.ma.getdata(v), 0.)
    w = np.ones(x.shape)
    if 'latitude' in case['over']:
        edges = np.radians(np.array(gen.cells(g, 'latitude')))
        w = w * np.abs(np.sin(edges[:, 1]) - np.sin(edges[:, 0])).reshape([-1 if a[0] == 'latitude' else 1 for a in ax])
    n = ok.sum(axis=axis)
    with np.errstate(all='ignore'):
        mean = (x * w).sum(axis=axis) / np.where(ok, w, 0).sum(axis=axis)
        plain = x.sum(axis=axis, keepdims=True) / ok.sum(axis=axis, keepdims=True)
        std = np.sqrt(np.where(ok, (x - plain) ** 2, 0).sum(axis=axis) / np.where(n > 1, n - 1., np.nan))
    want = {'mean': mean, 'stddev': std, 'num': n, 'sum': np.where(n > 0, x.sum(axis=axis), np.nan),
            'min': np.where(n > 0, np.where(ok, x, np.inf).min(axis=axis), np.nan),
            'max': np.where(n > 0, np.where(ok, x, -np.inf).max(axis=axis), np.nan)}
    names = ['mean', 'stddev', 'num'] if case['kernel'] == 'moments' else [case['kernel']]
    check(len(out) == len(names), 'expected %d variables, got %d', len(names), len(out))
    for name, o in zip(names, out):
        got = gen.filled(o.data)
        expected = np.where(n > 0, want[name], np.nan) if name != 'num' else want[name]
        if name == 'num':
            got = np.where(np.isnan(got), 0, got)
        check(got.shape == expected.shape, 'shape %s, expected %s', got.shape, expected.shape)
        check(gen.same(got, expected, rtol=1e-8, atol=1e-8), '%s: %s, expected %s', name, got, expected)
    ctx.tag('values>65535' if x.size > 65535 else 'values>32767' if x.size > 32767 else 'values<=32767', 'over%d' % len(axis))
    ctx.nontrivial(x.size > 1000)


@st.composite
def cuts(draw):
    ax = draw(axes())
    limits = []
    for a in ax:
        if draw(st.integers(0, 3)):
            i, j = sorted(draw(st.lists(st.integers(0, a[3] - 1), min_size=2, max_size=2)))
            limits.append([a[0], i, j, draw(st.booleans())])
    return dict(axes=ax, limits=limits, seed=draw(st.integers(0, 999)))


def cut(case, ctx):
    """Subsets from the centre (or just below it) of one cell to that (or just above it) of another."""
    ax = case['axes']
    g = as_grid(ax, case['seed'])
    v = np.arange(np.prod([a[3] for a in ax]), dtype=float).reshape([a[3] for a in ax])
    data = gen.build_grid(g, data=v.copy())
    kw, pick = {}, [slice(None)] * len(ax)
    for name, i, j, exactly in case['limits']:
        k = [a[0] for a in ax].index(name)
        a = ax[k]
        off = 0 if exactly else a[2] / 4
        kw[name] = [a[1] + a[2] * (i + 0.5) - off, a[1] + a[2] * (j + 0.5) + off]
        pick[k] = slice(a[3] - 1 - j, a[3] - i) if a[4] else slice(i, j + 1)
    if not kw:
        ctx.nontrivial(False)
        return
    with ctx.sut('subset by %r' % kw):
        out = data.subset(**kw)
    want = v[tuple(pick)]
    check(out is not None, 'nothing selected by %s', kw)
    got = np.squeeze(gen.filled(out.data))
    check(got.shape == np.squeeze(want).shape, 'shape %s, expected %s', out.shape, want.shape)
    check((got == np.squeeze(want)).all(), 'other values than those within %s', kw)
    for a, p in zip(ax, pick):
        check(gen.same(np.asarray(out.coord(a[0]).points), np.array(centres(a))[p]), '%s of the subset: %s', a[0],
              out.coord(a[0]).points)
    ctx.tag('values>65535' if v.size > 65535 else 'values<=65535')
    ctx.nontrivial(want.size < v.size)


@st.composite
def lookups(draw, onto_grid=False):
    ax = draw(axes())
    case = dict(axes=ax, kernel=draw(st.sampled_from(['nn', 'lin'])), factors=[draw(st.integers(-8, 8)) for _ in ax])
    if onto_grid:
        case['to'] = [sorted(set(draw(st.lists(st.integers(2, 4 * a[3] - 2), min_size=2, max_size=6, unique=True)))) for a in ax]
    else:
        case.update(draw(points_in(ax)))
    return case


def field(case):
    """A linear function of the steps in all dimensions, and its values."""
    ax = case['axes']
    out = 0.
    for i, (a, f) in enumerate(zip(ax, case['factors'])):
        steps = np.arange(a[3])[::-1] if a[4] else np.arange(a[3])
        out = out + (f * steps).reshape([-1 if j == i else 1 for j in range(len(ax))])
    return out + np.zeros([a[3] for a in ax])


def look_up(case, ctx):
    """Values at points, in quarters of a cell from its start (so a quarter of 2 is its centre)."""
    ax = case['axes']
    g = as_grid(ax)
    data = gen.build_grid(g, data=field(case))
    at = np.array(case['at']) + np.array(case['part']) / 4. - 0.5            # in steps from the first centre
    top = np.array([a[3] - 1 for a in ax])
    inside = ((at >= 0) & (at <= top)).all(axis=1)
    d = dict(data_of(case), vals=[1.] * len(at))
    with ctx.sut('collocation'):
        out = data.collocated_onto(gen.make(d), how=case['kernel'])
    got = gen.filled(out[0].data)
    many = 0
    for i in range(len(at)):
        if not inside[i]:
            continue                     # (the plain grids decide these)
        if case['kernel'] == 'nn':
            lo, hi = np.ceil(at[i] - 0.5), np.floor(at[i] + 0.5)
            f = np.array(case['factors'])
            want = [(np.minimum(f * lo, f * hi)).sum(), (np.maximum(f * lo, f * hi)).sum()]
        else:
            want = [float((at[i] * case['factors']).sum())] * 2
        many += 1
        check(want[0] - 1e-6 <= got[i] <= want[1] + 1e-6, 'point %d at %s: %s, expected %s', i, where(case, i), got[i], want)
    size = int(np.prod(top + 1))
    ctx.tag('cells>65535' if size > 65535 else 'cells<=65535', case['kernel'])
    ctx.nontrivial(many > 1 and size > 1000)


def regrid(case, ctx):
    ax = case['axes']
    data = gen.build_grid(as_grid(ax), data=field(case))
    points = {a[0]: [a[1] + a[2] * q / 4. for q in to] for a, to in zip(ax, case['to'])}
    sample = gen.build_grid(dict(dims=[a[0] for a in ax], points=points, bounds={}, circular=False, seed=0, missing=[],
                                 force_mask=False), var='samp')
    with ctx.sut('collocation'):
        out = data.collocated_onto(sample, how=case['kernel'])
    got = gen.filled(out[0].data)
    low = high = 0.
    for i, (f, to) in enumerate(zip(case['factors'], case['to'])):
        x = np.array(to) / 4. - 0.5
        a, b = (f * np.ceil(x - 0.5), f * np.floor(x + 0.5)) if case['kernel'] == 'nn' else (f * x, f * x)
        shape = [-1 if j == i else 1 for j in range(len(ax))]
        low, high = low + np.minimum(a, b).reshape(shape), high + np.maximum(a, b).reshape(shape)
    check(got.shape == low.shape, 'shape %s, expected %s', got.shape, low.shape)
    bad = ~((got >= low - 1e-6) & (got <= high + 1e-6))
    if bad.any():
        k = tuple(int(i) for i in np.argwhere(bad)[0])
        check(False, 'value at %s is %s, expected %s', k, got[k], (low[k], high[k]))
    size = int(np.prod([a[3] for a in ax]))
    ctx.tag('cells>65535' if size > 65535 else 'cells<=65535', case['kernel'])
    ctx.nontrivial(size > 1000)


def sub(kind, quick, thorough):
    strategy, decide = {'collocate': (bins(True), collocate), 'aggregate': (bins(False), aggregate),
                        'collapse': (collapses(), collapse), 'subset': (cuts(), cut), 'look_up': (lookups(), look_up),
                        'regrid': (lookups(True), regrid)}[kind]
    return Sub('many_cells', strategy, decide, quick=quick, thorough=thorough)
