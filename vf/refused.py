"""Operations given coordinates which the data do not have, or the same one by two of its names: they have to be refused, and leave
the data alone."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import Sub, check

ALL = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']
SHORT = {'latitude': 'y', 'longitude': 'x', 'altitude': 'z', 'air_pressure': 'p', 'time': 't'}
VERTICAL = {'altitude', 'air_pressure', 'model_level_number'}
OTHER = ['nonsense', 'latitudes', 'depth', 'rain', 'long', 'level', 'height']


def _unknown(draw, have):
    names = list(OTHER)
    for c in ALL:
        if c not in have:
            names.append(c)
            # Any vertical coordinate may answer to z
            if c not in VERTICAL or not VERTICAL & set(have):
                names.append(SHORT[c])
    return draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))


@st.composite
def points(draw, twice=True):
    data = draw(gen.ungridded(1, 6))
    return dict(data=data, asked=_asked(draw, data['coords'], twice), two=draw(st.booleans()))


@st.composite
def grids(draw, twice=True):
    dims = draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=3, unique=True))
    g = draw(gen.grid(dims=dims, max_n=3))
    return dict(grid=g, asked=_asked(draw, g['dims'], twice), two=draw(st.booleans()))


def _asked(draw, have, twice):
    both = [c for c in have if c in ('latitude', 'longitude', 'time')]
    if twice and both and draw(st.integers(0, 3)) == 0:
        c = draw(st.sampled_from(both))
        good = draw(st.lists(st.sampled_from([d for d in have if d != c]), max_size=1)) if len(have) > 1 else []
        return [dict(name=n, ok=True) for n in draw(st.permutations([c, SHORT[c]] + good))]
    bad = _unknown(draw, have)
    good = draw(st.lists(st.sampled_from(have), max_size=2, unique=True))
    return [dict(name=n, ok=n in good) for n in draw(st.permutations(bad + good))]


def _state(objs):
    out = []
    for o in objs:
        out.append(gen.filled(o.data))
        out += [np.array(c.points, float) for c in o.coords()]
    return out


def sub(name, strategy, operation, quick, thorough):
    """operation(data, names, limits) has to fail, where limits has a range about the values of each coordinate."""
    def decide(case, ctx):
        from cis.data_io.gridded_data import GriddedDataList
        from cis.data_io.ungridded_data import UngriddedDataList
        if 'grid' in case:
            objs = [gen.build_grid(case['grid'], var='v%d' % i, **gen.TWO[i]) for i in range(1 + case['two'])]
            many = GriddedDataList
        else:
            objs = [gen.make(case['data'])] + ([gen.make(case['data'], **gen.SNOW)] if case['two'] else [])
            many = UngriddedDataList
        data = many(objs) if case['two'] else objs[0]
        before = _state(objs)
        names = [a['name'] for a in case['asked']]
        limits = {}
        for a in case['asked']:
            coord = objs[0]._get_coord(a['name']) if a['ok'] else None
            at = float(np.min(coord.points)) if a['ok'] else 0.0
            limits[a['name']] = [at - 1, at + 1] if not a['ok'] or coord.name() != 'latitude' else [-90.0, 90.0]
        try:
            got = operation(data, names, limits)
        except Exception:
            got = None
        else:
            check(False, 'with coordinates %s, some of which the data do not have, or are given twice (%s), the result was %s',
                  names, [c.name() for c in objs[0].coords()], got)
        after = _state(objs)
        check(len(before) == len(after) and all(gen.same(a, b) for a, b in zip(before, after)),
              'data were changed by a refused request: %s', names)
        if all(a['ok'] for a in case['asked']):
            ctx.tag('twice')
        ctx.nontrivial(any(a['ok'] for a in case['asked']) or len(objs[0].coords()) == 1)
        ctx.tag('asked%d' % len(names))
    return Sub(name, strategy, decide, quick=quick, thorough=thorough)
