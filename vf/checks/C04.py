"""Gridded onto gridded collocation (lin, nn) against an interpolation written out from its definition."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen, large
from vf.core import Sub, check
from vf.checks import C02

PROPERTY = dict(
    title='Gridded data is interpolated correctly onto the points of another grid',
    statement="""Collocating gridded data onto a grid gives at each grid point the multilinear interpolation (lin) or nearest
    value (nn) of the data, for any order and direction of the dimensions of either, uneven spacing, any longitude
    convention, and regional or circular longitudes. The output has the sample's dimensions in the sample's order followed
    by the data's other dimensions; points outside the data are missing unless extrapolation is asked for, interpolated results
    that rest on missing values are missing, and missing sample values carry over exactly when this is asked for (and
    the sample has no further dimensions). The results have the names and units of the data.""",
    text='all pairs of grids sharing some dimensions, values, missing values and options',
    why="""The tests collocate small increasing grids and a few transposed ones, in one longitude convention.""",
    files=['cis/collocation/col_implementations.py', 'cis/data_io/gridded_data.py'],
    mechanism=[('GriddedCollocator.collocate', 'cis/collocation/col_implementations.py')],
    observe=['GriddedData.collocated_onto', 'GriddedData.sampled_from'],
    note="""Hypothesis cases against a direct evaluation of the interpolation formula. Points half-way between two grid points
    (nn) and on the border of a missing value's neighbourhood are judged leniently, and values extrapolated from missing
    ones are not judged (Iris does not mask them); dimensions of a single point are not
    generated.""")

RULE = ('A case is two grids sharing at least one dimension, with options. Non-trivial: some output value lies inside of the '
        'data and is not missing, and the grids differ.')


# (Iris interpolates bytes in half precision)
WIDE = ['float32', 'int32', 'int16']


@st.composite
def cases(draw):
    data = draw(gen.grid(optional=('time', 'altitude', 'air_pressure', 'model_level_number'), max_n=4, bounds=True))
    shared = [d for d in data['dims'] if draw(st.integers(0, 4)) > 0] or [data['dims'][0]]
    extra = [d for d in ('time', 'altitude') if d not in data['dims'] and draw(st.integers(0, 5)) == 0]
    sample = draw(gen.grid(dims=draw(st.permutations(shared + extra)), max_n=4, bounds=True))
    for d in shared:                    # near the data, or on its points
        how = draw(st.integers(0, 3))
        pts = data['points'][d]
        lo, hi = min(pts), max(pts)
        if how == 0:
            new = list(pts)
        elif how == 1 and d != 'longitude':
            continue
        else:
            n = draw(st.integers(2, 5))
            if d == 'longitude' and draw(st.booleans()):
                new = draw(gen.longitudes(2, 6))[0]
            else:
                new = sorted(set(lo + (hi - lo) * draw(st.integers(-8, 40)) / 32.0 for _ in range(n)))
                if len(new) < 2:
                    new = [lo, hi]
            if d == 'latitude':
                new = sorted(set(min(90.0, max(-90.0, v)) for v in new))
                if len(new) < 2:
                    new = [-30.0, 30.0]
            if d == 'longitude':
                new = sorted(set(round(float(gen.wrap_lon(v, 0 if how == 2 else -180)), 6) for v in new))
                if len(new) < 2:
                    new = [new[0], new[0] + 10]
            if draw(st.integers(0, 3)) == 0:
                new = new[::-1]
        sample['points'][d] = [float(v) for v in new]
        sample['bounds'][d] = None
    # Decide the missing sample values only now that the shape is known
    size = int(np.prod([len(sample['points'][d]) for d in sample['dims']]))
    sample['missing'] = [m for m in sample['missing'] if m < size]
    lon = sample['points'].get('longitude')
    sample['circular'] = bool(lon and sample['circular'] and abs(abs(lon[0] - lon[-1]) * len(lon) / (len(lon) - 1) - 360) < 1e-6
                              and np.allclose(np.diff(lon), lon[1] - lon[0]))
    return dict(data=data, sample=sample, how=draw(st.sampled_from(['lin', 'nn', ''])),
                miss=draw(st.sampled_from([None, True, False])), extrapolate=draw(st.sampled_from([None, None, False, True])),
                two=draw(st.integers(0, 3)) == 0, entry=draw(st.integers(0, 1)),
                # Whether the sample has a coordinate of a single point, or one along a dimension, besides
                other=draw(st.sampled_from([None, None, 'scalar', 'along'])))


def decide(case, ctx):
    from cis.data_io.gridded_data import GriddedDataList
    from iris.coords import AuxCoord, DimCoord
    d, s = case['data'], case['sample']
    variants = [d] + ([dict(d, seed=d['seed'] + 1)] if case['two'] else [])
    grids = [gen.build_grid(v, var='v%d' % i, **gen.TWO[i]) for i, v in enumerate(variants)]
    sample = gen.build_grid(s, var='samp')
    if case.get('other') == 'scalar':
        sample.add_aux_coord(DimCoord(2.5, long_name='forecast_period', var_name='period', units='hours'))
    elif case.get('other'):
        sample.add_aux_coord(AuxCoord(np.arange(sample.shape[0]) * 2.0 + 1, long_name='row_number', units='1'), 0)
    kw = {}
    if case['miss'] is not None:
        kw['missing_data_for_missing_sample'] = case['miss']
    if case['extrapolate'] is not None:
        kw['extrapolate'] = case['extrapolate']
    data = GriddedDataList(grids) if case['two'] else grids[0]
    with ctx.sut('collocation'):
        out = data.collocated_onto(sample, how=case['how'], **kw) if case['entry'] == 0 else \
            sample.sampled_from(data, how=case['how'], **kw)
    how = case['how'] or 'lin'
    # (Iris interpolates small numbers in single precision)
    tolerance = dict(rtol=1e-5, atol=1e-3) if d.get('dtype') in ('float32', 'int16') else dict(rtol=1e-7, atol=1e-6)
    shared = [x for x in s['dims'] if x in d['dims']]
    rest = [x for x in d['dims'] if x not in shared]
    dims = shared + rest
    source = {x: s['points'][x] for x in shared}
    source.update({x: d['points'][x] for x in rest})
    honour = case['miss'] is not False and len(shared) == len(s['dims'])
    smask = np.ma.getmaskarray(np.ma.asarray(gen.grid_values(s)))
    inside_any = False
    check(len(out) == len(grids), 'expected %d variables, got %d', len(grids), len(out))
    gen.described(grids, out)
    for v, o in zip(variants, out):
        names = [o.coords(dimensions=i, dim_coords=True)[0].name() for i in range(o.ndim)]
        check(names == dims, 'dimensions of the output are %s, expected %s', names, dims)
        for x in dims:
            check(gen.same(o.coord(x).points, source[x], atol=1e-9), 'output %s is %s, expected %s', x, o.coord(x).points,
                  source[x])
        got = gen.filled(o.data)
        values = gen.grid_values(v)
        for ix in itertools.product(*[range(len(source[x])) for x in dims]):
            if honour and smask[ix[:len(shared)]]:
                check(np.isnan(got[ix]), 'sample point %s is missing but the result is %s', ix, got[ix])
                continue
            at = dict(zip(dims, ix))
            where, inside = [], True
            for x in d['dims']:
                if x in rest:
                    i = at[x]
                    where.append(((i, i), 0.0))
                else:
                    pair, w, ok = C02.locate(d['points'][x], source[x][at[x]], x == 'longitude', d['circular'])
                    where.append((pair, w))
                    inside &= ok
            if not inside and not case['extrapolate']:
                want = [np.nan]
            else:
                want = C02.interpolate(values, where, how)
                if not inside and np.isnan(want).any():
                    continue          # Iris does not mask what it extrapolates from missing values
                inside_any |= inside and not np.isnan(got[ix])
            check(any(np.allclose(got[ix], w, equal_nan=True, **tolerance) for w in want),
                  'point %s %s: got %s, expected %s', ix, {x: source[x][at[x]] for x in dims}, got[ix], want)
    ctx.nontrivial(inside_any)
    ctx.tag(how, 'shared%d' % len(shared))


SUBS = [Sub('grids', gen.typed(gen.typed(cases(), 'data', WIDE), 'sample'), decide, quick=1200, thorough=40000),
        large.sub('regrid', quick=100, thorough=3000)]
