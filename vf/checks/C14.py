"""The collocate command, from its arguments to its output file."""
import os

import iris
import numpy as np
from hypothesis import strategies as st

from vf import gen, cli
from vf.core import Sub, check
from vf.checks import C01, C02, C03, C04

PROPERTY = dict(
    title='The collocate command collocates every datagroup as its options say',
    statement=""""cis col" saves all of the given variables of all of the datagroups (each read by its own product), collocated onto the points of the sample
    files with the collocator, separations, kernel, extrapolation, fill value and names as typed in the options, in any order, or
    the default ones for the kinds of data. If a sample variable is named its missing values are missing in the output, unless
    missing_data_for_missing_sample says otherwise; without one all points get values. The output has the coordinates of the sample,
    and the input files are never changed.""",
    text='all kinds of data and sample, options and ways of writing them',
    why="""The tests of the command need sample files which are not part of the repository.""",
    files=['cis/cis_main.py', 'cis/parse.py', 'cis/data_io/data_reader.py', 'cis/data_io/products/AProduct.py'],
    mechanism=[('col_cmd', 'cis/cis_main.py'), ('get_col_samplegroup', 'cis/parse.py'),
               ('extract_method_and_args', 'cis/parse.py'), ('read_coordinates', 'cis/data_io/data_reader.py')],
    observe=['cis col'],
    note="""Hypothesis cases run through the command line in one process, their output files compared with collocation in memory with
    the numbers the options denote (which C01 to C04 decide).""")

RULE = 'A case is data files, a sample file and options. Non-trivial: the output holds two different values.'


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['uu', 'ug', 'gu', 'gg']))
    grids, con, kernel, extrapolate = {}, {}, '', None
    if kind == 'uu':
        base = draw(C01.cases())
        data, sample, con, kernel, how = base['data'], base['sample'], base['con'], base['kernel'], 'box'
    elif kind == 'ug':
        how = draw(st.sampled_from(['bin', 'box']))
        base = draw(C03.cases(how))
        data, sample, con, kernel = base['data'], base['grid'], base['con'], base['kernel']
    elif kind == 'gu':
        base = draw(C02.plain_cases())
        data, sample, how, extrapolate = base['grid'], base['sample'], base['how'], base['extrapolate']
    else:
        base = draw(C04.cases())
        data, sample, how, extrapolate = base['data'], base['sample'], base['how'], base['extrapolate']
    if kind == 'gg' and extrapolate:
        data['missing'] = []          # (Iris does not mask what it extrapolates from missing values)
    for x in (data, sample):
        x['shape'] = None
    # (NaN is not saved as such)
    for x in (data, sample):
        if 'vals' in x:
            x['vals'] = [3.0 if v == 'nan' else v for v in x['vals']]
    named = draw(st.booleans())
    miss = draw(st.sampled_from([None, None, True, False]))
    if kind in ('ug', 'gg') and (base.get('miss') is False or set(sample['dims']) - set(data['coords' if kind == 'ug' else 'dims'])):
        miss = False
    base = {k: v for k, v in base.items() if k not in ('data', 'sample', 'grid')}
    return dict(kind=kind, base=base, data=data, sample=sample, con=con, kernel=kernel, how=how, default=kind in ('uu', 'gu') and
                draw(st.booleans()), extrapolate=extrapolate, named=named, miss=miss,
                names=draw(st.sampled_from([{}, {}, {}, {'var_name': 'new'}, {'var_long_name': 'a new one', 'var_units': 'm'}])),
                fill=draw(st.sampled_from([None, None, -999, 1.5e30])), groups=draw(st.sampled_from([1, 1, 2])), two=draw(st.booleans()),
                order=draw(st.permutations([0, 1, 2, 3])), opt_order=draw(st.integers(0, 9)), alias=draw(st.booleans()),
                case=draw(st.sampled_from(['True', 'true'])), other_ext=draw(st.sampled_from([None, None, None, '.dat', '.hdf', '.nc4'])),
                product=draw(st.sampled_from([False, False, True])), same_vars=draw(st.integers(0, 3)) == 0,
                plugged=draw(st.integers(0, 2)) == 0)


def build(kind, x, var, k=0, std=None):
    if kind == 'g':
        return gen.build_grid(dict(x, seed=x['seed'] + k, missing=x['missing'] if k < 2 else []), var=var, standard_name=std,
                              long_name='long ' + var)
    d = dict(x)
    if k:
        d['vals'] = [None if v is None else (v * (k + 1) + k) for v in x['vals']]
    from cis.time_util import cis_standard_time_unit
    out = gen.make(d, var=var, standard_name=std, long_name='long ' + var)
    for c in out.coords():
        if c.standard_name == 'time':
            c.units = cis_standard_time_unit
    return out


PLUS = {}


def plus_products():
    """Products which read all values as 100 more than they are (which are used where named only)."""
    if not PLUS:
        from cis.data_io.products import cis, NetCDF_Gridded

        def changed(base, name):
            def create_data_object(self, filenames, variable):
                out = base.create_data_object(self, filenames, variable)
                out.data = out.data + 100.
                return out
            return type(name, (base,), {'create_data_object': create_data_object, 'get_file_signature': lambda self: []})
        PLUS.update(u=changed(cis, 'VfPlusCis'), g=changed(NetCDF_Gridded, 'VfPlusGridded'))
    return PLUS


def in_memory(case, ctx):
    """Decides what the same collocation gives in memory."""
    {'uu': C01.decide, 'ug': C03.decide, 'gu': C02.decide_plain, 'gg': C04.decide}[case['kind']](
        dict(case['base'], **{k: case[n] for k, n in {'uu': [('data', 'data'), ('sample', 'sample')], 'ug': [
            ('data', 'data'), ('grid', 'sample')], 'gu': [('grid', 'data'), ('sample', 'sample')], 'gg': [
                ('data', 'data'), ('sample', 'sample')]}[case['kind']]}), cli.Quiet(ctx))


def decide(case, ctx):
    in_memory(case, ctx)
    from cis.data_io.gridded_data import GriddedDataList
    folder = ctx.dir()
    dk, sk = case['kind']
    ctx.tag(case['kind'], case['how'] or 'default')
    groups = []
    k = 0
    with ctx.sut('writing the input'):
        for i in range(case['groups']):
            objs = []
            for j in range(2 if case['two'] else 1):
                # (The groups' variables may have the same names)
                objs.append(build(dk, case['data'], 'v%d' % (j if case.get('same_vars') else k), k))
                k += 1
            path = os.path.join(folder, 'data%d.nc' % i)
            (cli.listed(objs) if len(objs) > 1 else objs[0]).save_data(path)
            groups.append((objs, path))
        if case.get('plugged') and len(groups) == 2:
            # The second group is the same variables of the same file, by another product
            objs = [build(dk, case['data'], o.var_name, j) for j, o in enumerate(groups[0][0])]
            for o in objs:
                o.data = o.data + 100.
            groups[1] = (objs, groups[0][1])
            ctx.tag('two products of a file')
        sample = build(sk, case['sample'], 'samp')
        sample_path = os.path.join(folder, 'sample.nc')
        sample.save_data(sample_path)
        ext = case.get('other_ext') if case['order'][0] == 0 else None
        if ext:
            # Only its product says what it is
            os.rename(sample_path, sample_path[:-3] + ext)
            sample_path = sample_path[:-3] + ext
            ctx.tag('sample by product')
        if ext and case.get('product'):
            for i, (objs, path) in enumerate(groups):
                if os.path.exists(path):
                    os.rename(path, path[:-3] + ext)
                groups[i] = (objs, path[:-3] + ext)
        for objs, path in groups + [([sample], sample_path)]:
            for o in objs:
                if o.is_gridded and o.coords('longitude', dim_coords=True):
                    # (Whether longitudes are circular is not saved; Iris works it out from the spacing)
                    o.coord('longitude').circular = iris.load_cube(path, iris.Constraint(cube_func=lambda c: c.var_name == o.var_name)
                                                                   ).coord('longitude').circular
    args, opts = dict(case['con']), dict(case['names'])
    if case['fill'] is not None:
        opts['fill_value'] = case['fill']
    if case['extrapolate'] is not None:
        opts['extrapolate'] = case['extrapolate']
    miss = case['named'] if case['miss'] is None else case['miss']
    want = []
    source = sample
    if not case['named'] and sk == 'u':
        source = gen.build_ungridded(case['sample']['coords'], case['sample']['pts'], None)
    if sk == 'g' and not case['named']:
        miss = False if case['miss'] is None else case['miss']
    for objs, path in groups:
        kw = dict(args, **opts)
        if case['kernel']:
            kw['kernel'] = case['kernel']
        with ctx.sut('collocation in memory with %r' % kw):
            data = cli.listed(objs)
            mine = list(data.collocated_onto(source, how=case['how'], missing_data_for_missing_sample=miss, **kw))
            described(case, objs, mine, sk)
            want.extend(mine)
    # As typed
    inner = ['%s=%s' % (a, (case['case'] if v else case['case'].replace('rue', 'alse').replace('T', 'F').replace('t', 'f'))
                        if isinstance(v, bool) else cli.escape(str(v))) for a, v in list(args.items()) + list(opts.items())]
    if case['miss'] is not None:
        inner.insert(case['opt_order'] % (len(inner) + 1), 'missing_data_for_missing_sample=%s' % case['miss'])
    how = case['how']
    if how == '' and inner:
        how = 'lin'
    options = []
    if how and not (case['default'] and not inner and how != 'nn'):
        options.append('collocator=' + how + ('[%s]' % ','.join(inner) if inner else ''))
    if case['kernel']:
        options.append('kernel=' + case['kernel'])
    if case['named']:
        options.append('variable=samp')
    if case['order'][0] == 0:
        options.append('product=' + ('cis' if sk == 'u' else 'NetCDF_Gridded'))
    options = [o for _, o in sorted(zip(case['order'], options))]
    out = os.path.join(folder, 'out.nc')
    named = ':product=' + ('cis' if dk == 'u' else 'NetCDF_Gridded') if case.get('product') else ''
    argv = ['col' if case['alias'] else 'collocate'] + [','.join(o.var_name for o in objs) + ':' + cli.escape(path) + named
                                                        for objs, path in groups]
    if case.get('plugged') and len(groups) == 2:
        argv[2] = argv[2][:len(argv[2]) - len(named)] + ':product=' + plus_products()[dk].__name__
    argv += [cli.escape(sample_path) + (':' + ','.join(options) if options else ''), '-o', out]
    before = [cli.stamp(p) for _, p in groups] + [cli.stamp(sample_path)]
    res = cli.run(argv)
    check([cli.stamp(p) for _, p in groups] + [cli.stamp(sample_path)] == before, 'an input file was changed by %s', argv)
    check(res.ok, 'the command %s failed: %r', argv, res)
    check(os.path.exists(out), 'the command %s wrote no file', argv)
    names = [w.var_name for w in want]
    if len(set(names)) < len(names):
        ctx.tag('same names')
        import netCDF4
        with netCDF4.Dataset(out) as f:          # All of them are there, by whichever names
            have = {n: gen.filled(v[:]).ravel() for n, v in f.variables.items() if v.dtype != str}
        for w in want:
            a = gen.filled(w.data).ravel()
            check(any(n.startswith(w.var_name) and gen.same(b, a, rtol=1e-8, atol=1e-9) for n, b in have.items()),
                  '%s: the values %s of %s are not in the file: %s', argv, a, w.var_name, have)
        ctx.nontrivial(any(len(set(gen.filled(w.data).ravel()[~np.isnan(gen.filled(w.data).ravel())])) > 1 for w in want))
        return
    different = set()
    with ctx.sut('reading the output of %s' % argv):
        got = cli.read_back(out, want)
        for g, w in zip(got, want):
            compare(g, w, argv)
            a = gen.filled(w.data).ravel()
            different.update(a[~np.isnan(a)])
        if sk == 'u' and case['fill'] is not None:
            import netCDF4
            with netCDF4.Dataset(out) as f:
                for w in want:
                    have = getattr(f[w.var_name], '_FillValue', None)
                    check(have == case['fill'], 'fill value %r of %s, not %r, by %s', have, w.var_name, case['fill'], argv)
    ctx.nontrivial(len(different) > 1)


def described(case, objs, results, sk):
    """Names and units of the results in memory, which are those of the data, or the given ones."""
    from cf_units import Unit
    each = 3 if case['how'] in ('box', 'bin') and case['kernel'] in ('', 'moments') else 1
    names = case['names']
    check(len(results) == each * len(objs), '%d results of %d variables', len(results), len(objs))
    for i, w in enumerate(results):
        o = objs[i // each]
        first = names.get('var_name', o.var_name)
        name = [first, first + '_std_dev', first + '_num_points'][i % each]
        long_name = names.get('var_long_name', o.long_name)
        check(w.var_name == name, 'var_name %r, not %r', w.var_name, name)
        want = [long_name, 'Corrected sample standard deviation of ' + long_name,
                'Number of points used to calculate the mean of ' + long_name][i % each]
        check(w.long_name == want, 'long name %r of %s, not %r', w.long_name, name, want)
        units = names.get('var_units', str(o.units))
        if i % each < 2:
            check(Unit(str(w.units)) == Unit(units), 'units %r of %s, not %r', w.units, name, units)
        else:
            check(not Unit(str(w.units)).is_convertible('kg m-2 s-1') and not Unit(str(w.units)).is_convertible('m'), 'units %r of %s',
                  w.units, name)
        if sk == 'u' and case['fill'] is not None:
            check(w.metadata.missing_value == case['fill'], 'missing value %r, not %r', w.metadata.missing_value, case['fill'])


def compare(g, w, argv):
    a, b = np.ma.asarray(g.data), np.ma.asarray(w.data)
    check(a.size == b.size, '%s: shape %s, not %s', argv, a.shape, b.shape)
    check(gen.same(gen.filled(a).ravel(), gen.filled(b).ravel(), rtol=1e-8, atol=1e-9), '%s: %s is %s, not %s', argv, w.var_name, a, b)
    if w.is_gridded:
        for c in w.coords(dim_coords=True):
            check(gen.same(np.ravel(g.coord(c.name()).points), c.points, rtol=1e-12, atol=1e-8), '%s: %s at %s, not %s', argv,
                  c.name(), g.coord(c.name()).points, c.points)
    else:
        check(sorted(c.standard_name for c in g.coords()) == sorted(c.standard_name for c in w.coords()), '%s: coordinates %s',
              argv, [c.standard_name for c in g.coords()])
        for c in w.coords():
            h = g.coord(standard_name=c.standard_name)
            check(gen.same(gen.filled(h.data).ravel(), gen.filled(c.data).ravel(), rtol=1e-12, atol=1e-12), '%s: %s at %s, not %s',
                  argv, c.standard_name, h.data, c.data)
    check((g.long_name or '') == (w.long_name or '') and (g.standard_name or '') == (w.standard_name or ''), '%s: names of %s', argv,
          w.var_name)
    from cf_units import Unit
    check(Unit(str(g.units)) == Unit(str(w.units)), '%s: units %s of %s, not %s', argv, g.units, w.var_name, w.units)


SUBS = [Sub('collocate', cases(), decide, quick=500, thorough=12000)]
