"""Write variables, collections with groups, and fields to netCDF, read back, compare everything with the in-memory
original. Target "collection" also inspects the file with netCDF4. Non-trivial: at least one variable with a dimension."""
import os
import numpy as np
from collections import OrderedDict
from core import Target, Violation, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st

TEXT = st.text(alphabet='abcXYZ 019_-./', min_size=0, max_size=8)


def gen_attrs(draw, n3=False):
    out = []
    for k in draw(st.lists(st.sampled_from(['note', 'code', 'history', 'level_desc', 'units', 'Pq_1']), max_size=3, unique=True)):
        if k == 'units':
            out.append([k, pick(draw, ['K', 'm s-1', '1', 'mm/day'])])
        else:
            t = pick(draw, ['s', 'i', 'f', 'fl', 'il'])
            out.append([k, {'s': 'x' + draw(TEXT), 'i': draw(I(-5, 500)), 'f': draw(I(-50, 50)) * .25,
                            'fl': [draw(I(-9, 9)) * .5 for _ in range(draw(I(2, 4)))], 'il': [draw(I(0, 9)) for _ in range(draw(I(2, 3)))]}[t]])
    return out


def gen_coll(draw, depth=0, fmt=None, fixed=None):
    if fixed is None:
        fixed = chance(draw, .3)
    if fmt is None:
        fmt = pick(draw, ['NETCDF4', 'NETCDF4', 'NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC', 'NETCDF3_64BIT'])
    n4 = fmt == 'NETCDF4'
    dims = OrderedDict()
    pre = 'g{}'.format(depth) if depth else ''
    for d in ['aa', 'bb', 'cc'][:draw(I(1, 3))]:
        dims[pre + d] = draw(I(1, 5))
    names = list(dims)
    unlim = [d for d in names if chance(draw, .4)]
    if not n4 or fixed:  # the fixed-size option speaks of the (one) unlimited dimension
        unlim = unlim[:1]
    case = {'fmt': fmt, 'dims': dims, 'unlimited': unlim, 'vars': [], 'attrs': gen_attrs(draw), 'kids': []}
    for i in range(draw(I(1, 4))):
        kind = pick(draw, ['num'] * 5 + ['str', 'scalar', 'empty'] + (['vl'] if n4 else []))
        v = {'name': '{}v{}'.format(pre, i), 'kind': kind, 'attrs': gen_attrs(draw), 'seed': draw(I(0, 300))}
        dd = draw(st.permutations(names))[:draw(I(1, len(names)))]
        if not n4 and unlim and unlim[0] in dd:
            dd = [unlim[0]] + [d for d in dd if d != unlim[0]]
        if kind == 'num':
            v['dims'] = list(dd)
            v['dtype'] = pick(draw, ['f8', 'f4', 'i4', 'i2'] + (['i8', 'u1', 'i1', 'u2'] if n4 else []))
            v['mask'] = pick(draw, [None, None, 0, 30, 100])
            v['fill'] = pick(draw, [None, None, -99, -5.5]) if v['dtype'] in ('f8', 'f4') else None
            v['bounds'] = len(dd) == 1 and chance(draw)
        elif kind == 'str':
            v['dims'] = [dd[0]]
            n = dims[dd[0]]
            v['strings'] = draw(st.lists(st.text(alphabet='abcXYZ 019_-', min_size=0, max_size=6).map(lambda s: s.rstrip()), min_size=n, max_size=n))
            if not any(v['strings']):
                v['strings'][0] = 'q'
        elif kind == 'vl':
            v['dims'] = [dd[0]]
            v['ragged'] = [draw(I(1, 4)) for _ in range(dims[dd[0]])]
            v['dtype'] = pick(draw, ['i4', 'f8'])
        elif kind == 'scalar':
            v['value'] = draw(I(-50, 50)) * .5
        case['vars'].append(v)
    if depth < 2 and n4:
        for k in range(draw(I(0, 1 if depth else 2))):
            c = gen_coll(draw, depth + 1, fmt, fixed)
            c['name'] = 'grp{}_{}'.format(depth, k)
            case['kids'].append(c)
    if depth == 0:
        case['fixed'] = fixed
        case['how'] = pick(draw, ['coll', 'coll', 'var'])
    return case


def build_coll(case, parent=None):
    import ocgis
    from ocgis import Variable, Dimension, VariableCollection
    from ocgis.variable.base import ObjectType
    vc = VariableCollection(attrs=OrderedDict((k, v) for k, v in case['attrs']), name=case.get('name'))
    D = {d: Dimension(d, size_current=n) if d in case['unlimited'] else Dimension(d, n) for d, n in case['dims'].items()}
    ref = OrderedDict()
    for v in case['vars']:
        attrs = OrderedDict((k, a) for k, a in v['attrs'])
        if v['kind'] in ('scalar', 'empty'):
            if v['kind'] == 'scalar':
                x = Variable(v['name'], value=v['value'], dimensions=[], attrs=attrs, dtype=float)
            else:
                x = Variable(v['name'], attrs=attrs, dtype=np.int32)
            ref[v['name']] = dict(kind=v['kind'], attrs=dict(v['attrs']), value=v.get('value'))
        elif v['kind'] == 'num':
            shp = tuple(case['dims'][d] for d in v['dims'])
            val = G.values(shp, v['seed'], v['dtype'])
            m = G.mask(shp, v['seed'], v['mask'])
            kw = {} if v['fill'] is None else {'fill_value': v['fill']}
            if kw:
                val = np.where(val == v['fill'], 77.25, val).astype(v['dtype'])
            x = Variable(v['name'], val.copy(), [D[d] for d in v['dims']], mask=m, attrs=attrs, **kw)
            r = dict(kind='num', attrs=dict(v['attrs']), arr=np.ma.array(val, mask=np.zeros(shp, bool) if m is None else m), dims=v['dims'])
            ref[v['name']] = r
            if v['bounds']:
                bv = np.column_stack([val, val])
                x.set_bounds(Variable(v['name'] + '_bnds', bv.copy(), [D[v['dims'][0]], v['name'] + '_nb']))
                r['attrs']['bounds'] = v['name'] + '_bnds'
                battrs = {}
                if 'units' in r['attrs']:
                    battrs['units'] = r['attrs']['units']
                ref[v['name'] + '_bnds'] = dict(kind='num', attrs=battrs, dims=[v['dims'][0], v['name'] + '_nb'],
                                                arr=np.ma.array(bv, mask=np.zeros(bv.shape, bool) if m is None else np.column_stack([m, m])))
        elif v['kind'] == 'str':
            x = Variable(v['name'], np.array(v['strings'], dtype=object), D[v['dims'][0]], dtype=str, attrs=attrs)
            ref[v['name']] = dict(kind='str', attrs=dict(v['attrs']), strings=v['strings'], dims=v['dims'])
        else:
            val = np.empty(len(v['ragged']), dtype=object)
            for i, n in enumerate(v['ragged']):
                val[i] = G.values((n,), v['seed'] + i, v['dtype'])
            x = Variable(v['name'], val, D[v['dims'][0]], dtype=ObjectType(np.dtype(v['dtype'])), attrs=attrs)
            ref[v['name']] = dict(kind='vl', attrs=dict(v['attrs']), vl=[a.copy() for a in val], dims=v['dims'])
        vc.add_variable(x, force=True)
    refs = {'vars': ref, 'kids': OrderedDict()}
    for c in case['kids']:
        k, r = build_coll(c)
        vc.add_child(k)
        refs['kids'][c['name']] = r
    return vc, refs


def same_attrs(got, want, what):
    got = {k: v for k, v in got.items() if k != '_FillValue'}
    if set(got) != set(want):
        raise Violation('{}: attributes {} expected {}'.format(what, sorted(got), sorted(want)))
    for k in want:
        g, w = got[k], want[k]
        if isinstance(w, str):
            ok = g == w
        else:
            ok = np.array_equal(np.atleast_1d(g), np.atleast_1d(w))
        if not ok:
            raise Violation('{}: attribute {} is {!r} expected {!r}'.format(what, k, g, w))


def cmp_coll(case, refs, got, ds, fixed, path):
    same_attrs(got.attrs, dict(case['attrs']), path + ' collection')
    want = refs['vars']
    if sorted(got.keys()) != sorted(want):
        raise Violation('{}: variables {} expected {}'.format(path, sorted(got.keys()), sorted(want)))
    check(sorted(got.children) == sorted(refs['kids']), '{}: groups {} expected {}', path, sorted(got.children), sorted(refs['kids']))
    for k, r in want.items():
        x, nv = got[k], ds.variables[k]
        same_attrs(x.attrs, r['attrs'], path + '/' + k)
        same_attrs({a: nv.getncattr(a) for a in nv.ncattrs()}, r['attrs'], path + '/' + k + ' (file)')
        if r['kind'] == 'num':
            check(list(x.dimension_names) == list(r['dims']), '{}: dimensions {} expected {}', k, x.dimension_names, r['dims'])
            check(x.get_value().dtype == r['arr'].dtype and nv.dtype == r['arr'].dtype, '{}: dtype {} (file {}) expected {}', k, x.get_value().dtype, nv.dtype, r['arr'].dtype)
            arr_eq(x.get_masked_value(), r['arr'], k)
            arr_eq(np.ma.array(nv[...]), r['arr'], k + ' (file)')
        elif r['kind'] == 'str':
            got_s = [s.rstrip('\x00') for s in np.asarray(x.join_string_value()).tolist()] if x.get_value().dtype.kind == 'S' else list(x.get_value())
            check(got_s == r['strings'], '{}: strings {} expected {}', k, got_s, r['strings'])
            check(x.dimension_names[0] == r['dims'][0], '{}: dimensions {}', k, x.dimension_names)
        elif r['kind'] == 'vl':
            g = x.get_value()
            check(len(g) == len(r['vl']) and all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(g, r['vl'])), '{}: ragged {} expected {}', k, g, r['vl'])
        else:
            check(x.ndim == 0, '{}: not dimensionless', k)
            if r['kind'] == 'scalar':
                check(float(np.asarray(nv[...])) == r['value'], '{}: scalar {} (file) expected {}', k, nv[...], r['value'])
                check(float(np.asarray(x.get_value())) == r['value'], '{}: scalar {} expected {}', k, x.get_value(), r['value'])
        for d in x.dimensions:
            if d.name in case['dims']:
                check(len(d) == case['dims'][d.name], '{}: size of {} is {}', k, d.name, len(d))
                check(d.is_unlimited == (d.name in case['unlimited'] and not fixed), '{}: unlimited state of {} is {}', k, d.name, d.is_unlimited)
    for c in case['kids']:
        cmp_coll(c, refs['kids'][c['name']], got.children[c['name']], ds.groups[c['name']], fixed, path + '/' + c['name'])


def run_coll(case):
    import netCDF4 as nc
    from ocgis import VariableCollection
    vc, refs = build_coll(case)
    before = G.snap_coll(vc)
    fixed = case['fixed']
    kw = {}
    if case['fmt'] != 'NETCDF4':
        kw['dataset_kwargs'] = {'format': case['fmt']}
    if fixed:
        kw['variable_kwargs'] = {'unlimited_to_fixedsize': True}
    if case['how'] == 'var' and not case['kids'] and case['fmt'] == 'NETCDF4':
        v = vc[case['vars'][0]['name']]
        v.write('out.nc', **kw.get('variable_kwargs', {}))
    else:
        vc.write('out.nc', **kw)
    got = VariableCollection.read(os.path.abspath('out.nc'))
    ds = nc.Dataset('out.nc')
    try:
        check(ds.data_model == {'NETCDF3_64BIT': 'NETCDF3_64BIT_OFFSET'}.get(case['fmt'], case['fmt']), 'file format {}', ds.data_model)
        cmp_coll(case, refs, got, ds, fixed, '')
    finally:
        ds.close()
    d = G.diff_coll(before, G.snap_coll(vc))
    check(d is None, 'writing changed the collection: {}', d)
    labs = sorted({v['kind'] for v in case['vars']}) + [case['fmt']] + (['groups'] if case['kids'] else []) + (['unlimited'] if case['unlimited'] else [])
    return labs if any(v.get('dims') for v in case['vars']) else None


# ------------------------------------------------------------------ fields
CRS = [None, 'spherical', 'wgs84', '+proj=lcc +lat_1=30 +lat_2=60 +lat_0=40 +lon_0=-97 +x_0=0 +y_0=0 +a=6371229 +b=6371229 +units=m +no_defs',
       '+proj=aea +lat_1=29.5 +lat_2=45.5 +lat_0=37.5 +lon_0=-96 +x_0=0 +y_0=0 +ellps=GRS80 +units=m +no_defs']


def gen_field(draw):
    s = G.draw_field(draw, nl='maybe', nr='maybe', order=pick(draw, [None, 'any']), dtypes=('f8', 'f4', 'i4', 'i2'),
                     crs=pick(draw, CRS[:3]),
                     t=dict(calendars=('standard', 'gregorian', 'noleap', '365_day', 'all_leap', '366_day', '360_day', 'proleptic_gregorian', 'julian'),
                            units=('days since 2000-01-01', 'hours since 1999-12-30 12:00:00', 'days since 1850-1-1', 'seconds since 1970-01-01 00:00:00')))
    for v in s['vars']:
        if chance(draw):
            v['units'] = pick(draw, ['K', 'mm/day'])
        v['attrs'] = dict((k, a) for k, a in gen_attrs(draw) if k not in ('units',))
    return {'f': s, 'gmask': G.draw_density(draw), 'src': pick(draw, ['memory', 'memory', 'file']),
            'slice': {d: G.draw_index(draw, s[G.SIZEK[d]], ('slice', 'list', 'bool', 'int')) for d in 'rtlyx' if s[G.SIZEK[d]] is not None and chance(draw, .25)},
            'loaded': chance(draw), 'fixed': chance(draw, .3), 'dates': chance(draw, .3), 'attrs': gen_attrs(draw),
            'again': chance(draw, .3)}


def run_field(case):
    import ocgis, netCDF4 as nc
    from ocgis import RequestDataset, TemporalVariable
    s = case['f']
    names = [v['name'] for v in s['vars']]
    if case['src'] == 'memory':
        f = G.build_field(s)
        gm = G.mask((s['ny'], s['nx']), 5, case['gmask'])
        if case['dates']:
            t = s['time']
            dates = f.time.value_datetime
            b = f.time.bounds.value_datetime if t['bounds'] else None
            if b is not None:
                b = TemporalVariable(name='time_bnds', value=np.array(b), dimensions=['time', 'bnds'], units=t['units'], calendar=t['calendar'])
            tv = TemporalVariable(name='time', value=np.array(dates), dimensions='time', units=t['units'], calendar=t['calendar'], bounds=b)
            f.set_time(tv, force=True)
            G.touch(f)
        if gm is not None:
            f.grid.set_mask(gm)
    else:
        G.write_nc(s, 'in.nc', unlimited=not case['fixed'])
        gm = None
        f = RequestDataset(os.path.abspath('in.nc'), variable=names, crs=G.crs_obj(s['crs']) or 'auto').get()
        G.touch(f)
    for k, a in case['attrs']:
        f.attrs[k] = a
    if case['slice']:
        f = f[{G.DIMN[d]: G.index_obj(j) for d, j in case['slice'].items()}]
    pos = {d: G.index_positions(j, s[G.SIZEK[d]]) for d, j in case['slice'].items()}
    if case['loaded']:
        f.load()
        before = G.snap_coll(f)
    f.write('out.nc', variable_kwargs={'unlimited_to_fixedsize': case['fixed']})
    path = 'out.nc'
    if case['again']:
        # A second pass through a file: the first result read lazily and written again.
        g = RequestDataset(os.path.abspath('out.nc'), variable=names).get()
        g.write('out2.nc', variable_kwargs={'unlimited_to_fixedsize': case['fixed']})
        path = 'out2.nc'
    if case['loaded']:
        d = G.diff_coll(before, G.snap_coll(f), order=False)
        check(d is None, 'writing changed the field: {}', d)
    got = RequestDataset(os.path.abspath(path), variable=names).get()
    G.touch(got)
    check([v.name for v in got.data_variables] == names, 'data variables {} expected {}', [v.name for v in got.data_variables], names)
    for k, a in case['attrs']:
        check(k in got.attrs and np.array_equal(np.atleast_1d(got.attrs[k]), np.atleast_1d(a)), 'global attribute {} is {} expected {}', k, got.attrs.get(k), a)

    def sub(a, *axes):
        return G.take(np.ma.array(a), [pos.get(d) for d in axes])
    for v in s['vars']:
        x = got[v['name']]
        want = sub(G.varray(s, v), *v['dims'])
        check(tuple(x.dimension_names) == tuple(G.DIMN[d] for d in v['dims']), 'dimension order of {}: {}', v['name'], x.dimension_names)
        check(x.get_value().dtype == np.dtype(v['dtype']), 'dtype of {} is {} expected {}', v['name'], x.get_value().dtype, v['dtype'])
        arr_eq(x.get_masked_value(), want, v['name'])
        check(x.units == v.get('units'), 'units of {} are {} expected {}', v['name'], x.units, v.get('units'))
        for k, a in v['attrs'].items():
            check(k in x.attrs and np.array_equal(np.atleast_1d(x.attrs[k]), np.atleast_1d(a)), 'attribute {} of {}', k, v['name'])
    X, Y = G.centres(s)
    VX, VY = G.vertices(s)
    if s['grid'] == '1d':
        arr_eq(got.grid.x.get_value(), sub(X[0], 'x'), 'x')
        arr_eq(got.grid.y.get_value(), sub(Y[:, 0], 'y'), 'y')
        if s['bounds']:
            arr_eq(got.grid.x.bounds.get_value(), sub(G.ebounds(s['xe']), 'x', '-'), 'x bounds')
            arr_eq(got.grid.y.bounds.get_value(), sub(G.ebounds(s['ye']), 'y', '-'), 'y bounds')
    else:
        mm = None if gm is None else sub(gm, 'y', 'x')
        hide = np.zeros(sub(X, 'y', 'x').shape, bool) if mm is None else np.asarray(mm)

        def h(a):
            a = np.ma.array(a)
            return np.ma.array(a, mask=hide if a.ndim == 2 else np.repeat(hide[..., None], 4, axis=-1))
        arr_eq(h(got.grid.x.get_value()), h(sub(X, 'y', 'x')), 'lon')
        arr_eq(h(got.grid.y.get_value()), h(sub(Y, 'y', 'x')), 'lat')
        if s['bounds']:
            arr_eq(h(got.grid.x.bounds.get_value()), h(sub(G.corners_from_vertices(VX), 'y', 'x', '-')), 'lon corners')
            arr_eq(h(got.grid.y.bounds.get_value()), h(sub(G.corners_from_vertices(VY), 'y', 'x', '-')), 'lat corners')
    if gm is not None:
        m = got.grid.get_mask()
        want = np.asarray(sub(gm, 'y', 'x'))
        arr_eq(np.zeros(want.shape, bool) if m is None else m, want, 'grid mask')
    t = s['time']
    check(got.time.units == t['units'] and got.time.calendar == t['calendar'], 'time units/calendar {} {}', got.time.units, got.time.calendar)
    arr_eq(got.time.value_numtime, sub(G.time_vals(t), 't'), 'time values', atol=1e-6, rtol=1e-12)
    check(got.time.has_bounds == t['bounds'], 'time bounds present: {}', got.time.has_bounds)
    if t['bounds']:
        arr_eq(got.time.bounds.value_numtime, sub(G.ebounds(t['edges']), 't', '-'), 'time bounds', atol=1e-6, rtol=1e-12)
    want_unl = (case['src'] == 'file' and not case['fixed'])
    check(got.dimensions['time'].is_unlimited == want_unl, 'unlimited state of time is {}', got.dimensions['time'].is_unlimited)
    if s['nl']:
        arr_eq(got.level.get_value(), sub(G.mids(s['le']), 'l'), 'level')
        check(got.level.has_bounds == s['lb'], 'level bounds')
        if s['lb']:
            arr_eq(got.level.bounds.get_value(), sub(G.ebounds(s['le']), 'l', '-'), 'level bounds')
    if s['nr']:
        arr_eq(got.realization.get_value(), sub(np.arange(1, s['nr'] + 1), 'r'), 'realization')
    if s['crs'] is not None:
        check(got.crs == G.crs_obj(s['crs']), 'crs {} expected {}', got.crs, G.crs_obj(s['crs']))
    return [s['grid'], case['src'], 'crs-' + str(s['crs']), t['calendar']] + (['sliced'] if case['slice'] else []) + (['gmask'] if gm is not None else [])


TARGETS = [
    Target('collection', gen_coll, run_coll, quick=700, thorough=16000, rule='random collections with nested groups, strings, ragged arrays, scalars, bounds, masks'),
    Target('field', gen_field, run_field, quick=400, thorough=9000, rule='random fields in memory or lazily read, optionally sliced'),
]
