"""Units of variables are conformed in memory, through requests on generated files (packed, masked, sliced, several variables),
through operations, for times with bounds, and for vector files. Oracle: a table of unit definitions (factor and offset to a base
unit) and calendar arithmetic. Non-trivial: at least one unmasked value in units that differ from the destination."""
import os
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st

FAM = {
    'temp': {'K': (1., 0.), 'kelvin': (1., 0.), 'degC': (1., 273.15), 'celsius': (1., 273.15), 'degF': (5. / 9, 459.67 * 5 / 9)},
    'len': {'m': (1., 0.), 'km': (1000., 0.), 'cm': (.01, 0.), 'mm': (.001, 0.), 'inch': (.0254, 0.), 'feet': (.3048, 0.), 'meters': (1., 0.)},
    'pres': {'Pa': (1., 0.), 'hPa': (100., 0.), 'kPa': (1000., 0.), 'bar': (1e5, 0.), 'mbar': (100., 0.), 'atm': (101325., 0.)},
    'speed': {'m s-1': (1., 0.), 'm/s': (1., 0.), 'km h-1': (1000. / 3600, 0.), 'cm s-1': (.01, 0.), 'knot': (1852. / 3600, 0.), 'mm/day': (.001 / 86400, 0.)},
    'dur': {'s': (1., 0.), 'min': (60., 0.), 'hours': (3600., 0.), 'days': (86400., 0.), 'seconds': (1., 0.)},
    'frac': {'1': (1., 0.), 'percent': (.01, 0.), '%': (.01, 0.)},
    'flux': {'kg m-2 s-1': (1., 0.), 'kg m-2 day-1': (1. / 86400, 0.), 'g cm-2 s-1': (10., 0.)},
    'rad': {'radians': (1., 0.), 'degrees': (np.pi / 180, 0.)},
}
FNAMES = sorted(FAM)


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    return a.shape == b.shape and np.array_equal(ma, mb) and np.array_equal(a.data[~ma], b.data[~mb])


def convert(a, u, v):
    (f, o), (g, p) = u, v
    return (np.asarray(a, 'f8') * f + o - p) / g


def conv(a, fam, u, v):
    return convert(a, FAM[fam][u], FAM[fam][v])


def tol(a, fam, u, v, eps):
    """Absolute tolerance: rounding of the data type relative to the values and offsets involved."""
    (f, o), (g, p) = FAM[fam][u], FAM[fam][v]
    return eps * (np.abs(np.asarray(a, 'f8')) * f + o + p + f) / g


EPS = {'f8': 1e-12, 'f4': 2e-6, 'i4': 1e-12, 'i8': 1e-12, 'i2': 1e-12}


def close(got, raw, mask, fam, u, v, eps, what):
    got = np.ma.asarray(got)
    raw = np.asarray(raw)
    check(got.shape == raw.shape, '{}: shape {} became {}', what, raw.shape, got.shape)
    gm = np.ma.getmaskarray(got)
    m = np.zeros(raw.shape, bool) if mask is None else np.asarray(mask)
    check(np.array_equal(gm, m), '{}: mask {} became {}', what, m.tolist(), gm.tolist())
    want = conv(raw, fam, u, v)
    bad = (np.abs(got.data.astype('f8') - want) > tol(raw, fam, u, v, eps)) & ~m
    check(not bad.any(), '{}: {} {} to {}: expected {}, got {}', what, raw.tolist(), u, v, want.tolist(), got.data.tolist())


def draw_pair(draw, fail=.12):
    f = pick(draw, FNAMES)
    u = pick(draw, sorted(FAM[f]))
    g = f
    if chance(draw, fail):
        g = pick(draw, [x for x in FNAMES if x != f and not {x, f} <= {'frac', 'rad'}])
    v = pick(draw, sorted(FAM[g]))
    return {'fam': f, 'u': u, 'tofam': g, 'v': v}


def unit_obj(text, form):
    if form == 'str':
        return text
    from cf_units import Unit
    return Unit(text)


def raw_values(shape, seed, dtype):
    return np.asarray(G.values(shape, seed, dtype)) if len(shape) else np.asarray(G.values((1,), seed, dtype))[0]


def same_units(text, want):
    from cf_units import Unit
    return Unit(str(text)) == Unit(want)


# ------------------------------------------------------------------ on demand
def gen_var(draw):
    nd = draw(I(0, 3))
    c = draw_pair(draw)
    c.update(shape=[draw(I(1, 4)) for _ in range(nd)], explicit=chance(draw), dtype=pick(draw, ['f8', 'f8', 'f4', 'i4', 'i8']), seed=draw(I(0, 999)),
             mask=G.draw_density(draw), bounds=nd in (1, 2) and chance(draw), form=pick(draw, ['str', 'unit']),
             scale=chance(draw, .3), attrs=chance(draw), back=chance(draw), units=pick(draw, ['attr', 'attr', 'from', 'both', 'none']),
             parent=chance(draw), copy=pick(draw, [None, 'deep', 'shallow', 'slice']), lazy_mask=chance(draw, .3))
    return c


def run_var(case):
    from copy import deepcopy
    from ocgis import Variable, Field
    from ocgis.exc import NoUnitsError
    shape = tuple(case['shape'])
    raw = raw_values(shape, case['seed'], case['dtype'])
    m = G.mask(shape, case['seed'], case['mask']) if len(shape) else None
    dims = ['d%d' % i for i in range(len(shape))]
    attrs = {'long_name': 'thing', 'other': 5} if case['attrs'] else {}
    if case['scale']:
        attrs.update(scale_factor=.5, add_offset=3.)
    given = raw.copy()
    kw = {}
    other = sorted(k for k in FAM[case['fam']] if k != case['u'])[0]
    # Units overloaded by the caller take precedence.
    uattr = {'attr': case['u'], 'from': None, 'both': other, 'none': None}[case['units']]
    b = braw = None
    if case['bounds']:
        braw = np.stack([raw - 1, raw + 2], axis=-1)
        b = Variable('a_bnds', braw.copy(), dims + ['bnds'], units=uattr)
    v = Variable('a', given if shape else given.item(), dims, mask=m, attrs=attrs, bounds=b, units=uattr, dtype=case['dtype'] if case['explicit'] else 'auto', **kw)
    if case['parent']:
        p = Variable('other', [1., 2.], 'z', units='K')
        f = Field(variables=[v, p])
        v = f['a']
    keep = {'deep': deepcopy, 'shallow': lambda o: o.copy(), 'slice': lambda o: o[(slice(None),) * len(shape)] if shape else o.copy(), None: lambda o: None}[case['copy']](v)
    frm = unit_obj(case['u'], case['form']) if case['units'] in ('from', 'both') else None
    to = unit_obj(case['v'], case['form'])
    eps = EPS[case['dtype']]
    if case['units'] == 'none':
        try:
            v.cfunits_conform(to)
        except NoUnitsError:
            check(same(v.get_value(), raw), 'values changed though there are no units')
            return ''
        raise Violation('a variable without units was conformed')
    if case['tofam'] != case['fam']:
        try:
            v.cfunits_conform(to, from_units=frm)
        except Exception:
            pass
        else:
            raise Violation('{} was conformed to {}'.format(case['u'], case['v']))
        check(v.units == uattr, 'units changed from {} to {} though the conversion failed', uattr, v.units)
        check(same(np.asarray(v.get_value()).reshape(shape), raw), 'values changed though the conversion failed')
        if b is not None:
            check(same(v.bounds.get_value(), braw) and v.bounds.units == uattr, 'bounds changed though the conversion failed')
        if case['scale']:
            check(v.attrs.get('scale_factor') == .5, 'attributes changed though the conversion failed')
        return 'fail'
    v.cfunits_conform(to, from_units=frm)
    check(same_units(v.units, case['v']) and isinstance(v.units, str), 'units are {!r} after conforming to {}', v.units, case['v'])
    check(same_units(v.attrs['units'], case['v']), 'units attribute is {!r} after conforming to {}', v.attrs['units'], case['v'])
    close(v.get_masked_value().reshape(shape), raw, m, case['fam'], case['u'], case['v'], eps, 'values')
    check([d.name for d in v.dimensions] == dims and v.shape == shape, 'dimensions became {}', v.dimensions)
    check('scale_factor' not in v.attrs and 'add_offset' not in v.attrs, 'scale or offset remain: {}', v.attrs)
    if case['attrs']:
        check(v.attrs.get('long_name') == 'thing' and v.attrs.get('other') == 5, 'attributes lost: {}', v.attrs)
    if b is not None:
        bm = None if m is None else np.stack([m, m], axis=-1)
        close(v.bounds.get_masked_value(), braw, bm, case['fam'], case['u'], case['v'], eps, 'bounds')
        check(same_units(v.bounds.units, case['v']), 'units of bounds are {!r} after conforming to {}', v.bounds.units, case['v'])
    check(same(given, raw), 'the array given changed')
    if keep is not None:
        check(keep.units == uattr, 'units of the copy changed to {}', keep.units)
        check(same(np.asarray(keep.get_value()).reshape(shape), raw), 'values of the copy changed')
        if b is not None and case['copy'] == 'deep':
            check(same(keep.bounds.get_value(), braw), 'bounds of the copy changed')
    if case['parent']:
        check(same(f['other'].get_value(), np.array([1., 2.])) and f['other'].units == 'K', 'another variable changed')
    if case['back']:
        v.cfunits_conform(case['u'])
        close(v.get_masked_value().reshape(shape), raw, m, case['fam'], case['u'], case['u'], 4 * eps + tolback(case, raw), 'there and back')
        if b is not None:
            close(v.bounds.get_masked_value(), braw, bm, case['fam'], case['u'], case['u'], 4 * eps + tolback(case, braw), 'bounds there and back')
    return '' if case['u'] == case['v'] or (m is not None and m.all()) else case['fam']


def tolback(case, raw):
    """Rounding error in the destination units carried back, relative to the source."""
    t = tol(raw, case['fam'], case['u'], case['v'], EPS[case['dtype']])
    (f, o), (g, p) = FAM[case['fam']][case['u']], FAM[case['fam']][case['v']]
    back = t * g / f
    return float(np.max(back / (np.abs(np.asarray(raw, 'f8')) + 1)))


# ------------------------------------------------------------------ requests
def gen_req(draw):
    s = G.draw_field(draw, nt=(1, 4), nl='maybe', ny=(1, 3), nx=(1, 3), nvars=(1, 3), dtypes=('f8', 'f4', 'i4'))
    c = {'field': s, 'vars': []}
    fail = chance(draw, .12)
    for i, v in enumerate(s['vars']):
        p = draw_pair(draw, 0)
        p['conform'] = True
        p['pack'] = chance(draw, .3)
        p['over'] = chance(draw, .2)
        c['vars'].append(p)
        if p['pack']:
            v['dtype'] = 'f8'
        v['units'] = p['u'] if not p['over'] else None
    c['fail'] = fail
    if fail:
        k = draw(I(0, len(s['vars']) - 1))
        p = c['vars'][k]
        p['tofam'] = pick(draw, [x for x in FNAMES if x != p['fam'] and not {x, p['fam']} <= {'frac', 'rad'}])
        p['v'] = pick(draw, sorted(FAM[p['tofam']]))
        if chance(draw, .4):
            p['v'] = pick(draw, ['blurg', 'not a unit', 'K K K K K /'])
    c['form'] = pick(draw, ['str', 'unit'])
    c['access'] = [pick(draw, ['load', 'slice', 'value', 'mask', 'copy', 'deepcopy', 'units']) for _ in range(draw(I(0, 3)))]
    c['slc'] = [draw(I(0, 2)), draw(I(0, 2))]
    c['write'] = chance(draw, .4)
    c['rv'] = chance(draw, .3)
    c['twofiles'] = chance(draw, .2)
    return c


def pack_arr(raw, fam=None):
    """Small integers stored with scale and offset; exactly representable."""
    return raw


def write_req(c, path):
    """The generated file; packed variables are stored as 16 bit integers with a scale and an offset."""
    import netCDF4 as nc
    s = dict(c['field'])
    arrs = [G.varray(s, v) for v in s['vars']]
    packed = [p['pack'] for p in c['vars']]
    s2 = dict(s, vars=[v for v, p in zip(s['vars'], packed) if not p])

    def extra(ds):
        for v, p, a in zip(s['vars'], packed, arrs):
            if not p:
                continue
            nv = ds.createVariable(v['name'], 'i2', [G.DIMN[d] for d in v['dims']], fill_value=-999)
            nv.scale_factor = .5
            nv.add_offset = 10.
            if v.get('units'):
                nv.units = v['units']
            if s['grid'] == '2d':
                nv.coordinates = 'lon lat'
            nv.set_auto_maskandscale(False)
            nv[:] = np.where(np.ma.getmaskarray(a), -999, packed_ints(a)).astype('i2')
    G.write_nc(s2, path, extra=extra)
    return [np.ma.array(packed_ints(a) * .5 + 10., mask=np.ma.getmaskarray(a)) if p else a for a, p in zip(arrs, packed)]


def packed_ints(a):
    return (np.floor(np.asarray(a.data, 'f8')) % 500).astype('i2')


def run_req(case):
    from copy import deepcopy
    import ocgis
    from ocgis.exc import RequestValidationError
    s = case['field']
    arrs = write_req(case, 'a.nc')
    names = [v['name'] for v in s['vars']]
    to = [unit_obj(p['v'], case['form'] if not case['fail'] else 'str') for p in case['vars']]
    kw = {}
    if any(p['over'] for p in case['vars']):
        kw['units'] = [p['u'] for p in case['vars']]
    one = len(names) == 1
    if one:
        to = to[0]
        kw = {k: v[0] for k, v in kw.items()}
    try:
        rd = ocgis.RequestDataset(os.path.abspath('a.nc'), variable=names[0] if one else names, conform_units_to=to, **kw)
    except RequestValidationError:
        check(case['fail'], 'conversions {} were refused', [(p['u'], p['v']) for p in case['vars']])
        return 'fail'
    check(not case['fail'], 'conversions {} were accepted', [(p['u'], p['v']) for p in case['vars']])
    if one:
        check(same_units(rd.conform_units_to, case['vars'][0]['v']), 'conform_units_to is {}', rd.conform_units_to)
    else:
        check(all(same_units(a, p['v']) for a, p in zip(rd.conform_units_to, case['vars'])), 'conform_units_to is {}', rd.conform_units_to)
    f = rd.get()
    sl = {}
    for a in case['access']:
        if a == 'load':
            f.load()
        elif a == 'value':
            f[names[-1]].get_value()
        elif a == 'mask':
            f[names[0]].get_mask()
        elif a == 'copy':
            f = f.copy()
        elif a == 'deepcopy':
            f = deepcopy(f)
        elif a == 'units':
            [f[n].units for n in names]
        elif a == 'slice':
            d = {'y': 'y', 'x': 'x'}
            for k, (dim, n) in enumerate((('y', s['ny']), ('x', s['nx']))):
                w = sl.get(dim, (0, n))
                i = min(case['slc'][k] % (w[1] - w[0]), w[1] - w[0] - 1)
                f = f[{dim: slice(i, None)}]
                sl[dim] = (w[0] + i, w[1])
    for v, p, arr in zip(s['vars'], case['vars'], arrs):
        idx = tuple(slice(*sl[d]) if d in sl else slice(None) for d in v['dims'])
        a = arr[idx]
        fv = f[v['name']]
        eps = EPS['f4'] if (v['dtype'] == 'f4' and not p['pack']) else 1e-12
        close(fv.get_masked_value(), a.data, np.ma.getmaskarray(a), p['fam'], p['u'], p['v'], eps, 'requested ' + v['name'])
        check(same_units(fv.units, p['v']), 'units are {!r}, expected {}', fv.units, p['v'])
        check(not {'scale_factor', 'add_offset'} & set(fv.attrs), 'scale or offset remain')
    xs = f.grid.x.get_value() if f.grid is not None else None
    if xs is not None and s['grid'] == '1d':
        w = sl.get('x', (0, s['nx']))
        check(np.array_equal(xs, np.asarray(G.mids(s['xe']))[w[0]:w[1]]), 'coordinates changed')
    if case['write']:
        f.write('out.nc', variable_kwargs={'unlimited_to_fixedsize': True})
        import netCDF4 as nc
        ds = nc.Dataset('out.nc')
        for v, p, arr in zip(s['vars'], case['vars'], arrs):
            idx = tuple(slice(*sl[d]) if d in sl else slice(None) for d in v['dims'])
            a = arr[idx]
            eps = EPS['f4'] if (v['dtype'] == 'f4' and not p['pack']) else 1e-12
            close(ds[v['name']][:], a.data, np.ma.getmaskarray(a), p['fam'], p['u'], p['v'], eps, 'written ' + v['name'])
            check(same_units(ds[v['name']].units, p['v']), 'units in the file are {!r}', ds[v['name']].units)
        ds.close()
    # The request may be used again.
    f2 = rd.get()
    v, p, a = s['vars'][0], case['vars'][0], arrs[0]
    close(f2[v['name']].get_masked_value(), a.data, np.ma.getmaskarray(a), p['fam'], p['u'], p['v'],
          EPS['f4'] if (v['dtype'] == 'f4' and not p['pack']) else 1e-12, 'second read of ' + v['name'])
    return '' if all(p['u'] == p['v'] or np.ma.getmaskarray(a).all() for p, a in zip(case['vars'], arrs)) else '{}{}{}'.format(len(names), ' packed' if any(p['pack'] for p in case['vars']) else '', ' write' if case['write'] else '')


# ------------------------------------------------------------------ operations
def gen_ops(draw):
    s = G.draw_field(draw, nt=(1, 3), nl='maybe', ny=(1, 4), nx=(1, 4), nvars=(1, 2), dtypes=('f8', 'f4'), crs='wgs84', grid=('1d',), bounds=True)
    p = draw_pair(draw, .1)
    u2 = pick(draw, sorted(FAM[p['fam']]))
    us = [p['u'], u2][:len(s['vars'])]
    for v, u in zip(s['vars'], us):
        v['units'] = u
    c = {'field': s, 'pair': p, 'us': us, 'form': pick(draw, ['str', 'unit']), 'src': pick(draw, ['rd', 'field', 'loaded', 'rdlist']),
         'geoms': draw(I(0, 2)), 'snippet': chance(draw, .2), 'rdconform': chance(draw, .25), 'calc': chance(draw, .3), 'agg': chance(draw, .2),
         'second': chance(draw, .5), 'twice': chance(draw), 'out': pick(draw, ['ocgis', 'ocgis', 'nc'])}
    # Snippets are not implemented for calculations.
    c['calc'] = c['calc'] and not c['snippet']
    return c


def run_ops(case):
    import ocgis
    from shapely.geometry import box
    s, p = case['field'], case['pair']
    G.write_nc(s, 'a.nc')
    names = [v['name'] for v in s['vars']]
    rdkw = {}
    us = list(case['us'])
    if case['rdconform']:
        mid = sorted(FAM[p['fam']])[0]
        rdkw['conform_units_to'] = [mid] * len(names)
    dss = []
    if case['src'] == 'rdlist' and len(names) > 1:
        for i, n in enumerate(names):
            dss.append(ocgis.RequestDataset(os.path.abspath('a.nc'), variable=n, field_name='f%d' % i, **({k: v[i] for k, v in rdkw.items()})))
    else:
        rd = ocgis.RequestDataset(os.path.abspath('a.nc'), variable=names, **rdkw)
        if case['src'] in ('rd', 'rdlist'):
            dss = [rd]
        else:
            f = rd.get()
            if case['src'] == 'loaded':
                f.load()
            dss = [f]
    kw = {}
    e = G.extent(s)
    if case['geoms']:
        kw['geom'] = [{'geom': box(e[0] - 1, e[1] - 1, e[2] + 1, e[3] + 1), 'properties': {'UGID': i + 1}} for i in range(case['geoms'])]
        kw['agg_selection'] = False
    if case['snippet']:
        kw['snippet'] = True
    if case['calc']:
        kw['calc'] = [{'func': 'mean', 'name': 'mm'}]
        kw['calc_grouping'] = ['year']
    if case['agg']:
        kw['aggregate'] = True
    out = 'ocgis'
    if case['out'] == 'nc' and case['geoms'] < 2 and not case['agg'] and len(dss) == 1:
        out = 'nc'
    fails = p['tofam'] != p['fam']

    def go(i):
        return ocgis.OcgOperations(dataset=dss if len(dss) > 1 else dss[0], conform_units_to=unit_obj(p['v'], case['form']), output_format=out,
                                   prefix='o%d' % i, dir_output=os.getcwd(), **kw).execute()
    try:
        ret = go(0)
    except Violation:
        raise
    except Exception as exc:
        if fails:
            return 'fail'
        raise
    check(not fails, '{} was conformed to {}', case['us'], p['v'])
    for rnd in range(2 if case['twice'] else 1):
        if rnd:
            ret = go(1)
        fields = list(ret.iter_fields()) if out == 'ocgis' else [ocgis.RequestDataset(ret).get()]
        n = 0
        for fld in fields:
            for v, u in zip(s['vars'], us):
                arr = G.varray(s, v)
                if case['snippet']:
                    arr = arr[tuple(slice(0, 1) if d in ('t', 'l') else slice(None) for d in v['dims'])]
                nm = 'mm' if case['calc'] else v['name']
                if case['calc'] and len(names) > 1:
                    cands = [x for x in fld.keys() if x.startswith('mm')]
                    if len(cands) > 1:
                        nm = [x for x in cands if v['name'] in x][0]
                if nm not in [x.name for x in fld.data_variables]:
                    continue
                if case['calc'] and len(names) > 1 and nm == 'mm':
                    # Separate fields for each request.
                    src = {'f0': names[0], 'f1': names[1]}.get(fld.name)
                    if src is not None and src != v['name']:
                        continue
                fv = fld[nm]
                n += 1
                check(same_units(fv.units, p['v']), 'units of {} are {!r}, expected {}', nm, fv.units, p['v'])
                if case['agg'] or case['calc']:
                    # Averages: within the range of the converted data.
                    good = conv(arr.compressed(), p['fam'], u, p['v'])
                    got = fv.get_masked_value().compressed()
                    if good.size and got.size:
                        t = 1e-5 * (np.abs(good).max() + float(np.max(tol(arr.compressed(), p['fam'], u, p['v'], 1.))))
                        check(got.min() >= good.min() - t and got.max() <= good.max() + t, 'averages {} outside of {} .. {}', got.tolist(), good.min(), good.max())
                    if arr.size == 1 and good.size:
                        check(abs(got - good).max() <= t, 'single value {} became {}', good, got)
                else:
                    eps = (EPS['f4'] if v['dtype'] == 'f4' else 1e-12) * (3 if case['rdconform'] else 1)
                    if case['rdconform']:
                        eps = eps * 10 + tolback(dict(case, fam=p['fam'], u=u, v=mid, dtype=v['dtype']), arr.data)
                    close(fv.get_masked_value().reshape(arr.shape), arr.data, np.ma.getmaskarray(arr), p['fam'], u, p['v'], eps, 'result ' + nm)
        check(n > 0, 'no results: {}', [list(x.keys()) for x in fields])
    # Sources keep their units and values.
    if case['src'] in ('field', 'loaded') and not case['rdconform']:
        for v, u in zip(s['vars'], us):
            fv = dss[0][v['name']]
            check(fv.units == u, 'the units of the source changed to {}', fv.units)
            check(same(fv.get_masked_value(), G.varray(s, v)), 'the source changed')
    return '' if all(u == p['v'] for u in us) else '{} {} {}{}'.format(case['src'], out, case['geoms'], ' calc' if case['calc'] else '')


# ------------------------------------------------------------------ time
def gen_time(draw):
    cal = pick(draw, sorted(C.CAL))
    un = pick(draw, ['days', 'hours', 'minutes', 'seconds'])
    s = G.draw_field(draw, nt=(1, 5), ny=(1, 2), nx=(1, 2), nvars=(1, 1), masks=False, dtypes=('f4',), grid=('1d',))
    c = {'field': s, 'cal': cal, 'u0': un, 'u1': pick(draw, ['days', 'hours', 'minutes', 'seconds']),
         'e0': [draw(I(1850, 2010)), draw(I(1, 12)), draw(I(1, 28)), 0, 0, 0], 'e1': [draw(I(1840, 2010)), draw(I(1, 12)), draw(I(1, 28)), pick(draw, [0, 0, 6]), 0, 0],
         'steps': [draw(I(1, 200)) for _ in range(6)], 'order': pick(draw, ['value', 'bounds', 'dates', 'load', 'slice', 'sliceload', 'bdates', 'extent']),
         'form': pick(draw, ['str', 'unit']), 'bname': pick(draw, ['time_bnds', 'tb']), 'i8': chance(draw, .3), 'i': draw(I(0, 4)), 'write': chance(draw, .3),
         'override': chance(draw, .2), 'battrs': chance(draw, .4)}
    s['time'].update(bounds=chance(draw, .7))
    return c


def ep(e):
    return '{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}'.format(*e)


def run_time(case):
    import ocgis
    import netCDF4 as nc
    s = dict(case['field'])
    cal = case['cal']
    n = s['nt']
    secs = np.cumsum([0] + case['steps'][:n]) * 21600.
    num = secs / C.UNIT_S[case['u0']]
    i8 = case['i8'] and all(x == int(x) for x in num)
    units0 = '{} since {}'.format(case['u0'], ep(case['e0']))
    units1 = '{} since {}'.format(case['u1'], ep(case['e1']))
    has_b = s['time']['bounds']
    bname = case['bname']
    dates = [C.add_seconds(cal, case['e0'], x) for x in secs]
    ds = nc.Dataset('t.nc', 'w')
    ds.createDimension('time', None)
    ds.createDimension('y', s['ny'])
    ds.createDimension('x', s['nx'])
    ds.createDimension('bnds', 2)
    t = ds.createVariable('time', 'i8' if i8 else 'f8', ('time',))
    file_units = units0 if not case['override'] else 'days since 1600-01-01'
    t.units, t.calendar, t.axis = file_units, cal, 'T'
    t[:] = num[:-1]
    if has_b:
        t.bounds = bname
        tb = ds.createVariable(bname, 'i8' if i8 else 'f8', ('time', 'bnds'))
        tb[:] = np.column_stack([num[:-1], num[1:]])
        if case['battrs']:
            tb.units, tb.calendar = file_units, cal
    for nme, ax, val in (('y', 'Y', G.mids(s['ye'])), ('x', 'X', G.mids(s['xe']))):
        v = ds.createVariable(nme, 'f8', (nme,))
        v.axis = ax
        v[:] = val
    d = ds.createVariable('foo', 'f4', ('time', 'y', 'x'))
    data = np.arange(n * s['ny'] * s['nx']).reshape(n, s['ny'], s['nx']).astype('f4')
    d[:] = data
    ds.close()
    kw = {'t_units': units0} if case['override'] else {}
    to = units1
    if case['form'] == 'unit':
        from cf_units import Unit
        to = Unit(units1, calendar=cal)
    i = case['i'] % n
    rd = ocgis.RequestDataset(os.path.abspath('t.nc'), variable='foo', t_conform_units_to=to, **kw)
    f = rd.get()
    lo = 0
    if case['order'] in ('slice', 'sliceload'):
        f = f[{'time': slice(i, None)}]
        lo = i
        if case['order'] == 'sliceload':
            f.load()
    elif case['order'] == 'load':
        f.load()
    elif case['order'] == 'bounds' and has_b:
        f.time.bounds.get_value()
    elif case['order'] == 'value':
        f.time.get_value()
    elif case['order'] == 'dates':
        f.time.value_datetime
    elif case['order'] == 'bdates' and has_b:
        f.time.bounds.value_datetime
    elif case['order'] == 'extent':
        f.time.extent_datetime
    T = f.time
    base = C.diff_seconds(cal, case['e0'], case['e1'])
    want = (secs + base) / C.UNIT_S[case['u1']]
    q = 1e-3 / C.UNIT_S[case['u1']] + 1e-9
    got = np.asarray(T.get_value(), 'f8')
    check(got.shape == (n - lo,) and np.abs(got - want[lo:-1]).max() <= q, 'times {} in {} became {}, expected {} in {}', num.tolist(), units0, got.tolist(), want.tolist(), units1)
    check(T.units.replace('T', ' ').split(' since ')[0] == case['u1'] or same_units(T.units, units1), 'units are {}', T.units)
    gd = [C.parts(o) for o in np.ma.array(T.value_datetime).data.flat]
    check(all(near(cal, a, b) for a, b in zip(gd, dates[lo:-1])), 'dates {} expected {}', gd, dates)
    check(C.CAL[str(T.calendar)] == C.CAL[cal], 'calendar {} became {}', cal, T.calendar)
    if has_b:
        gb = np.asarray(T.bounds.get_value(), 'f8')
        wb = np.column_stack([want[:-1], want[1:]])[lo:]
        check(gb.shape == wb.shape and np.abs(gb - wb).max() <= q, 'time bounds became {}, expected {} in {}', gb.tolist(), wb.tolist(), units1)
        gbd = [C.parts(o) for o in np.ma.array(T.bounds.value_datetime).data.flat]
        wbd = [x for k in range(lo, n) for x in (dates[k], dates[k + 1])]
        check(all(near(cal, a, b) for a, b in zip(gbd, wbd)), 'dates of bounds {} expected {}', gbd, wbd)
    else:
        check(not T.has_bounds, 'bounds appeared')
    check(same(f['foo'].get_value(), data[lo:]), 'data changed')
    if case['write']:
        f.write('o.nc', variable_kwargs={'unlimited_to_fixedsize': True})
        ds = nc.Dataset('o.nc')
        got = np.asarray(ds['time'][:], 'f8')
        check(np.abs(got - want[lo:-1]).max() <= q, 'times in the file {} expected {}', got.tolist(), want.tolist())
        check(same_units(ds['time'].units, units1), 'units in the file {}', ds['time'].units)
        if has_b:
            gb = np.asarray(ds[T.bounds.name][:], 'f8')
            check(np.abs(gb - wb).max() <= q, 'time bounds in the file {} expected {}', gb.tolist(), wb.tolist())
        ds.close()
    return '' if units0 == units1 else '{} {} {}'.format(cal, case['order'], 'b' if has_b else '')


def near(cal, a, b):
    return abs(C.diff_seconds(cal, a, b)) <= 1


# ------------------------------------------------------------------ vector files
def gen_vec(draw):
    p = draw_pair(draw, .1)
    n = draw(I(1, 5))
    return {'pair': p, 'n': n, 'seed': draw(I(0, 99)), 'dtype': pick(draw, ['f8', 'i4']), 'drv': pick(draw, ['ESRI Shapefile', 'GeoJSON']),
            'none': [chance(draw, .2) for _ in range(n)], 'order': pick(draw, ['load', 'value', 'geom', 'slice', 'other']), 'form': pick(draw, ['str', 'unit'])}


def run_vec(case):
    import ocgis
    import fiona
    from shapely.geometry import Point, mapping
    from ocgis.exc import RequestValidationError
    p, n = case['pair'], case['n']
    if all(case['none']):
        raise Skip('a property without any value has no numeric type')
    raw = raw_values((n,), case['seed'], case['dtype'])
    path = os.path.abspath('v.shp' if case['drv'] == 'ESRI Shapefile' else 'v.geojson')
    with fiona.open(path, 'w', driver=case['drv'], crs={'init': 'epsg:4326'},
                    schema={'geometry': 'Point', 'properties': {'val': 'int' if case['dtype'] == 'i4' else 'float', 'nm': 'str', 'keep': 'float'}}) as dst:
        for i in range(n):
            dst.write({'geometry': mapping(Point(i, i + 1)), 'properties': {'val': None if case['none'][i] else raw[i].item(), 'nm': 'n%d' % i, 'keep': i * 1.5}})
    try:
        rd = ocgis.RequestDataset(path, variable='val', driver='vector', units=p['u'], conform_units_to=unit_obj(p['v'], case['form']))
    except RequestValidationError:
        check(p['tofam'] != p['fam'], 'conversion from {} to {} was refused', p['u'], p['v'])
        return 'fail'
    check(p['tofam'] == p['fam'], 'conversion from {} to {} was accepted', p['u'], p['v'])
    f = rd.get()
    lo = 0
    if case['order'] == 'load':
        f.load()
    elif case['order'] == 'geom':
        f.geom.get_value()
    elif case['order'] == 'other':
        f['keep'].get_value()
    elif case['order'] == 'slice':
        lo = n // 2
        f = f[{f.geom.dimensions[0].name: slice(lo, None)}]
    none = np.array(case['none'], bool)[lo:]
    v = f['val'].get_masked_value()
    close(np.ma.array([0. if m else x for x, m in zip(v.data, none)], mask=np.ma.getmaskarray(v) | none), raw[lo:], none, p['fam'], p['u'], p['v'], 1e-12, 'vector ' + case['order'])
    check(same_units(f['val'].units, p['v']), 'units are {}', f['val'].units)
    check(np.array_equal(np.asarray(f['keep'].get_value(), float), np.arange(lo, n) * 1.5), 'another variable changed')
    return '' if p['u'] == p['v'] else case['order']


# Existing tests fix that integers keep their data type, so converted values of integer variables are truncated (see
# known_findings.json). Everything else stays judged: the class holds only conversions of unpacked integers between different units.
def known_var(case):
    return case['explicit'] and case['dtype'] in ('i4', 'i8') and case['fam'] == case['tofam'] and case['u'] != case['v']


def known_req(case):
    return any(v['dtype'] == 'i4' and not p['pack'] and p['u'] != p['v'] for v, p in zip(case['field']['vars'], case['vars'])) and not case['fail']


def known_vec(case):
    p = case['pair']
    return case['dtype'] == 'i4' and p['fam'] == p['tofam'] and p['u'] != p['v']


TARGETS = [
    Target('var', gen_var, run_var, 400, 8000, 'units differ and some value is not masked, or the conversion must fail', known_var),
    Target('req', gen_req, run_req, 150, 2500, 'units differ and some value is not masked, or the request must be refused', known_req),
    Target('ops', gen_ops, run_ops, 100, 1800, 'some data units differ from the destination'),
    Target('time', gen_time, run_time, 150, 2500, 'time units differ'),
    Target('vec', gen_vec, run_vec, 60, 1000, 'units differ', known_vec),
]
