"""Interpretation of files. Files are written with netCDF4 directly; what must be recognised is known from the specification of the
file. The same specification is written twice with different orders of variables and dimensions and with unrelated variables added.
Non-trivial: the layouts differ and at least three axes or a coordinate system, mask or override take part."""
import ast
import copy
import os
import numpy as np
import cal as C
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st

KEYS = {'T': 'time', 'Z': 'level', 'R': 'realization', 'Y': 'y', 'X': 'x'}
DEFAULT = {'T': ['time'], 'X': ['x', 'xc', 'longitude', 'lon'], 'Y': ['y', 'yc', 'latitude', 'lat'], 'Z': ['z', 'zc', 'level', 'lvl', 'height']}
OTHER = {'T': ['zeit', 't0'], 'X': ['easting', 'i_x'], 'Y': ['northing', 'j_y'], 'Z': ['depth', 'plev'], 'R': ['member', 'realization']}
CRS_ATTRS = {'latitude_longitude': {}, 'sphere': {'earth_radius': 6370000.},
             'lambert_conformal_conic': {'standard_parallel': [30., 60.], 'longitude_of_central_meridian': -97.,
                                         'latitude_of_projection_origin': 40., 'false_easting': 100., 'false_northing': 0.},
             'polar_stereographic': {'standard_parallel': 60., 'latitude_of_projection_origin': 90., 'false_easting': 0., 'false_northing': 5.,
                                     'straight_vertical_longitude_from_pole': -105.}}


def draw_axis(draw, k, n, named=None):
    attr = k == 'R' or chance(draw, .5)
    if named is not None:
        attr = named
    a = {'name': pick(draw, OTHER[k] if attr and (k == 'R' or chance(draw, .6)) else DEFAULT[k]), 'attr': attr, 'n': n,
         'dim': None if chance(draw, .6) else 'd_' + k.lower(), 'bounds': k != 'R' and chance(draw, .4)}
    a['bname'] = pick(draw, [a['name'] + '_bnds', 'bounds_of_' + k.lower()])
    a['start'], a['step'] = draw(I(-20, 20)), draw(st.sampled_from([1, 2, 5, -1, -3]))
    if k in 'TR':
        a['step'] = abs(a['step'])
    a['dt'] = 'i4' if k == 'R' else pick(draw, ['f8', 'f8', 'f4', 'i4']) if not a['bounds'] else 'f8'
    a['bunits'] = k == 'T' and a['bounds'] and chance(draw, .3)
    return a


def draw_file(draw, bare=False, anon=False):
    s = {'two': chance(draw, .3) and not anon, 'ax': {}}
    for k in 'TYX':
        s['ax'][k] = draw_axis(draw, k, draw(I(1, 4)))
    if chance(draw, .5):
        s['ax']['Z'] = draw_axis(draw, 'Z', draw(I(1, 3)))
    if chance(draw, .25):
        s['ax']['R'] = draw_axis(draw, 'R', draw(I(1, 3)))
    if s['two']:
        for k in 'YX':
            s['ax'][k]['dim'] = 'd_' + k.lower()
    if chance(draw, .2):
        s['ax']['T']['clim'] = True
    s['units'] = pick(draw, ['days', 'hours']) + ' since ' + pick(draw, ['2000-01-01', '1949-12-01 00:00:00', '1850-1-1'])
    s['cal'] = pick(draw, [None, 'standard', 'noleap', '360_day', 'proleptic_gregorian', '365_day'])
    s['vars'] = []
    for i in range(draw(I(1, 3))):
        opt = [k for k in s['ax'] if k in 'ZR' and chance(draw, .7)]
        v = {'name': pick(draw, ['tas', 'pr', 'huss']) + (str(i) if i else ''), 'dims': list(draw(st.permutations(['T', 'Y', 'X'] + opt))),
             'dt': pick(draw, ['f8', 'f4', 'i4', 'i2']), 'seed': draw(I(0, 99)), 'units': pick(draw, ['K', 'celsius', 'm', None]),
             'fill': pick(draw, [None, -999, 99]), 'density': pick(draw, [0., 0., .3])}
        s['vars'].append(v)
    s['crs'] = None
    if chance(draw, .5):
        k = pick(draw, list(CRS_ATTRS))
        s['crs'] = {'kind': k, 'name': pick(draw, ['crs', 'latitude_longitude' if k in ('sphere', 'latitude_longitude') else k])}
        s['crs']['ref'] = chance(draw, .7) or k in ('lambert_conformal_conic', 'polar_stereographic')
    s['mask'] = None
    if chance(draw, .3):
        s['mask'] = {'name': pick(draw, ['ocgis_spatial_mask', 'land']), 'seed': draw(I(0, 99))}
    return s


EXTRA = ['scalar', 'axis-scalar', 'text', 'T', 'YX', 'Y', 'other', 'Xbnds', 'default', 'attrs']


def draw_layout(draw, s, extras=True):
    names = file_vars(s)
    lay = {'order': list(draw(st.permutations(sorted(names)))), 'dims': list(draw(st.permutations(sorted(file_dims(s))))), 'extras': []}
    if extras:
        lay['extras'] = [pick(draw, EXTRA) for _ in range(draw(I(0, 3)))]
    lay['at'] = [draw(I(0, len(names))) for _ in lay['extras']]
    lay['fmt'] = pick(draw, ['NETCDF4', 'NETCDF4_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF3_CLASSIC'])
    lay['unlim'] = chance(draw, .5)
    return lay


def dim(s, k):
    a = s['ax'][k]
    return a['dim'] or a['name']


def file_dims(s):
    d = {dim(s, k): a['n'] for k, a in s['ax'].items()}
    if any(a['bounds'] for k, a in s['ax'].items() if not (s['two'] and k in 'YX')):
        d['nv'] = 2
    if s['two'] and any(s['ax'][k]['bounds'] for k in 'YX'):
        d['nc'] = 4
    return d


def coord(s, k):
    """Values, bounds (or None) of an axis."""
    a = s['ax'][k]
    v = a['start'] + a['step'] * np.arange(a['n'], dtype=float)
    b = np.stack([v - a['step'] / 2., v + a['step'] / 2.], axis=1)
    if s['two'] and k in 'YX':
        ny, nx = s['ax']['Y']['n'], s['ax']['X']['n']
        skew = np.arange(ny)[:, None] * .25 if k == 'X' else np.arange(nx)[None, :] * .125
        if k == 'Y':
            c = [np.repeat(b[:, j][:, None], nx, axis=1) + skew for j in (0, 0, 1, 1)]
            v = np.repeat(v[:, None], nx, axis=1) + skew
        else:
            c = [np.repeat(b[:, j][None, :], ny, axis=0) + skew for j in (0, 1, 1, 0)]
            v = np.repeat(v[None, :], ny, axis=0) + skew
        b = np.stack(c, axis=2)
    return v.astype(a['dt']) if not a['bounds'] else v, (b if a['bounds'] else None)


def coord_dims(s, k):
    return (dim(s, 'Y'), dim(s, 'X')) if s['two'] and k in 'YX' else (dim(s, k),)


def values(s, v):
    shape = tuple(s['ax'][k]['n'] for k in v['dims'])
    r = np.random.RandomState(v['seed'])
    a = r.randint(-40, 41, shape).astype(v['dt'])
    m = r.rand(*shape) < v['density'] if v['fill'] is not None else np.zeros(shape, bool)
    a[a == 99] = 98
    return np.ma.array(a, mask=m)


def mask_bits(s):
    return np.random.RandomState(s['mask']['seed']).rand(s['ax']['Y']['n'], s['ax']['X']['n']) < .3


def file_vars(s):
    """{name: (dims, array, dtype, fill, attrs)} of everything of the specification."""
    out = {}
    for k, a in s['ax'].items():
        val, b = coord(s, k)
        at = {}
        if a['attr']:
            at['axis'] = k
        if k == 'T':
            at['units'] = s['units']
            if s['cal']:
                at['calendar'] = s['cal']
        if s['crs'] and s['crs']['kind'] in ('lambert_conformal_conic', 'polar_stereographic') and k in 'XY':
            at['standard_name'] = 'projection_%s_coordinate' % k.lower()
        if b is not None:
            at['climatology' if a.get('clim') and k == 'T' else 'bounds'] = a['bname']
            bat = {}
            if a['bunits']:
                bat = {'units': s['units']}
                if s['cal']:
                    bat['calendar'] = s['cal']
            out[a['bname']] = (coord_dims(s, k) + (('nc',) if s['two'] and k in 'YX' else ('nv',)), b, 'f8', None, bat)
        out[a['name']] = (coord_dims(s, k), val, a['dt'], None, at)
    for v in s['vars']:
        at = {'long_name': 'values of %s' % v['name']}
        if v['units']:
            at['units'] = v['units']
        if s['crs'] and s['crs']['ref']:
            at['grid_mapping'] = s['crs']['name']
        out[v['name']] = (tuple(dim(s, k) for k in v['dims']), values(s, v), v['dt'], v['fill'], at)
    if s['crs']:
        k = s['crs']['kind']
        at = {'grid_mapping_name': 'latitude_longitude' if k == 'sphere' else k}
        at.update(CRS_ATTRS[k])
        out[s['crs']['name']] = ((), np.array(1), 'i4', None, at)
    if s['mask']:
        out[s['mask']['name']] = ((dim(s, 'Y'), dim(s, 'X')), np.ma.array(mask_bits(s).astype('i4'), mask=mask_bits(s)), 'i4', -1, {'ocgis_role': 'spatial_mask'})
    return out


def extra_vars(s, lay):
    out = []
    for i, e in enumerate(lay['extras']):
        n = 'extra%d' % i
        if e == 'scalar':
            out.append((n, ((), np.array(3.), 'f8', None, {'units': 'm'})))
        elif e == 'axis-scalar':
            out.append((n, ((), np.array(2.), 'f8', None, {'axis': pick_i('TZYXR', i + s['vars'][0]['seed']), 'units': 'm'})))
        elif e == 'text':
            out.append((n, (('nother', 'strlen'), np.array([list('abc'), list('xyz')], dtype='S1'), 'S1', None, {})))
        elif e == 'T':
            out.append((n, ((dim(s, 'T'),), np.arange(s['ax']['T']['n']), 'i4', None, {'units': 'days since 1900-01-01'})))
        elif e == 'YX':
            out.append((n, ((dim(s, 'Y'), dim(s, 'X')), np.ones((s['ax']['Y']['n'], s['ax']['X']['n'])), 'f8', None, {'standard_name': 'surface_altitude'})))
        elif e == 'Y':
            out.append((n, ((dim(s, 'Y'),), np.ones(s['ax']['Y']['n']), 'f8', None, {'bounds': 'nothing_here', 'axis': 'y'})))
        elif e == 'other':
            out.append((n, (('nother',), np.array([1., 2.]), 'f8', None, {'calendar': 'julian'})))
        elif e == 'Xbnds':
            out.append((n, ((dim(s, 'X'), 'nother'), np.ones((s['ax']['X']['n'], 2)), 'f8', None, {})))
        elif e == 'attrs':
            out.append((n, (('nother',), np.array([1., 2.]), 'f8', None, {'long_name': 'time', 'axis': 'Q', 'description': 'axis: X', 'cell_methods': 'time: mean'})))
        elif e == 'default':
            k = pick_i([k for k in 'TYXZ' if k in s['ax'] and s['ax'][k]['attr']] or [None], i + s['vars'][0]['seed'])
            if k:
                free = [q for q in DEFAULT[k] if q not in file_vars(s) and q not in file_dims(s) and q not in [o[0] for o in out]]
                if free:
                    out.append((free[0], (('nother',), np.array([1., 2.]), 'f8', None, {'units': 'days since 1980-01-01'})))
    return out


def pick_i(seq, i):
    return seq[i % len(seq)]


def put(ds, name, spec):
    dims, arr, dt, fill, at = spec
    v = ds.createVariable(name, dt, dims, fill_value=fill)
    v.set_auto_maskandscale(False)
    for k, q in at.items():
        v.setncattr(k, q)
    a = arr.filled(fill if fill is not None else 0) if isinstance(arr, np.ma.MaskedArray) else arr
    v[...] = np.asarray(a).astype(dt)


def write(s, lay, path, parts=None):
    import netCDF4 as nc
    ds = nc.Dataset(path, 'w', format=lay['fmt'])
    fv = file_vars(s)
    ex = extra_vars(s, lay)
    sizes = file_dims(s)
    for d in lay['dims']:
        ds.createDimension(d, None if lay['unlim'] and d == dim(s, 'T') and all(v['dims'][0] == 'T' for v in s['vars']) else sizes[d])
    if any('nother' in e[1][0] for e in ex):
        ds.createDimension('nother', 2)
    if any('strlen' in e[1][0] for e in ex):
        ds.createDimension('strlen', 3)
    todo = [(n, fv[n]) for n in lay['order']]
    for e, at in zip(ex, lay['at']):
        todo.insert(at, e)
    for n, spec in todo:
        put(ds, n, spec)
    ds.setncattr('title', 'made by the check')
    ds.close()


def expect_crs(s):
    import ocgis
    from ocgis.variable import crs as m
    if s['crs'] is None:
        return ocgis.env.DEFAULT_COORDSYS
    k = s['crs']['kind']
    if k == 'latitude_longitude':
        return m.CFSpherical()
    if k == 'sphere':
        return m.CFSpherical(semi_major_axis=6370000.)
    return None


def mval(v):
    return np.ma.array(v.get_masked_value(), copy=True)


def same(got, want, what):
    check(tuple(got.shape) == tuple(want.shape), '{} has shape {}, not {}', what, got.shape, want.shape)
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    check(np.array_equal(gm, wm), '{} is masked {}, not {}', what, gm, wm)
    g, w = np.asarray(got.data)[~wm].astype(float), np.asarray(np.ma.getdata(want))[~wm].astype(float)
    check(np.array_equal(g, w), '{} is {}, not {}', what, g, w)


def dates(s, raw, units=None, cal=None):
    u = units or s['units']
    sec = C.UNIT_S[u.split()[0]]
    p = u.split(' since ')[1].split()
    y, m, d = [int(q) for q in p[0].split('-')]
    return [C.add_seconds(cal or s['cal'] or 'standard', (y, m, d, 0, 0, 0), int(round(float(r) * sec))) for r in np.asarray(raw).ravel()]


def judge_dmap(s, dm, what, names=None):
    n = lambda x: (names or {}).get(x, x)
    for k, key in KEYS.items():
        a = s['ax'].get(k)
        check(dm.get_variable(key) == (None if a is None else n(a['name'])), '{}: the variable of axis {} is {}, not {}', what, k, dm.get_variable(key), None if a is None else a['name'])
        if a is None:
            continue
        check(dm.get_bounds(key) == (a['bname'] if a['bounds'] else None), '{}: the bounds of axis {} are {} (bounded={})', what, k, dm.get_bounds(key), a['bounds'])
        check(list(dm.get_dimension(key)) == [dim(s, k)], '{}: the dimension of axis {} is {}, not {}', what, k, dm.get_dimension(key), dim(s, k))
    check(dm.get_spatial_mask() == (s['mask']['name'] if s['mask'] else None), '{}: the spatial mask is {}', what, dm.get_spatial_mask())


def judge_field(s, f, what, dnames=None, units=None, cal=None, crs=True, shift=True):
    """dnames: expected data variables {name in the field: variable spec}."""
    dnames = dnames if dnames is not None else {v['name']: v for v in s['vars']}
    got = [v.name for v in f.data_variables]
    check(sorted(got) == sorted(dnames), '{}: data variables are {}, not {}', what, got, sorted(dnames))
    for k, ocg in (('T', f.time), ('Z', f.level), ('R', f.realization), ('Y', f.y), ('X', f.x)):
        a = s['ax'].get(k)
        check((ocg is None) == (a is None), '{}: axis {} is {}', what, k, 'missing' if ocg is None else 'present')
        if a is None:
            continue
        val, b = coord(s, k)
        check(tuple(d.name for d in ocg.dimensions) == coord_dims(s, k), '{}: dimensions of axis {} are {}', what, k, [d.name for d in ocg.dimensions])
        raw = ocg.value_numtime if k == 'T' else mval(ocg)
        same(np.ma.array(raw), val, '%s: values of axis %s' % (what, k))
        check((ocg.bounds is None) == (b is None), '{}: bounds of axis {}: {}', what, k, ocg.bounds)
        if b is not None:
            same(np.ma.array(ocg.bounds.value_numtime if k == 'T' else mval(ocg.bounds)), b, '%s: bounds of axis %s' % (what, k))
        if k == 'T':
            check(ocg.calendar == (cal or s['cal'] or 'standard'), '{}: calendar is {}, not {}', what, ocg.calendar, cal or s['cal'])
            got_d = [C.parts(o) for o in np.ma.getdata(ocg.value_datetime).ravel()]
            check(got_d == dates(s, val, units, cal), '{}: dates are {}, not {}', what, got_d, dates(s, val, units, cal))
            if b is not None:
                got_b = [C.parts(o) for o in np.ma.getdata(ocg.bounds.value_datetime).ravel()]
                check(got_b == dates(s, b, units, cal), '{}: date bounds are {}, not {}', what, got_b, dates(s, b, units, cal))
    for n, v in dnames.items():
        fv = f[n]
        check(tuple(d.name for d in fv.dimensions) == tuple(dim(s, k) for k in v['dims']), '{}: dimensions of {} are {}', what, n, [d.name for d in fv.dimensions])
        same(mval(fv), values(s, v), '%s: %s' % (what, n))
        check(fv.dtype == np.dtype(v['dt']), '{}: type of {} is {}, not {}', what, n, fv.dtype, v['dt'])
    if f.grid is not None:
        check(f.grid.shape == (s['ax']['Y']['n'], s['ax']['X']['n']), '{}: the grid has shape {}', what, f.grid.shape)
        m = f.grid.get_mask()
        m = np.zeros(f.grid.shape, bool) if m is None else np.asarray(m)
        w = mask_bits(s) if s['mask'] else np.zeros(f.grid.shape, bool)
        check(np.array_equal(m, w), '{}: the grid is masked {}, not {}', what, m, w)
    if crs:
        e = expect_crs(s)
        if e is not None:
            check(f.crs == e, '{}: the coordinate system is {}, not {}', what, f.crs, e)
        else:
            check(f.crs.name == s['crs']['name'] and f.crs.grid_mapping_name == s['crs']['kind'], '{}: the coordinate system is {}', what, f.crs)


def gen_layout(draw):
    s = draw_file(draw)
    return {'s': s, 'lays': [draw_layout(draw, s), draw_layout(draw, s)]}


def run_layout(case):
    import ocgis
    s = case['s']
    fs = []
    for i, lay in enumerate(case['lays']):
        p = 'f%d.nc' % i
        write(s, lay, p)
        rd = ocgis.RequestDataset(p)
        judge_dmap(s, rd.dimension_map, 'file %d' % i)
        nd = rd.variable
        nd = (nd,) if isinstance(nd, str) else tuple(nd)
        check(sorted(nd) == sorted(v['name'] for v in s['vars']), 'file {}: data variables are {}', i, nd)
        f = rd.get()
        judge_field(s, f, 'file %d' % i)
        for n, spec in extra_vars(s, lay):
            check(n in f.keys(), 'file {}: variable {} is not in the field', i, n)
            check(tuple(d.name for d in f[n].dimensions) == spec[0], 'file {}: dimensions of {} are {}', i, n, f[n].dimensions)
        check(rd.crs == f.crs, 'file {}: coordinate system of the request dataset {} and the field {}', i, rd.crs, f.crs)
        fs.append((rd, f))
    a, b = fs
    check(a[1].crs == b[1].crs, 'coordinate systems differ: {}, {}', a[1].crs, b[1].crs)
    check(a[1].crs.proj4 == b[1].crs.proj4, 'coordinate systems differ: {}, {}', a[1].crs, b[1].crs)
    da, db = a[0].dimension_map, b[0].dimension_map
    check(da == db, 'dimension maps differ: {}, {}', da._storage, db._storage)
    l1, l2 = case['lays']
    if l1['order'] == l2['order'] and not l1['extras'] and not l2['extras']:
        return ''
    if len(s['ax']) < 4 and not s['crs'] and not s['mask']:
        return ''
    return '%d axes%s%s%s' % (len(s['ax']), ' 2d' if s['two'] else '', ' crs' if s['crs'] else '', ' mask' if s['mask'] else '')


OPTS = ['dmap', 'variable', 'rename', 'units', 'conform', 't_units', 't_calendar', 't_conform', 'crs', 'field_name', 'driver', 'predicate', 'metadata']
TU = ['hours since 1990-01-01', 'days since 1850-06-15', 'minutes since 2000-01-01', 'days since 2000-01-01 00:00:00']


def gen_override(draw):
    anon = chance(draw, .4)
    s = draw_file(draw)
    o = {k: True for k in OPTS if chance(draw, .25)}
    if anon:
        o['dmap'] = True
        for k, a in s['ax'].items():
            a['attr'] = False
            a['name'] = {'T': 'zeit', 'X': 'easting', 'Y': 'northing', 'Z': 'plev', 'R': 'member'}[k]
    if 'dmap' in o:
        o['dmap'] = {'form': pick(draw, ['dict', 'object', 'assign']), 'dimension': chance(draw, .5) and [None, 'str', 'list'][draw(I(1, 2))],
                     'bounds': {k: a['bounds'] and chance(draw, .7) for k, a in s['ax'].items()},
                     'omit': [k for k in s['ax'] if k in 'ZR' and chance(draw, .3)], 'swap': False}
        # Mapping to variables other than those recognised by default.
        if not anon and chance(draw, .4):
            s['alt'] = [k for k in s['ax'] if not (s['two'] and k in 'YX') and not (k == 'T') and chance(draw, .5)]
        if o['dmap']['dimension'] is False:
            o['dmap']['dimension'] = None
    names = [v['name'] for v in s['vars']]
    if 'variable' in o or 'rename' in o:
        o['variable'] = list(draw(st.permutations(names)))[:draw(I(1, len(names)))]
    n = len(o.get('variable', names))
    if 'rename' in o:
        o['rename'] = ['new_%s' % q for q in o['variable']]
    if 'units' in o:
        if 'variable' not in o and n > 1:
            o['variable'] = names
        o['units'] = [pick(draw, ['K', 'celsius', 'm', 'mm/day']) for _ in range(n)]
    if 'conform' in o:
        if 'variable' not in o and n > 1:
            o['variable'] = names
        sel = o.get('variable', names)
        src = o.get('units', [next(v['units'] for v in s['vars'] if v['name'] == q) for q in sel])
        o['conform'] = [{'K': 'celsius', 'celsius': 'K', 'm': 'km', 'mm/day': 'mm/hour'}.get(u) for u in src]
        if any(c is None for c in o['conform']):
            del o['conform']
    if 't_units' in o:
        o['t_units'] = pick(draw, TU)
    if 't_calendar' in o:
        o['t_calendar'] = pick(draw, ['standard', 'noleap', '360_day', 'julian'])
    if 't_conform' in o:
        o['t_conform'] = pick(draw, TU)
        if s['ax']['T']['dt'] == 'f4':
            s['ax']['T']['dt'] = 'f8'
    if 'crs' in o:
        o['crs'] = pick(draw, [None, ['wgs84'], ['epsg', 2163], ['sphere']])
    if 'predicate' in o:
        keep = o.get('variable', [names[0]])
        o['predicate'] = [q for q in names if q not in keep and chance(draw, .6)] + ['extra0']
    if 'driver' in o:
        o['driver'] = pick(draw, ['netcdf-cf', 'class'])
    if 'metadata' in o and ('predicate' in o):
        del o['metadata']
    return {'s': s, 'lay': draw_layout(draw, s, extras=not anon), 'o': o}


def crs_arg(c):
    from ocgis.variable import crs as m
    return None if c is None else m.WGS84() if c[0] == 'wgs84' else m.CRS(epsg=c[1]) if c[0] == 'epsg' else m.Spherical()


def conv(x, a, b):
    x = np.asarray(x, float)
    return {('K', 'celsius'): lambda: x - 273.15, ('celsius', 'K'): lambda: x + 273.15, ('m', 'km'): lambda: x / 1000., ('mm/day', 'mm/hour'): lambda: x / 24.}[(a, b)]()


def run_override(case):
    import ocgis
    from ocgis.driver.nc import DriverNetcdfCF
    s, lay, o = copy.deepcopy(case['s']), case['lay'], case['o']
    s0 = copy.deepcopy(s)
    write(s, lay, 'f.nc')
    alt = s.get('alt', [])
    if alt:
        import netCDF4 as nc
        with nc.Dataset('f.nc', 'a') as ds:
            for k in alt:
                v = ds.createVariable('alt_' + k, 'f8', coord_dims(s, k))
                v[:] = coord(s, k)[0] * 2. + 1.
    kw, names = {}, [v['name'] for v in s['vars']]
    exp = copy.deepcopy(s)
    if 'dmap' in o:
        d, q = {}, o['dmap']
        for k, a in s['ax'].items():
            if k in q['omit']:
                del exp['ax'][k]
                continue
            e = {'variable': 'alt_' + k if k in alt else a['name']}
            if q['bounds'][k] and k not in alt:
                e['bounds'] = a['bname']
            else:
                exp['ax'][k]['nobounds'] = True
            if k in alt:
                exp['ax'][k]['alt'] = True
            if q['dimension']:
                e['dimension'] = dim(s, k) if q['dimension'] == 'str' else [dim(s, k)]
            d[KEYS[k]] = e
        if s['mask']:
            d['spatial_mask'] = {'variable': s['mask']['name']}
        if q['form'] == 'object':
            dm = ocgis.DimensionMap()
            for key, e in d.items():
                if key == 'spatial_mask':
                    dm.set_spatial_mask(e['variable'])
                else:
                    dm.set_variable(key, e['variable'], bounds=e.get('bounds'), dimension=e.get('dimension'))
            d = dm
        kw['dimension_map'] = d
    if o.get('variable'):
        kw['variable'] = o['variable'] if len(o['variable']) > 1 else o['variable'][0]
    if 'rename' in o:
        kw['rename_variable'] = o['rename'] if len(o['rename']) > 1 else o['rename'][0]
    if 'units' in o:
        kw['units'] = o['units'] if len(o['units']) > 1 else o['units'][0]
    if 'conform' in o:
        kw['conform_units_to'] = o['conform'] if len(o['conform']) > 1 else o['conform'][0]
    for k, a in (('t_units', 't_units'), ('t_calendar', 't_calendar'), ('t_conform', 't_conform_units_to')):
        if k in o:
            kw[a] = o[k]
    if 'crs' in o:
        kw['crs'] = crs_arg(o['crs'])
    if 'field_name' in o:
        kw['field_name'] = 'my_field'
    if 'driver' in o:
        kw['driver'] = 'netcdf-cf' if o['driver'] != 'class' else DriverNetcdfCF
    if 'predicate' in o:
        drop = set(o['predicate'])
        kw['predicate'] = lambda x: x not in drop
    if 'metadata' in o:
        kw['metadata'] = ocgis.RequestDataset('f.nc').metadata
    before = copy.deepcopy({k: v for k, v in kw.items() if k not in ('predicate', 'driver', 'metadata')})
    rd = ocgis.RequestDataset('f.nc', **kw)
    f = rd.get()
    for k in before:
        if k != 'crs':
            check(kw[k] == before[k], 'the argument {} was changed from {} to {}', k, before[k], kw[k])
    sel = o.get('variable', [n for n in names if n not in set(o.get('predicate', []))])
    new = dict(zip(sel, o.get('rename', sel)))
    dn = {new[v['name']]: v for v in s['vars'] if v['name'] in sel}
    # values
    got = [v.name for v in f.data_variables]
    check(sorted(got) == sorted(dn), 'data variables are {}, not {}', got, sorted(dn))
    if 'variable' in o:
        check(got == [new[n] for n in sel], 'data variables are {}, requested were {}', got, [new[n] for n in sel])
    if len(sel) == 1 or 'field_name' in o:
        check(f.name == ('my_field' if 'field_name' in o else new[sel[0]]), 'the field is named {}', f.name)
    if 'predicate' in o:
        for q in drop:
            check(q not in f.keys(), 'the variable {} excluded by the predicate is in the field', q)
    for n, v in dn.items():
        i = sel.index(v['name'])
        u = o['units'][i] if 'units' in o else v['units']
        fv = f[n]
        w = values(s, v)
        if 'conform' in o:
            check(str(fv.units) == o['conform'][i], '{}: units are {}, not {}', n, fv.units, o['conform'][i])
            g = mval(fv)
            check(np.array_equal(np.ma.getmaskarray(g), np.ma.getmaskarray(w)), '{}: mask changed by the conversion', n)
            c = conv(np.ma.getdata(w), u, o['conform'][i])
            ok = ~np.ma.getmaskarray(w)
            tol = 1e-4 if g.dtype.kind == 'f' else 1.01
            check(np.allclose(np.ma.getdata(g)[ok], c[ok], rtol=0, atol=tol), '{} is {}, not {}', n, g, c)
        else:
            check((None if fv.units is None else str(fv.units)) == u, '{}: units are {}, not {}', n, fv.units, u)
            same(mval(fv), w, n)
    cal = o.get('t_calendar') or s['cal'] or 'standard'
    tu = o.get('t_units') or s['units']
    for k, ocg in (('T', f.time), ('Z', f.level), ('R', f.realization), ('Y', f.y), ('X', f.x)):
        a = exp['ax'].get(k)
        check((ocg is None) == (a is None), 'axis {} is {}', k, 'missing' if ocg is None else 'present')
        if a is None:
            continue
        val, b = coord(s, k)
        if a.get('alt'):
            val = np.asarray(val, float) * 2 + 1
        if a.get('nobounds'):
            b = None
        if k == 'T':
            check(ocg.calendar == cal, 'calendar is {}, not {}', ocg.calendar, cal)
            for o_, w_, what in ((ocg, val, 'time'), (ocg.bounds, b, 'time bounds')):
                check((o_ is None) == (w_ is None), '{}: {}', what, o_)
                if w_ is None:
                    continue
                gd = [C.parts(q) for q in np.ma.getdata(o_.value_datetime).ravel()]
                wd = dates(s, w_, tu, cal)
                check(gd == wd, 'dates of {} are {}, not {}', what, gd, wd)
                wn = np.asarray(w_, float)
                if 't_conform' in o:
                    e = o['t_conform'].split(' since ')
                    y, m, d_ = [int(q) for q in e[1].split()[0].split('-')]
                    wn = np.array([C.diff_seconds(cal, q, (y, m, d_, 0, 0, 0)) / float(C.UNIT_S[e[0]]) for q in wd]).reshape(wn.shape)
                check(np.allclose(np.asarray(o_.value_numtime), wn, rtol=0, atol=1e-6), 'values of {} are {}, not {}', what, o_.value_numtime, wn)
            check(str(ocg.units) == o.get('t_conform', tu), 'units of time are {}', ocg.units)
        else:
            same(mval(ocg), np.asarray(val), 'axis %s' % k)
            check((ocg.bounds is None) == (b is None), 'bounds of axis {}: {}', k, ocg.bounds)
            if b is not None:
                same(mval(ocg.bounds), b, 'bounds of axis %s' % k)
    check(f.grid is not None and f.grid.shape == (s['ax']['Y']['n'], s['ax']['X']['n']), 'grid {}', f.grid)
    m = f.grid.get_mask()
    m = np.zeros(f.grid.shape, bool) if m is None else np.asarray(m)
    check(np.array_equal(m, mask_bits(s) if s['mask'] else np.zeros(f.grid.shape, bool)), 'the grid mask is {}', m)
    if 'crs' in o:
        check(f.crs == crs_arg(o['crs']), 'coordinate system is {}, not {}', f.crs, o['crs'])
        check(rd.crs == crs_arg(o['crs']), 'coordinate system of the request is {}, not {}', rd.crs, o['crs'])
    elif expect_crs(s) is not None:
        check(f.crs == expect_crs(s), 'coordinate system is {}', f.crs)
    if not o:
        return ''
    return '+'.join(sorted(o))[:40]


# ---------------------------------------------------------------- several files joined in time
def gen_join(draw):
    s = draw_file(draw)
    s['two'] = s['two'] and chance(draw)
    s['ax']['T']['n'] = n = draw(I(2, 8))
    s['ax']['T']['dt'] = pick(draw, ['f8', 'f8', 'i4'])
    s['ax']['T']['step'] = abs(s['ax']['T']['step']) or 1
    for v in s['vars']:
        v['dims'].remove('T')
        v['dims'].insert(0, 'T')
    k = draw(I(1, min(3, n - 1)))
    cuts = sorted(list(draw(st.permutations(range(1, n))))[:k])
    parts = list(zip([0] + cuts, cuts + [n]))
    lay = draw_layout(draw, s, extras=False)
    lay['fmt'] = pick(draw, ['NETCDF4_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF3_CLASSIC'])
    lay['unlim'] = True
    units = [s['units']] * len(parts)
    if chance(draw, .4) and not s['ax']['T']['bounds']:
        units = [pick(draw, ['days since 2000-01-01', 'days since 1949-12-01', 'days since 1990-03-01']) for _ in parts]
        s['units'] = units[0]
    sel = None
    if chance(draw, .5):
        a = draw(I(0, n - 1))
        sel = [a, draw(I(a, n - 1))]
    return {'s': s, 'lay': lay, 'parts': [list(p) for p in parts], 'units': units, 'sel': sel, 'by': pick(draw, ['slice', 'range']),
            'names': list(draw(st.permutations('abcd')))[:len(parts)], 'order': list(draw(st.permutations(range(len(parts))))),
            'sort': pick(draw, [True, False]), 'write': chance(draw, .3)}


def run_join(case):
    import netCDF4 as nc
    import ocgis
    from ocgis.util.helpers import get_sorted_uris_by_time_dimension
    s, lay = case['s'], case['lay']
    n = s['ax']['T']['n']
    td = dim(s, 'T')
    cal = s['cal'] or 'standard'
    raw = np.asarray(coord(s, 'T')[0], float)
    want = dates(s, raw)
    fv = file_vars(s)
    paths = []
    for (a, b), u, nm in zip(case['parts'], case['units'], case['names']):
        p = nm + '.nc'
        with nc.Dataset(p, 'w', format=lay['fmt']) as ds:
            sizes = file_dims(s)
            for d in lay['dims']:
                ds.createDimension(d, None if d == td else sizes[d])
            for q in lay['order']:
                dims, arr, dt, fill, at = fv[q]
                at = dict(at)
                if td in dims:
                    arr = arr[(slice(None),) * dims.index(td) + (slice(a, b),)]
                if q == s['ax']['T']['name']:
                    at['units'] = u
                    if u != s['units']:
                        e = u.split(' since ')
                        y, m, d_ = [int(x) for x in e[1].split()[0].split('-')]
                        arr = np.array([C.diff_seconds(cal, w, (y, m, d_, 0, 0, 0)) / float(C.UNIT_S[e[0]]) for w in want[a:b]])
                put(ds, q, (dims, arr, dt, fill, at))
        paths.append(p)
    if any(u != s['units'] for u in case['units']):
        e = s['units'].split()[0]
        if e != 'days' and dt_of(s) == 'i4':
            pass
    uris = list(paths)
    if case['sort']:
        uris = [paths[i] for i in case['order']]
        got = get_sorted_uris_by_time_dimension(list(uris), variable=s['vars'][0]['name'])
        twice = get_sorted_uris_by_time_dimension(list(uris) + [uris[0]], variable=s['vars'][0]['name'])
        check(sorted(os.path.basename(u) for u in twice) == sorted(uris + [uris[0]]), 'a file given twice: sorted {}', twice)
        check([os.path.basename(u) for u in got] == paths, 'files sorted by time are {}, not {}', got, paths)
        uris = got
    rd = ocgis.RequestDataset(uris)
    f = rd.get()
    lo, hi = 0, n
    if case['sel']:
        lo, hi = case['sel'][0], case['sel'][1] + 1
        if case['by'] == 'slice':
            f = f[{td: slice(lo, hi)}]
        else:
            dts = rd.get().time.value_datetime
            f = rd.get().time.get_between(dts[lo], dts[hi - 1]).parent
            if s['ax']['T']['bounds']:
                if case['sel'][0] != case['sel'][1]:
                    raise Skip('selection of bounded steps belongs to another property')
                return ''
    if case['write']:
        f.write('joined.nc')
        f = ocgis.RequestDataset('joined.nc').get()
    gd = [C.parts(q) for q in np.ma.getdata(f.time.value_datetime).ravel()]
    check(gd == want[lo:hi], 'dates are {}, not {}', gd, want[lo:hi])
    b = coord(s, 'T')[1]
    check((f.time.bounds is None) == (b is None), 'time bounds {}', f.time.bounds)
    if b is not None:
        gb = [C.parts(q) for q in np.ma.getdata(f.time.bounds.value_datetime).ravel()]
        check(gb == dates(s, b[lo:hi]), 'date bounds are {}, not {}', gb, dates(s, b[lo:hi]))
    check(f.time.calendar == cal, 'calendar {}', f.time.calendar)
    for v in s['vars']:
        same(mval(f[v['name']]), values(s, v)[lo:hi], v['name'])
    for k in 'YX':
        same(mval({'Y': f.y, 'X': f.x}[k]), np.asarray(coord(s, k)[0]), 'axis ' + k)
    return '%d files%s%s%s' % (len(paths), ' units' if len(set(case['units'])) > 1 else '', ' bounds' if b is not None else '', ' sel' if case['sel'] else '')


def dt_of(s):
    return s['ax']['T']['dt']


# ---------------------------------------------------------------- dimension maps
AXES = ['x', 'y', 'time', 'level', 'realization', 'geom']


def gen_entry(draw):
    e = {'variable': pick(draw, ['a', 'b', 'lon', 'time'])}
    if chance(draw):
        e['bounds'] = pick(draw, ['a_bnds', 'bb'])
    if chance(draw):
        e['dimension'] = pick(draw, [['d1'], ['d1', 'd2'], 'd3', []])
    if chance(draw, .3):
        e['attrs'] = {'axis': 'Q', 'n': 3}
    return e


def gen_one(draw, depth=0):
    d = {k: gen_entry(draw) for k in AXES if chance(draw, .4)}
    if chance(draw, .4):
        d['crs'] = pick(draw, ['latitude_longitude', 'crs'])
    if chance(draw, .4):
        d['mask'] = ['m', pick(draw, [None, {'ocgis_role': 'spatial_mask', 'x': 1}, {}])]
    if chance(draw, .3):
        d['driver'] = pick(draw, ['netcdf-ugrid', 'netcdf-cf', 'csv', 'vector'])
    if chance(draw, .3):
        d['grid_abstraction'] = pick(draw, ['point', 'polygon'])
    if chance(draw, .2):
        d['isomorphic'] = pick(draw, [True, False])
    if depth < 2 and chance(draw, .4):
        d['topology'] = {k: gen_one(draw, 2) for k in ['point', 'polygon'] if chance(draw, .7)}
    if depth < 2 and chance(draw, .5):
        d['groups'] = {k: gen_one(draw, depth + 1) for k in ['g1', 'g2'] if chance(draw, .7)}
    return d


def gen_dmap(draw):
    return {'d': gen_one(draw), 'touch': [[pick(draw, ['variable', 'bounds', 'dimension', 'attrs', 'crs', 'mask', 'topology', 'driver']), pick(draw, AXES)] for _ in range(draw(I(0, 4)))]}


def build_map(d):
    import ocgis
    m = ocgis.DimensionMap()
    for k in AXES:
        if k in d:
            e = dict(d[k])
            m.set_variable(k, e.pop('variable'), **copy.deepcopy(e))
    if 'crs' in d:
        m.set_crs(d['crs'])
    if 'mask' in d:
        m.set_spatial_mask(d['mask'][0], attrs=copy.deepcopy(d['mask'][1]))
    if 'driver' in d:
        m.set_driver(d['driver'])
    if 'grid_abstraction' in d:
        m.set_grid_abstraction(d['grid_abstraction'])
    if 'isomorphic' in d:
        m.set_property('is_isomorphic', d['isomorphic'])
    for k, t in d.get('topology', {}).items():
        m.get_topology(k, create=True).update(build_map(t))
    for k, g in d.get('groups', {}).items():
        m.set_group(k, build_map(g))
    return m


def judge_map(m, d, what):
    for k in AXES:
        e = d.get(k, {})
        dd = e.get('dimension', [])
        check(m.get_variable(k) == e.get('variable'), '{}: variable of {} is {}, not {}', what, k, m.get_variable(k), e.get('variable'))
        check(m.get_bounds(k) == e.get('bounds'), '{}: bounds of {} are {}, not {}', what, k, m.get_bounds(k), e.get('bounds'))
        check(list(m.get_dimension(k)) == ([dd] if isinstance(dd, str) else dd), '{}: dimension of {} is {}, not {}', what, k, m.get_dimension(k), dd)
        if 'attrs' in e:
            check(dict(m.get_attrs(k)) == e['attrs'], '{}: attributes of {} are {}, not {}', what, k, m.get_attrs(k), e['attrs'])
    check(m.get_crs() == d.get('crs'), '{}: coordinate system is {}, not {}', what, m.get_crs(), d.get('crs'))
    check(m.get_spatial_mask() == (d['mask'][0] if 'mask' in d else None), '{}: mask is {}', what, m.get_spatial_mask())
    if 'driver' in d:
        check(m.get_driver() == d['driver'], '{}: driver is {}', what, m.get_driver())
    if 'grid_abstraction' in d:
        check(m.get_grid_abstraction() == d['grid_abstraction'], '{}: abstraction is {}', what, m.get_grid_abstraction())
    if 'isomorphic' in d:
        check(m.get_property('is_isomorphic') == d['isomorphic'], '{}: isomorphic is {}', what, m.get_property('is_isomorphic'))
    for k in ('point', 'polygon'):
        t = m.get_topology(k)
        want = d.get('topology', {}).get(k)
        check((t is None) == (want is None), '{}: topology {} is {}', what, k, t)
        if t is not None:
            judge_map(t, want, what + '/' + k)
    for k, g in d.get('groups', {}).items():
        judge_map(m.get_group(k), g, what + '/' + k)


def run_dmap(case):
    import ocgis
    d = case['d']
    m, m2 = build_map(d), build_map(d)
    check(m == m2, 'the same entries give different dimension maps')
    for what, k in case['touch']:
        {'variable': m.get_variable, 'bounds': m.get_bounds, 'dimension': m.get_dimension, 'attrs': m.get_attrs}.get(what, lambda k: {
            'crs': m.get_crs, 'mask': m.get_spatial_mask, 'topology': lambda: m.get_topology('point'), 'driver': m.get_driver}[what]())(k)
    check(m == m2 and m2 == m, 'looking at entries changed the dimension map')
    a = m.as_dict()
    keep = copy.deepcopy(a)
    r = ocgis.DimensionMap.from_dict(a)
    check(a == keep, 'reading the dictionary changed it from {} to {}', keep, a)
    check(r == m and m == r, 'the dimension map read from {} is different: {}', a, r._storage)
    check(m == m2, 'writing the dictionary changed the dimension map')
    judge_map(r, d, 'read')
    judge_map(m, d, 'original')
    # The copy is independent.
    for k in AXES:
        r.set_variable(k, 'changed', dimension='other', bounds='changed_bounds')
    r.set_crs('other')
    for k in d.get('groups', {}):
        r.get_group(k).set_crs('other')
    for k in d.get('topology', {}):
        r.get_topology(k).set_variable('x', 'changed')
    judge_map(m, d, 'after changing the copy')
    check(len(d) == 0 or r != m, 'different dimension maps are equal')
    if len(d) < 2:
        return ''
    return '%d entries%s%s' % (min(len(d), 6), ' groups' if d.get('groups') else '', ' topology' if d.get('topology') else '')


# ---------------------------------------------------------------- variables of several datasets in one field
def gen_multi(draw):
    s = draw_file(draw)
    while len(s['vars']) < 2:
        v = copy.deepcopy(s['vars'][0])
        v['name'], v['seed'] = 'other%d' % len(s['vars']), draw(I(0, 99))
        s['vars'].append(v)
    names = list(draw(st.permutations([v['name'] for v in s['vars']])))
    k = draw(I(1, len(names) - 1))
    groups = [names[:k]] + [[n] for n in names[k:]]
    lays = [draw_layout(draw, s, extras=False) for _ in groups]
    for l in lays:
        l['unlim'] = False
    return {'s': s, 'groups': groups, 'lays': lays, 'rename': [chance(draw, .3) for _ in groups], 'ops': chance(draw, .4)}


def run_multi(case):
    import ocgis
    from ocgis.driver.request.multi_request import MultiRequestDataset
    s = case['s']
    rds, dn = [], {}
    for i, (g, lay, ren) in enumerate(zip(case['groups'], case['lays'], case['rename'])):
        p = copy.deepcopy(s)
        p['vars'] = [v for v in p['vars'] if v['name'] in g]
        lay = dict(lay, order=[o for o in lay['order'] if o in file_vars(p)])
        write(p, lay, 'm%d.nc' % i)
        kw = {'rename_variable': ['ren_' + n for n in g]} if ren else {}
        rds.append(ocgis.RequestDataset('m%d.nc' % i, variable=g, **kw))
        for v in p['vars']:
            dn[('ren_' if ren else '') + v['name']] = v
    m = MultiRequestDataset(rds)
    f = m.get()
    judge_field(s, f, 'field of several datasets', dnames=dn)
    check(sorted(m.variable) == sorted(v['name'] for v in s['vars']), 'variables are {}', m.variable)
    want = [next(v['units'] for v in s['vars'] if v['name'] == n) for n in m.variable]
    check(list(m.units) == want, 'units are {}, not {}', m.units, want)
    if case['ops']:
        ret = ocgis.OcgOperations(dataset=MultiRequestDataset(rds)).execute()
        judge_field(s, ret.get_element(), 'request', dnames=dn)
    return '%d datasets' % len(rds)


# ---------------------------------------------------------------- groups
def gen_groups(draw):
    def node(depth):
        d = {'s': draw_file(draw)}
        d['lay'] = draw_layout(draw, d['s'], extras=False)
        d['groups'] = {}
        if depth < 2:
            for n in ('g1', 'g2'):
                if chance(draw, .5 if depth else .8):
                    d['groups'][n] = node(depth + 1)
        return d
    return {'root': node(0)}


def run_groups(case):
    import netCDF4 as nc
    import ocgis
    count = [0]

    def put_node(ds, d):
        s = d['s']
        sizes = file_dims(s)
        for q in d['lay']['dims']:
            ds.createDimension(q, sizes[q])
        fv = file_vars(s)
        for n in d['lay']['order']:
            put(ds, n, fv[n])
        for g, sub in d['groups'].items():
            put_node(ds.createGroup(g), sub)
    with nc.Dataset('g.nc', 'w') as ds:
        put_node(ds, case['root'])
    rd = ocgis.RequestDataset('g.nc')
    f = rd.get()

    def judge(f, d, dm, what):
        count[0] += 1
        judge_dmap(d['s'], dm, what)
        judge_field(d['s'], f, what)
        check(sorted(f.children) == sorted(d['groups']), '{}: children are {}', what, list(f.children))
        for g, sub in d['groups'].items():
            judge(f.children[g], sub, dm.get_group(g), what + '/' + g)
    judge(f, case['root'], rd.dimension_map, 'root')
    f.write('h.nc')
    judge2(ocgis.RequestDataset('h.nc').get(), case['root'])
    return '' if count[0] < 2 else '%d groups' % (count[0] - 1)


def judge2(f, d):
    for v in d['s']['vars']:
        same(mval(f[v['name']]), values(d['s'], v), 'written ' + v['name'])
    for g, sub in d['groups'].items():
        check(g in f.children, 'group {} was not written', g)
        judge2(f.children[g], sub)


RTYPES = ['f8', 'f4', 'i4', 'i2', 'i1', 'u1', 'i8', 'S1', 'str']
RTEXT = ['m', 'days since 2000-1-1', 'say "hi" ;', 'a = 5', 'x{y', '', 'K']


def _rgroup(draw, depth, outer):
    g = {'dims': [], 'vars': [], 'attrs': [], 'groups': []}
    for i in range(draw(I(0, 3))):
        g['dims'].append([pick(draw, ['t', 'x', 'y', 'z', 'strlen']) + (str(depth) if depth else '') + '_' * i, draw(I(1, 4)), chance(draw, .25)])
    have = outer + [d[0] for d in g['dims']]
    for i in range(draw(I(0, 3))):
        dims = list(dict.fromkeys(pick(draw, have) for _ in range(draw(I(0, 3))))) if have else []
        g['vars'].append([pick(draw, ['tas', 'pr', 'time', 'lat']) + str(i), pick(draw, RTYPES), dims, _rattrs(draw, True)])
    g['attrs'] = _rattrs(draw, False)
    if depth < 2:
        for i in range(draw(I(0, 2)) if chance(draw, .5) else 0):
            g['groups'].append([pick(draw, ['g', 'hist', 'grp']) + str(i), _rgroup(draw, depth + 1, have)])
    return g


def _rattrs(draw, var):
    ret = []
    for k in draw(st.lists(st.sampled_from(['units', 'long_name', 'valid', 'n', 'note'] if var else ['title', 'n', 'history', 'Conventions', 'arr']), unique=True, max_size=3)):
        ret.append([k, pick(draw, RTEXT + [3, 2.5, [1, 2, 3], [.5, .25], -7])])
    return ret


def gen_report(draw):
    g = _rgroup(draw, 0, [])
    g['dims'] = [['x', 2, False]] + [d for d in g['dims'] if d[0] != 'x']
    g['vars'] = [['first', 'f4', ['x'], []]] + g['vars']
    return {'root': g, 'how': pick(draw, ['report', 'json', 'meta-json', 'inspect'])}


def _rwrite(g, d):
    for n, size, unl in g['dims']:
        d.createDimension(n, None if unl else size)
    for n, t, dims, attrs in g['vars']:
        v = d.createVariable(n, str if t == 'str' else t, dims)
        for k, a in attrs:
            v.setncattr(k, np.array(a) if isinstance(a, list) else np.int32(a) if isinstance(a, int) else a)
    for k, a in g['attrs']:
        d.setncattr(k, np.array(a) if isinstance(a, list) else np.int32(a) if isinstance(a, int) else a)
    for n, sub in g['groups']:
        _rwrite(sub, d.createGroup(n))


def _rexpect(d):
    """Contents as read by netCDF4 itself."""
    att = lambda o: {k: o.getncattr(k) for k in o.ncattrs()}
    return {'dims': {k: (len(v), bool(v.isunlimited())) for k, v in d.dimensions.items()},
            'vars': {k: ('str' if v.dtype is str else str(v.dtype), tuple(v.dimensions), att(v)) for k, v in d.variables.items()},
            'attrs': att(d), 'groups': {k: _rexpect(v) for k, v in d.groups.items()}}


def _rparse(lines):
    """Structure of a report: the nesting follows the braces of groups."""
    import re
    root = {'dims': {}, 'vars': {}, 'attrs': {}, 'groups': {}}
    stack, var = [root], None
    for line in lines:
        s = line.strip()
        cur = stack[-1]
        m = re.match(r'group: (\S+) \{$', s)
        if m:
            stack.append({'dims': {}, 'vars': {}, 'attrs': {}, 'groups': {}})
            cur['groups'][m.group(1)] = stack[-1]
            continue
        if re.match(r'\}( // group: \S+)?$', s):
            stack.pop()
            continue
        m = re.match(r':(\S+) = (.*) ;$', s, re.S)
        if m:
            cur['attrs'][m.group(1)] = m.group(2)
            continue
        m = re.match(r'([^\s:(]+):(\S+) = (.*) ;$', s, re.S)
        if m:
            cur['vars'][m.group(1)][2][m.group(2)] = m.group(3)
            continue
        m = re.match(r'(\S+) = (\d+|ISUNLIMITED) ;(?: // (\d+) currently)?$', s)
        if m:
            cur['dims'][m.group(1)] = (int(m.group(3) or m.group(2)), m.group(2) == 'ISUNLIMITED')
            continue
        m = re.match(r'(.+) (\S+)\((.*)\) ;$', s)
        if m:
            cur['vars'][m.group(2)] = (m.group(1), tuple(x.strip() for x in m.group(3).split(',') if x.strip()), {})
    check(len(stack) == 0 or stack == [root], 'braces of the report are not balanced:\n{}', '\n'.join(lines))
    return root


def _rcmp(exp, got, where, value):
    for what in ('dims', 'vars', 'attrs', 'groups'):
        check(list(got[what]) == list(exp[what]) or sorted(got[what]) == sorted(exp[what]), '{}: {} {} reported, {} in the file', where, what,
              list(got[what]), list(exp[what]))
    for k, v in exp['dims'].items():
        check(tuple(got['dims'][k]) == v, '{}: dimension {} reported as {}, is {}', where, k, got['dims'][k], v)
    for k, (t, dims, attrs) in exp['vars'].items():
        gt, gd, ga = got['vars'][k]
        if t != 'str':
            check(np.dtype(gt) == np.dtype(t), '{}: type of {} reported as {}, is {}', where, k, gt, t)
        else:
            check(' at 0x' not in gt, '{}: type of {} reported as {}', where, k, gt)
        check(tuple(gd) == dims, '{}: dimensions of {} reported as {}, are {}', where, k, gd, dims)
        check(sorted(ga) == sorted(attrs), '{}: attributes of {} reported as {}, are {}', where, k, sorted(ga), sorted(attrs))
        for a in attrs:
            check(value(attrs[a], ga[a]), '{}: attribute {} of {} reported as {}, is {}', where, a, k, ga[a], attrs[a])
    for a in exp['attrs']:
        check(value(exp['attrs'][a], got['attrs'][a]), '{}: attribute {} reported as {}, is {}', where, a, got['attrs'][a], exp['attrs'][a])
    for k in exp['groups']:
        _rcmp(exp['groups'][k], got['groups'][k], where + '/' + k, value)


def _rtext(a, t):
    return t == ('"' + a + '"' if isinstance(a, str) else str(a))


def _rjval(a, t):
    if isinstance(a, str):
        return t == a
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(t, dtype=float))


def _rjson(m):
    lit = lambda x: ast.literal_eval(x) if isinstance(x, str) else x
    # sizes, flags and names of dimensions may be given as text
    return {'dims': {k: (int(v['size']), lit(v['isunlimited'])) for k, v in m['dimensions'].items()},
            'vars': {k: (v['dtype'], tuple(lit(v['dimensions'])), v['attrs']) for k, v in m['variables'].items()},
            'attrs': m['global_attributes'], 'groups': {k: _rjson(v) for k, v in m['groups'].items()}}


def run_report(case):
    import json
    import netCDF4
    import ocgis
    d, fn = os.getcwd(), os.path.join(os.getcwd(), 'r.nc')
    with netCDF4.Dataset(fn, 'w') as ds:
        _rwrite(case['root'], ds)
    with netCDF4.Dataset(fn) as ds:
        exp = _rexpect(ds)
    rd = lambda: ocgis.RequestDataset(fn, variable='first')
    how = case['how']
    if how == 'report':
        got, val = _rparse(rd().driver.get_dump_report()[1:]), _rtext
    elif how == 'inspect':
        import io, contextlib
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            rd().inspect()
        got, val = _rparse(buf.getvalue().splitlines()[1:]), _rtext
    elif how == 'json':
        got, val = _rjson(json.loads(rd().driver.get_source_metadata_as_json())), _rjval
    else:
        r = ocgis.OcgOperations(dataset=rd(), output_format=how, dir_output=d).execute()
        got, val = _rjson(json.loads(r)), _rjval
    _rcmp(exp, got, 'root', val)
    g = case['root']
    return how if len(g['vars']) > 1 and (g['attrs'] or g['groups'] or any(v[3] for v in g['vars'])) else ''


TARGETS = [Target('layout', gen_layout, run_layout, 200, 3000, 'the two layouts differ; four axes, a coordinate system or a mask'),
           Target('override', gen_override, run_override, 300, 4000, 'at least one override is given'),
           Target('join', gen_join, run_join, 200, 3000, 'at least two files'),
           Target('dmap', gen_dmap, run_dmap, 400, 10000, 'at least two entries'),
           Target('multi', gen_multi, run_multi, 120, 2000, 'at least two datasets'),
           Target('groups', gen_groups, run_groups, 100, 2000, 'at least one group'),
           Target('report', gen_report, run_report, 150, 3000, 'attributes or groups, and two variables')]
