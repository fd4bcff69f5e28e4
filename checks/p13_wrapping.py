"""Wrapping, unwrapping and reordering of fields (histories of operations, 1-D/2-D grids, with bounds, allocated geometries, masks),
of geometry variables (holes, multi-parts, seam contacts), and spatial subsets with field and selection in either convention.
Oracle: plain arithmetic modulo 360 on the generated coordinates, shapely intersections/translations, set comparison by place.
Non-trivial: at least one coordinate changes convention (or the selection and the field use different ones)."""
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st
from checks.p11_spatial_subset import wkt, keep_by_definition


def lon_edges(draw, n, lo, hi, unit=1.):
    """n+1 ascending edges within lo..hi."""
    k = int((hi - lo) / unit)
    near = [0, k, k // 2, k // 2 + 1, k // 2 - 1, 10, k - 10]
    pool = st.one_of(I(0, k), st.sampled_from(near))
    v = sorted(draw(st.lists(pool, min_size=n + 1, max_size=n + 1, unique=True)))
    return [lo + unit * x for x in v]


def state(x):
    if (x > 180).any():
        return 'U'
    if (x < 0).any():
        return 'W'
    return '?'


# ------------------------------------------------------------------ field histories
def gen_hist(draw):
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 3), nx=(1, 6), nvars=(1, 2), order='any')
    s['crs'] = pick(draw, ['spherical', 'spherical', 'wgs84'])
    conv = pick(draw, ['U', 'U', 'W', 'half'])
    lo, hi = {'U': (0, 360), 'W': (-180, 180), 'half': (0, 180)}[conv]
    e = lon_edges(draw, s['nx'], lo, hi, pick(draw, [.5, 1., 10.]))
    s['xe'] = e[::-1] if chance(draw, .1) else e
    s['shear'] = [0, s['shear'][1]]
    case = {'field': s, 'ops': (['wrap', 'reorder'] if chance(draw, .4) else []) + [pick(draw, ['wrap', 'unwrap', 'reorder', 'wrap', 'copy']) for _ in range(draw(I(1, 4)))],
            'alloc': pick(draw, [None, None, 'point', 'polygon']), 'target': pick(draw, ['field', 'grid']), 'roll': draw(I(0, 5)) if chance(draw, .4) else 0,
            'xvar': chance(draw, .4), 'rowroll': chance(draw, .4), 'gmask': pick(draw, [None, None, 30]), 'file': chance(draw, .25), 'inplace': chance(draw, .8)}
    if case['roll']:
        # Stored starting at another meridian: cells rolled, still one convention.
        case['alloc'] = pick(draw, [None, 'point'])
    return case


def run_hist(case):
    import ocgis
    from ocgis import Variable
    s = case['field']
    f = G.build_field(s)
    nx, ny = s['nx'], s['ny']
    two = s['grid'] == '2d'
    X, Y = G.centres(s)
    roll = case['roll'] % nx
    BX = None
    if s['bounds']:
        BX = G.corners_from_vertices(G.vertices(s)[0]) if two else G.ebounds(s['xe'])
    if roll:
        perm = np.roll(np.arange(nx), -roll)
        X = X[:, perm]
        x = f.grid.x
        if two:
            x.get_value()[:] = X
            if s['bounds']:
                BX = BX[:, perm]
                x.bounds.get_value()[:] = BX
        else:
            x.get_value()[:] = X[0]
            if s['bounds']:
                BX = BX[perm]
                x.bounds.get_value()[:] = BX
    if two and case['rowroll']:
        # Rows stored with different starting meridians.
        for i in range(ny):
            p = np.roll(np.arange(nx), -(i % nx))
            X[i] = X[i][p]
            if s['bounds']:
                BX[i] = BX[i][p]
        f.grid.x.get_value()[:] = X
        if s['bounds']:
            f.grid.x.bounds.get_value()[:] = BX
    arrs = {v['name']: (G.varray(s, v), list(v['dims'])) for v in s['vars']}
    if case['xvar'] and not two:
        a = np.ma.array(np.arange(nx) * 3., mask=[i % 3 == 2 for i in range(nx)])
        f.add_variable(Variable('onx', a.data.copy(), 'x', mask=np.ma.getmaskarray(a).copy()))
        arrs['onx'] = (a, ['x'])
    gm = G.mask((ny, nx), s['vars'][0]['seed'], case['gmask'])
    if gm is not None and not gm.all():
        f.grid.set_mask(gm.copy(), cascade=False)
    else:
        gm = np.zeros((ny, nx), bool)
    if case['file'] and not (case['xvar'] and not two):
        if two or not gm.any():
            f.write(os.path.abspath('h.nc'))
            f = ocgis.RequestDataset(os.path.abspath('h.nc'), crs=G.crs_obj(s['crs'])).get()
    crossing = s['bounds'] and not roll and not (two and case['rowroll'])
    al = case['alloc'] if not (case['alloc'] == 'polygon' and not crossing) else None
    alloc = None
    if al == 'point':
        f.grid.get_point()
    elif al == 'polygon':
        f.grid.get_polygon()
        alloc = G.cells(s)
    orig = f
    f = f.copy()
    G.touch(orig)
    before = G.snap_coll(orig)
    # The model: longitudes, and for every array the source column of every element (all arrays move alike).
    x = X.copy()
    col = np.broadcast_to(np.arange(nx), (ny, nx)).copy()
    bounds = s['bounds']
    poly_ok = alloc is not None
    changed = False
    for op in case['ops']:
        stt = state(x)
        if op == 'copy':
            f = f.copy()
            continue
        if op == 'reorder':
            try:
                f.grid.reorder()
                raised = False
            except ValueError:
                raised = True
            check(raised == (stt != 'W'), 'reorder {} for state {}', 'raised' if raised else 'did not raise', stt)
            if raised:
                continue
            for i in range(ny):
                neg = np.where(x[i] < 0)[0]
                k = neg[0] if len(neg) else 0
                x[i], col[i] = np.roll(x[i], -k), np.roll(col[i], -k)
            continue
        tgt = f if case['target'] == 'field' else f.grid
        if op == 'wrap':
            if case['target'] == 'field' and not case['inplace']:
                f.wrap(inplace=False)
            else:
                tgt.wrap()
            if stt != 'W':
                changed = changed or (x > 180).any()
                x = np.where(x > 180, x - 360, x)
                bounds = False
        else:
            tgt.unwrap()
            if stt != 'U':
                changed = changed or (x < 0).any()
                x = np.where(x < 0, x + 360, x)
                bounds = False
    # Compare.
    g = f.grid
    got = g.get_value_stacked()
    arr_eq(got[1], x, 'longitudes after {}'.format(case['ops']))
    arr_eq(got[0], Y if not two else np.take_along_axis(Y, col, 1), 'latitudes')
    check(g.has_bounds == bounds, 'grid has bounds: {} expected {}', g.has_bounds, bounds)
    if bounds:
        want = np.take_along_axis(BX, col[:, :, None], 1) if two else BX[col[0]]
        arr_eq(g.x.bounds.get_value(), want, 'longitude bounds')
    gv = g.get_mask()
    wm = np.take_along_axis(gm, col, 1)
    check(np.array_equal(np.zeros((ny, nx), bool) if gv is None else gv, wm), 'grid mask {} expected {}', gv, wm.tolist())
    for n, (a, dims) in arrs.items():
        if n not in f:
            continue
        if 'y' in dims:
            b = np.moveaxis(np.ma.getdata(a), (dims.index('y'), dims.index('x')), (-2, -1))
            m = np.moveaxis(np.ma.getmaskarray(a), (dims.index('y'), dims.index('x')), (-2, -1))
            cc = np.broadcast_to(col, b.shape)
            b, m = np.take_along_axis(b, cc, -1), np.take_along_axis(m, cc, -1)
            b, m = (np.moveaxis(q, (-2, -1), (dims.index('y'), dims.index('x'))) for q in (b, m))
        else:
            b, m = np.ma.getdata(a)[col[0]], np.ma.getmaskarray(a)[col[0]]
        arr_eq(f[n].get_masked_value(), np.ma.array(b, mask=m), 'data of {}'.format(n))
    if al == 'point':
        pv = g.get_point().get_value()
        for i in np.ndindex(pv.shape):
            if not wm[i]:
                check((pv[i].x, pv[i].y) == (x[i], np.take_along_axis(Y, col, 1)[i]), 'point {} is {} expected x={}', i, pv[i].wkt, x[i])
    d = G.diff_coll(before, G.snap_coll(orig), order=False)
    check(d is None, 'source changed: {}', d)
    return '{}{}'.format('2d' if two else '1d', '-reordered' if (col != np.arange(nx)).any() else '') if changed or (col != np.arange(nx)).any() else ''


# ------------------------------------------------------------------ geometries
def gen_geoms(draw):
    conv = pick(draw, ['U', 'U', 'W', 'W'])
    lo, hi = {'U': (0, 360), 'W': (-180, 180)}[conv]
    seam = 180 if conv == 'U' else 0
    kind = pick(draw, ['poly', 'poly', 'point', 'mpoint'])
    kinds = {'poly': ('poly', 'poly', 'multi', 'hole'), 'point': ('point',), 'mpoint': ('mpoint', 'point')}[kind]
    xs = st.one_of(I(lo, hi), st.sampled_from([lo, hi, seam, seam - 10, seam + 10, seam + 1]))
    geoms = []
    for _ in range(draw(I(1, 4))):
        px = sorted(set(float(draw(xs)) for _ in range(5)))
        py = [-60., -20., 0., 10., 45.]
        geoms.append(G.draw_geom(draw, (px, py), kinds=kinds, unit=.5))
    n = len(geoms)
    return {'conv': conv, 'geoms': geoms, 'mask': draw(st.lists(st.booleans(), min_size=n, max_size=n)) if chance(draw, .3) else None,
            'ops': [pick(draw, ['wrap', 'unwrap']) for _ in range(draw(I(1, 3)))], 'direct': chance(draw, .5)}


def canon_geom(g):
    """Region on the circle as a geometry within 0..360."""
    from shapely.geometry import box, Point, MultiPoint
    from shapely.affinity import translate
    from shapely.ops import unary_union
    if g.geom_type in ('Point', 'MultiPoint'):
        return MultiPoint([(p.x % 360, p.y) for p in getattr(g, 'geoms', [g])])
    parts = []
    for p in getattr(g, 'geoms', [g]):
        for k in (-360, 0, 360):
            q = translate(p, xoff=k).intersection(box(0, -90, 360, 90))
            if q.area > 0:
                parts += [r for r in getattr(q, 'geoms', [q]) if r.area > 0]
    return unary_union(parts)


def run_geoms(case):
    from ocgis import GeometryVariable
    from ocgis.spatial.wrap import GeometryWrapper
    from ocgis.constants import WrappedState
    garr = np.empty(len(case['geoms']), dtype=object)
    for i, w in enumerate(case['geoms']):
        garr[i] = wkt(w)
        lo, hi = (0, 360) if case['conv'] == 'U' else (-180, 180)
        if not garr[i].is_valid or garr[i].bounds[0] < lo or garr[i].bounds[2] > hi:
            raise Skip
    m = None if case['mask'] is None or all(case['mask']) else np.array(case['mask'])
    canon = [canon_geom(g) for g in garr]
    changed = False

    def inside(g, op, what):
        b = g.bounds
        lo, hi = (-180, 180) if op == 'wrap' else (0, 360)
        check(lo <= b[0] and b[2] <= hi, '{}: bounds {} outside {}..{}', what, b, lo, hi)

    def same(g, i, what):
        c = canon_geom(g)
        w = canon[i]
        if w.area > 0:
            check(g.geom_type in ('Polygon', 'MultiPolygon'), '{}: became a {}', what, g.geom_type)
            check(abs(sum(p.area for p in getattr(g, 'geoms', [g])) - w.area) <= 1e-9 * w.area, '{}: area {} expected {}', what, g.area, w.area)
            check(c.symmetric_difference(w).area <= 1e-9 * w.area, '{}: region changed: {} expected {}', what, c.wkt, w.wkt)
        else:
            check(sorted((p.x, p.y) for p in c.geoms) == sorted((p.x, p.y) for p in w.geoms), '{}: {} expected {}', what, g.wkt, w.wkt)

    if case['direct']:
        w = GeometryWrapper()
        for i in range(len(garr)):
            g = garr[i]
            for op in case['ops']:
                g2 = getattr(w, op)(g)
                inside(g2, op, '{} of {}'.format(op, g.wkt))
                same(g2, i, '{} of {}'.format(op, g.wkt))
                changed = changed or not g2.equals(g)
                g3 = getattr(w, op)(g2)
                check(canon_geom(g3).equals(canon_geom(g2)) and g3.bounds == g2.bounds, '{} twice: {} then {}', op, g2.wkt, g3.wkt)
                g = g2
        return 'direct' if changed else ''
    gv = GeometryVariable(name='geom', value=garr.copy(), dimensions='ge', mask=m, crs=G.crs_obj('spherical'))
    vals = garr.copy()
    live = [i for i in range(len(garr)) if m is None or not m[i]]
    for op in case['ops']:
        first = None
        for i in live:
            xs = np.concatenate([np.array(getattr(p, 'exterior', p).coords)[:, 0] for p in getattr(vals[i], 'geoms', [vals[i]])])
            sx = state(xs)
            if sx != '?':
                first = sx
                break
        wanted = {'U': WrappedState.UNWRAPPED, 'W': WrappedState.WRAPPED, None: WrappedState.UNKNOWN}[first]
        check(gv.wrapped_state == wanted, 'wrapped state {} expected {}', gv.wrapped_state, wanted)
        held = gv.get_value()
        keep = [g.wkt for g in held]
        getattr(gv, op)()
        check([g.wkt for g in held] == keep, 'the array given by the caller was changed')
        for i in range(len(garr)):
            if i not in live:
                continue
            g = gv.get_value()[i]
            same(g, i, '{} of geometry {}'.format(op, i))
            if first != {'wrap': 'W', 'unwrap': 'U'}[op]:
                inside(g, op, '{} of geometry {}'.format(op, i))
            changed = changed or not g.equals(vals[i])
            vals[i] = g
    return 'variable' if changed else ''


# ------------------------------------------------------------------ subsets across conventions
def gen_subset(draw):
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 3), nx=(2, 7), nvars=(1, 1), order=pick(draw, [None, 'any']), grid=('1d', '1d', '2d'))
    s['crs'] = 'spherical'
    fc, sc = pick(draw, ['U', 'U', 'W']), pick(draw, ['U', 'W', 'W'])
    lo, hi = {'U': (0, 360), 'W': (-180, 180)}[fc]
    s['xe'] = lon_edges(draw, s['nx'], lo, hi, pick(draw, [1., 5.]))
    s['ye'] = [-30. + 10 * i for i in range(s['ny'] + 1)]
    s['shear'] = [0, 0]
    slo, shi = {'U': (0, 360), 'W': (-180, 180)}[sc]
    pool = sorted({(x - slo) % 360 + slo for x in s['xe']} | {slo, shi, slo + 180.} | {float(draw(I(slo, shi))) + .25 for _ in range(4)})
    pool = [x for x in pool if slo <= x <= shi]
    kinds = pick(draw, [('poly', 'multi'), ('poly', 'hole'), ('point',)])
    from shapely.affinity import translate
    want = chance(draw, .9)
    for _ in range(5):
        sel = G.draw_geom(draw, (pool, [-30., -20., -17.25, -10., 0.25, 5.]), kinds=kinds)
        g = [translate(wkt(sel), xoff=k) for k in (-360, 0, 360)]
        if not want or any(q.intersects(p) for q in g for p in G.points(s).flat):
            break
    return {'field': s, 'fc': fc, 'sc': sc, 'sel': sel, 'op': pick(draw, ['intersects', 'intersects', 'clip']), 'via': pick(draw, ['sso', 'ops', 'ops']),
            'wrap': pick(draw, [None, 'wrap', 'unwrap']), 'reorder': chance(draw, .25), 'abstraction': pick(draw, ['auto', 'point']), 'file': chance(draw, .3)}


def run_subset(case):
    import ocgis
    from ocgis.exc import EmptySubsetError, ExtentError
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    from shapely.affinity import translate
    from shapely.ops import unary_union
    s = case['field']
    sel = wkt(case['sel'])
    lo, hi = (0, 360) if case['sc'] == 'U' else (-180, 180)
    if not sel.is_valid or sel.bounds[0] < lo or sel.bounds[2] > hi:
        raise Skip
    poly = s['bounds'] and case['abstraction'] == 'auto'
    X, Y = G.centres(s)
    nstate = state(X)
    if nstate == '?' and poly and (max(s['xe']) > 180 or min(s['xe']) < 0):
        raise Skip  # The convention is judged by centres: undetermined here although cells reach over the meridian.
    if case['via'] == 'ops' and case['reorder'] and case['wrap'] and nstate != {'wrap': 'W', 'unwrap': 'U'}[case['wrap']]:
        poly = False  # Wrapping drops the bounds of a grid and comes before the subset when reordering is requested.
    garr = G.cells(s) if poly else G.points(s)
    everywhere = unary_union([translate(sel, xoff=k) for k in (-360, 0, 360)]) if sel.area > 0 else None
    keep = np.zeros(garr.shape, bool)
    for i in np.ndindex(garr.shape):
        g = garr[i]
        if sel.area == 0:
            # Points on seam meridians have two representations: not judged.
            if sel.x % 180 == 0:
                raise Skip
            p = [translate(sel, xoff=k) for k in (-360, 0, 360)]
            keep[i] = any(q.intersects(g) and (not poly or not q.touches(g)) for q in p)
        elif poly:
            keep[i] = g.intersection(everywhere).area > 0
        else:
            keep[i] = g.intersects(everywhere)
            if keep[i] and (g.x % 180 == 0 or not everywhere.contains(g)):
                raise Skip  # contact along a boundary that may be a seam
    path = os.path.abspath('in.nc')
    if case['file']:
        G.write_nc(s, path)
        ds = ocgis.RequestDataset(path, variable=s['vars'][0]['name'], crs=G.crs_obj('spherical'))
        if case['via'] == 'sso':
            ds = ds.get(grid_abstraction='point' if case['abstraction'] == 'point' else 'auto')
    else:
        ds = G.build_field(s, name='f')
        if case['abstraction'] == 'point':
            ds.grid.abstraction = 'point'
    G.touch(ds) if not case['file'] else None
    before = G.snap_coll(ds) if not case['file'] else None
    ocrs = G.crs_obj('spherical')
    try:
        if case['via'] == 'sso':
            out = SpatialSubsetOperation(ds, wrap=case['wrap'] == 'wrap').get_spatial_subset(case['op'], sel, geom_crs=ocrs)
        else:
            kw = dict(dataset=ds, geom=[{'geom': sel, 'properties': {'UGID': 1}, 'crs': ocrs}], spatial_operation=case['op'], output_format='ocgis',
                      spatial_wrapping=case['wrap'])
            if case['abstraction'] == 'point':
                kw['abstraction'] = 'point'
            if case['reorder']:
                kw['spatial_reorder'] = True
            out = ocgis.OcgOperations(**kw).execute().get_element()
        raised = False
    except (EmptySubsetError, ExtentError):
        raised = True
    if before is not None:
        d = G.diff_coll(before, G.snap_coll(ds), order=False)
        check(d is None, 'source changed: {}', d)
    if not keep.any():
        check(raised, 'nothing lies in the selection but no error')
        return 'empty'
    check(not raised, 'empty-subset error but {} places lie in the selection', int(keep.sum()))
    # Compare as sets of places.
    v = s['vars'][0]
    a = np.moveaxis(G.varray(s, v), (v['dims'].index('y'), v['dims'].index('x')), (-2, -1))
    got = out[v['name']]
    names = list(got.dimension_names)
    b = np.moveaxis(got.get_masked_value(), (names.index('y'), names.index('x')), (-2, -1))
    if case['op'] == 'clip' or out.grid is None:
        gmask = out.geom.get_mask()
    else:
        gmask = out.grid.get_mask()
    st_ = out.grid.get_value_stacked()
    gx, gy = st_[1], st_[0]
    gmask = np.zeros(gx.shape, bool) if gmask is None else gmask

    def recs(xx, yy, data, sel_):
        r = {}
        for i in np.ndindex(xx.shape):
            if sel_[i]:
                q = data[(Ellipsis,) + i]
                r[(float(xx[i] % 360), float(yy[i]))] = np.ma.filled(np.ma.asarray(q, dtype=float), -777.).ravel().tolist()
        return r
    e, r = recs(X, Y, a, keep), recs(gx, gy, b, ~gmask)
    check(set(e) == set(r), 'places {} expected {} (selection {})', sorted(r), sorted(e), case['sel'])
    check(e == r, 'data at the places {} expected {}', r, e)
    if case['via'] == 'sso':
        eff = 'wrap' if case['wrap'] == 'wrap' and state(gx) != '?' and nstate == 'U' else None
    else:
        eff = case['wrap']
    k = gx[~gmask]
    if eff == 'wrap':
        check((k <= 180).all() and (k >= -180).all(), 'longitudes {} not wrapped', k.tolist())
    elif eff == 'unwrap':
        check((k >= 0).all() and (k <= 360).all(), 'longitudes {} not unwrapped', k.tolist())
    else:
        check(set(k.tolist()) <= set(X.ravel().tolist()), 'longitudes {} are not those of the field', k.tolist())
    return '{}-{}{}{}'.format(case['fc'], case['sc'], '-wrapped' if eff else '', '-' + case['via'])


TARGETS = [
    Target('history', gen_hist, run_hist, quick=1200, thorough=20000, rule='a longitude changes convention or a column moves'),
    Target('geoms', gen_geoms, run_geoms, quick=1500, thorough=30000, rule='a geometry changes'),
    Target('subset', gen_subset, run_subset, quick=700, thorough=12000, rule='the selection meets some place, or the empty error is due'),
]
