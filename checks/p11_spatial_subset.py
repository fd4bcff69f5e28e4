"""Spatial subsets of grids (rectilinear/2-D, with/without bounds, irregular and single-cell, masked; in memory or from file), of
geometry variables and through OcgOperations; oracle: shapely predicates evaluated cell by cell on geometries built independently
from the generated edges. Non-trivial: some but not all elements are kept, or the empty error is due."""
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st


def wkt(s):
    from shapely import wkt as w
    return w.loads(s)


def keep_by_definition(geoms, sel, keep_touches):
    out = np.zeros(geoms.shape, dtype=bool)
    for i in np.ndindex(geoms.shape):
        out[i] = sel.intersects(geoms[i]) and (keep_touches or not sel.touches(geoms[i]))
    return out


def bbox_slice(keep):
    ax = [np.where(keep.any(axis=tuple(k for k in range(keep.ndim) if k != d)))[0] for d in range(keep.ndim)]
    return tuple(slice(a[0], a[-1] + 1) for a in ax)


def same_geom(got, want, what):
    if want.is_empty or got.is_empty:
        check(want.is_empty and got.is_empty, '{}: geometry {} expected {}', what, got.wkt, want.wkt)
        return
    if got.equals(want):
        return
    tol = 1e-9
    if want.area > 0 or got.area > 0:
        d = got.symmetric_difference(want).area
        check(d <= tol * max(1., want.area), '{}: geometry {} expected {}', what, got.wkt, want.wkt)
    elif want.length > 0 or got.length > 0:
        check(abs(got.length - want.length) <= tol * max(1., want.length) and got.distance(want) <= tol and
              got.hausdorff_distance(want) <= 1e-7, '{}: geometry {} expected {}', what, got.wkt, want.wkt)
    else:
        check(got.hausdorff_distance(want) <= 1e-7, '{}: geometry {} expected {}', what, got.wkt, want.wkt)


# ------------------------------------------------------------------ grids
def gen_grid(draw):
    s = G.draw_field(draw, nt=(1, 2), nl='maybe', ny=(1, 5), nx=(1, 5), nvars=(1, 2), order='any', x={'lo': -20, 'hi': 20, 'maxstep': 6},
                     y={'lo': -20, 'hi': 20, 'maxstep': 6})
    for v in s['vars']:
        if chance(draw, .35):  # variables on the grid dimensions alone
            v['dims'] = [d for d in v['dims'] if d in 'yx']
    case = {'field': s, 'via': pick(draw, ['grid', 'grid', 'sso', 'file', 'geom'])}
    # Lines are not supported with spherical coordinate systems (NotImplementedError by design).
    kinds = ('poly', 'poly', 'multi', 'hole', 'point', 'mpoint') + (() if case['via'] == 'file' else ('line',))
    case['sel'] = G.draw_sel(draw, s, kinds)
    case['op'] = pick(draw, ['intersects', 'intersects', 'intersects', 'clip'])
    case['keep_touches'] = pick(draw, ['auto', 'auto', True, False])
    case['use_bounds'] = pick(draw, ['auto', 'auto', False]) if case['via'] == 'grid' else 'auto'
    case['gmask'] = pick(draw, [None, None, 20, 40])
    case['optimized'] = case['op'] == 'intersects' and case['via'] in ('grid', 'sso') and chance(draw, .2)
    case['si'] = chance(draw)
    case['return_slice'] = chance(draw)
    case['cascade'] = chance(draw, .8)
    return case


def field_of(case, path='in.nc'):
    import ocgis
    s = case['field']
    if case['via'] == 'file':
        G.write_nc(s, os.path.abspath(path))
        # Without grid_abstraction the grid is polygonal when it has bounds; units of degrees imply no coordinate system here.
        f = ocgis.RequestDataset(os.path.abspath(path)).get()
    else:
        f = G.build_field(s)
    gm = G.mask((s['ny'], s['nx']), s['vars'][0]['seed'], case['gmask'])
    if gm is not None:
        f.grid.set_mask(gm.copy(), cascade=False)
    return f, gm if gm is not None else np.zeros((s['ny'], s['nx']), bool)


def run_grid(case):
    from ocgis.exc import EmptySubsetError
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    s = case['field']
    f, gm = field_of(case)
    sel = wkt(case['sel'])
    poly = s['bounds'] and case['use_bounds'] == 'auto'
    geoms = G.cells(s) if poly else G.points(s)
    kt = case['keep_touches']
    opt = case['optimized']
    via = case['via']
    if via == 'geom':
        f.set_abstraction_geom()
        if kt == 'auto':
            kt = False
        f = field_without_grid(f)
    elif kt == 'auto':
        kt = not poly
    if opt:
        geoms, sel_used, kt = G.points(s), None, True
        x0, y0, x1, y1 = sel.bounds
        keep = np.array([x0 <= p.x <= x1 and y0 <= p.y <= y1 for p in geoms.flat]).reshape(geoms.shape)
        if len(getattr(sel, 'geoms', [sel])) > 1:
            keep = np.zeros(geoms.shape, bool)
            for part in sel.geoms:
                a, b, c, d = part.bounds
                keep |= np.array([a <= p.x <= c and b <= p.y <= d for p in geoms.flat]).reshape(geoms.shape)
    else:
        keep = keep_by_definition(geoms, sel, kt)
    keep &= ~gm
    G.touch(f)
    before = G.snap_coll(f)
    kw = {'cascade': case['cascade']}
    if case['return_slice']:
        kw['return_slice'] = True
    if opt:
        kw['optimized_bbox_subset'] = True
    kt_arg = case['keep_touches']
    ktk = {} if kt_arg == 'auto' else {'keep_touches': kt_arg}
    try:
        if via in ('grid',):
            kw['use_bounds'] = case['use_bounds'] if s['bounds'] else 'auto'
            kw.update(ktk)
            r = f.grid.get_intersection(sel, **kw) if case['op'] == 'clip' else f.grid.get_intersects(sel, **kw)
        elif via == 'geom':
            kw.update(ktk)
            kw['use_spatial_index'] = case['si']
            r = f.geom.get_intersection(sel, **kw) if case['op'] == 'clip' else f.geom.get_intersects(sel, **kw)
        else:
            kw.update(ktk)
            if f.crs is not None:
                kw['geom_crs'] = f.crs
            r = SpatialSubsetOperation(f).get_spatial_subset(case['op'], sel, **kw)
        raised = False
    except EmptySubsetError:
        raised = True
    d = G.diff_coll(before, G.snap_coll(f), order=False)
    check(d is None, 'source changed by the subset: {}', d)
    if not keep.any():
        check(raised, 'nothing meets the selection {} but no empty-subset error was raised', case['sel'])
        return 'empty'
    check(not raised, 'empty-subset error although {} element(s) meet the selection {}', int(keep.sum()), case['sel'])
    want_slc = bbox_slice(keep)
    if case['return_slice']:
        r, slc = r
        check([(x.start, x.stop) for x in slc] == [(x.start, x.stop) for x in want_slc], 'slice {} expected {}', slc, want_slc)
    out = r if via == 'sso' or via == 'file' else r.parent
    k = keep[want_slc]
    if via == 'geom':
        m = out.geom.get_mask()
    else:
        m = out.grid.get_mask()
    m = np.zeros(k.shape, bool) if m is None else m
    check(np.array_equal(m, ~k), 'mask {} expected {} (selection {})', m.astype(int).tolist(), (~k).astype(int).tolist(), case['sel'])
    # Coordinates.
    if via != 'geom':
        X, Y = G.centres(s)
        gs = out.grid.get_value_stacked()
        arr_eq(gs[1], X[want_slc], 'x of the subset', atol=1e-12)
        arr_eq(gs[0], Y[want_slc], 'y of the subset', atol=1e-12)
        if s['bounds']:
            cl = G.cells(s)[want_slc]
            got = out.grid.get_polygon().get_value()
            for i in np.ndindex(cl.shape):
                if k[i]:
                    check(got[i].equals(cl[i]), 'cell {} of the subset is {} expected {}', i, got[i].wkt, cl[i].wkt)
    # Data.
    names = [v['name'] for v in s['vars']]
    for v in s['vars']:
        want = G.varray(s, v)
        dims = v['dims']
        idx = tuple(want_slc['yx'.index(d)] if d in 'yx' else slice(None) for d in dims)
        want = want[idx]
        if case['cascade']:
            kk = k if dims.index('y') < dims.index('x') else k.T
            sh = [want.shape[a] if d in 'yx' else 1 for a, d in enumerate(dims)]
            want = np.ma.array(want.data, mask=np.ma.getmaskarray(want) | ~kk.reshape(sh))
        check(list(out[v['name']].dimension_names) == [G.DIMN[d] for d in dims], 'dimensions of {}', v['name'])
        arr_eq(out[v['name']].get_masked_value(), want, 'data of {}'.format(v['name']))
    # Geometries.
    if case['op'] == 'clip' or via == 'geom':
        gv = r.geom if via in ('sso', 'file') else r
        val = gv.get_value()
        gg = geoms[want_slc]
        for i in np.ndindex(k.shape):
            if k[i]:
                want = gg[i].intersection(sel) if case['op'] == 'clip' else gg[i]
                same_geom(val[i], want, 'geometry {}'.format(i))
    return '{}-{}{}'.format(via, case['op'], '-all' if keep.all() else '') if not keep.all() else ''


def field_without_grid(f):
    """The same data and geometries without a grid."""
    from ocgis import Field, Variable
    geom = f.geom
    vs = [f[n].extract() for n in f._tags['_ocgis_data_variables']] if '_ocgis_data_variables' in f._tags else [v.extract() for v in f.data_variables]
    out = Field(geom=geom.extract(), variables=vs, is_data=[v.name for v in vs])
    check(out.grid is None, 'field without coordinates has a grid')
    G.touch(out)
    return out


# ------------------------------------------------------------------ geometry variables
def gen_geoms(draw):
    n = draw(I(1, 7))
    typ = pick(draw, ['poly', 'poly', 'point', 'line', 'mixed'])
    kinds = {'poly': ('poly', 'poly', 'multi', 'hole'), 'point': ('point',), 'line': ('line',), 'mixed': ('poly', 'multi')}[typ]
    ext = (-4, -4, 4, 4)
    case = {'geoms': [G.draw_geom(draw, ext, kinds=kinds) for _ in range(n)], 'type': typ, 'sel': G.draw_geom(draw, ext),
            'mask': draw(st.lists(st.booleans(), min_size=n, max_size=n)) if chance(draw, .4) else None,
            'si': chance(draw), 'kt': chance(draw), 'slice': chance(draw), 'op': pick(draw, ['intersects', 'clip', 'nearest', 'mask', 'ops']),
            'nt': draw(I(1, 2)), 'dmask': pick(draw, [None, 30]), 'tfirst': chance(draw), 'bounds': chance(draw, .2), 'nocheck': chance(draw, .2)}
    if case['mask'] is not None and all(case['mask']):
        case['mask'][0] = False
    if case['op'] == 'nearest':
        case['sel'] = G.draw_geom(draw, ext, kinds=('point', 'poly'))
    return case


def run_geoms(case):
    from ocgis import GeometryVariable, Field, Variable
    from ocgis.exc import EmptySubsetError
    n = len(case['geoms'])
    garr = np.empty(n, dtype=object)
    for i, w in enumerate(case['geoms']):
        garr[i] = wkt(w)
    m = np.zeros(n, bool) if case['mask'] is None else np.array(case['mask'])
    val = np.arange(n * case['nt'] * 1.).reshape(case['nt'], n)
    dm = np.zeros(val.shape, bool) if case['dmask'] is None else np.random.RandomState(n).randint(0, 100, val.shape) < case['dmask']
    dims = ['time', 'ge']
    if not case['tfirst']:
        val, dm, dims = val.T.copy(), dm.T.copy(), dims[::-1]
    gv = GeometryVariable(name='geom', value=garr.copy(), dimensions='ge', mask=None if case['mask'] is None else m.copy())
    f = Field(geom=gv, variables=[Variable('data', val.copy(), dims, mask=dm.copy()), Variable('gid', np.arange(n) + 1, 'ge')], is_data='data')
    G.touch(f)
    f.geom.get_mask(create=True)
    sel = wkt(case['sel'])
    keep = keep_by_definition(garr, sel, case['kt']) & ~m
    before = G.snap_coll(f)
    if case['op'] == 'nearest':
        c = sel.centroid
        dist = np.array([c.distance(g) for g in garr])
        dist[m] = np.inf
        r, idx = f.geom.get_nearest(sel, return_indices=True)
        i = int(np.atleast_1d(np.array(idx))[0])
        check(not m[i], 'nearest returned a masked geometry')
        check(dist[i] == dist.min(), 'nearest geometry {} at {} but {} is at {}', i, dist[i], int(dist.argmin()), dist.min())
        check(r.shape == (1,) and r.get_value()[0].equals(garr[i]), 'nearest geometry differs from its index')
        check(int(r.parent['gid'].get_value()[0]) == i + 1, 'variables not sliced to the nearest geometry')
        check(G.diff_coll(before, G.snap_coll(f)) is None, 'source changed by get_nearest: {}', G.diff_coll(before, G.snap_coll(f)))
        return 'nearest' if n > 1 else ''
    kw = {'use_spatial_index': case['si'], 'keep_touches': case['kt']}
    if case['op'] == 'mask':
        arg = sel
        if case['bounds']:
            from shapely.geometry import box
            b = sel.bounds
            if b[0] == b[2] or b[1] == b[3]:
                raise Skip
            arg, keep = b, keep_by_definition(garr, box(*b), case['kt']) & ~m
        got = f.geom.get_mask_from_intersects(arg, **kw)
        check(np.array_equal(got, ~keep), 'mask {} expected {}', got.tolist(), (~keep).tolist())
        return 'mask' if keep.any() and not keep.all() else ''
    if case['slice']:
        kw['return_slice'] = True
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    nocheck = case['op'] == 'clip' and case['nocheck'] and not case['slice']
    try:
        if case['op'] == 'ops':
            r = SpatialSubsetOperation(f).get_spatial_subset('intersects', sel, **kw)
        elif nocheck:
            r = f.geom.get_intersection(sel, intersects_check=False)
        elif case['op'] == 'clip':
            r = f.geom.get_intersection(sel, **kw)
        else:
            r = f.geom.get_intersects(sel, **kw)
        raised = False
    except EmptySubsetError:
        raised = True
    d = G.diff_coll(before, G.snap_coll(f))
    check(d is None, 'source changed by the subset: {}', d)
    if nocheck:
        for i in range(n):
            if not m[i]:
                same_geom(r.get_value()[i], garr[i].intersection(sel), 'geometry {}'.format(i))
        return 'nocheck'
    if not keep.any():
        check(raised, 'nothing meets the selection but no empty-subset error was raised')
        return 'empty'
    check(not raised, 'empty-subset error although {} element(s) meet the selection', int(keep.sum()))
    slc = bbox_slice(keep)
    if case['slice']:
        r, got = r
        check([(x.start, x.stop) for x in got] == [(x.start, x.stop) for x in slc], 'slice {} expected {}', got, slc)
    out = r if case['op'] == 'ops' else r.parent
    k = keep[slc]
    gm = out.geom.get_mask()
    check(np.array_equal(np.zeros(k.shape, bool) if gm is None else gm, ~k), 'mask {} expected {}', gm, ~k)
    for i in np.ndindex(k.shape):
        if k[i]:
            g = garr[slc][i]
            same_geom(out.geom.get_value()[i], g.intersection(sel) if case['op'] == 'clip' else g, 'geometry {}'.format(i))
    ax = dims.index('ge')
    want = np.ma.array(val, mask=dm)[(slice(None),) * ax + slc]
    want = np.ma.array(want.data, mask=np.ma.getmaskarray(want) | (~k if ax == 1 else ~k[:, None]))
    arr_eq(out['data'].get_masked_value(), want, 'data')
    arr_eq(out['gid'].get_masked_value(), np.ma.array(np.arange(n) + 1, mask=False)[slc] if k.all() else np.ma.array((np.arange(n) + 1)[slc], mask=~k), 'gid')
    return '' if keep.all() else '{}-{}'.format(case['type'], case['op'])


# ------------------------------------------------------------------ operations with several selections
def gen_ops(draw):
    s = G.draw_field(draw, nt=(1, 2), nl='maybe', ny=(2, 5), nx=(2, 5), nvars=(1, 2), x={'lo': -20, 'hi': 20, 'maxstep': 4},
                     y={'lo': -20, 'hi': 20, 'maxstep': 4})
    s['crs'] = 'spherical'
    n = draw(I(1, 3))
    kinds = pick(draw, [('poly', 'poly', 'multi'), ('poly', 'poly', 'multi'), ('point',)])
    case = {'field': s, 'sels': [G.draw_sel(draw, s, kinds) for _ in range(n)],
            'op': pick(draw, ['intersects', 'clip']), 'file': chance(draw, .4), 'abstraction': pick(draw, ['auto', 'auto', 'point'] + (['polygon'] if s['bounds'] else [])),
            'allow_empty': chance(draw), 'agg_selection': chance(draw, .25), 'nearest': chance(draw, .15), 'ugid': [draw(I(1, 3)) + 4 * i for i in range(n)],
            'optimized': chance(draw, .15)}
    if case['optimized']:
        case['op'] = 'intersects'
    # Points may select everything within a radius given in multiples of the resolution.
    case['radius'] = pick(draw, [None, .4, .75, 1.1, 2.3]) if kinds == ('point',) else None
    return case


def resolution(s):
    p = G.points(s)
    x, y = [np.array([getattr(g, k) for g in p.flat]).reshape(p.shape) for k in 'xy']
    return (np.abs(np.diff(x, axis=1)).mean() + np.abs(np.diff(y, axis=0)).mean()) / 2


def run_ops(case):
    import ocgis
    from ocgis.exc import ExtentError
    from shapely.ops import unary_union
    s = case['field']
    names = [v['name'] for v in s['vars']]
    if case['file']:
        G.write_nc(s, os.path.abspath('in.nc'))
        ds = ocgis.RequestDataset(os.path.abspath('in.nc'), variable=names, crs=G.crs_obj('spherical'))
    else:
        ds = G.build_field(s, name='f')
    sels = [wkt(w) for w in case['sels']]
    kw = dict(dataset=ds, output_format='ocgis', geom=[{'geom': g, 'properties': {'UGID': u}, 'crs': G.crs_obj('spherical')} for g, u in zip(sels, case['ugid'])],
              spatial_operation=case['op'], allow_empty=case['allow_empty'], agg_selection=case['agg_selection'],
              select_nearest=case['nearest'], optimized_bbox_subset=case['optimized'])
    if case['abstraction'] != 'auto':
        kw['abstraction'] = case['abstraction']
    poly = s['bounds'] and case['abstraction'] != 'point'
    geoms = G.cells(s) if poly else G.points(s)
    units = list(zip(case['ugid'], sels))
    if case['agg_selection']:
        U = unary_union(sels)
        units = [(1, U)]
        # New vertices of a union are rounded: whether an element lying exactly on them is inside is not defined.
        old = {c for g in sels for p in getattr(g, 'geoms', [g]) for c in getattr(p, 'exterior', p).coords}
        new = {c for p in getattr(U, 'geoms', [U]) for c in getattr(p, 'exterior', p).coords}
        if not case['radius'] and new - old:
            for g in geoms.flat:
                if g.distance(U.boundary) < 1e-9 and (g.area == 0 or g.intersection(U).area < 1e-9):
                    raise Skip
    if case['radius']:
        units = [(u, g.buffer(case['radius'] * resolution(s))) for u, g in units]
        kw['search_radius_mult'] = case['radius']
        for _, U in units:
            if any(g.distance(U.boundary) < 1e-9 and (g.area == 0 or g.intersection(U).area < 1e-9) for g in geoms.flat):
                raise Skip
    want = []
    for u, sel in units:
        if case['optimized']:
            keep = np.zeros(geoms.shape, bool)
            for part in getattr(sel, 'geoms', [sel]):
                a, b, c, d = part.bounds
                keep |= np.array([a <= p.x <= c and b <= p.y <= d for p in G.points(s).flat]).reshape(geoms.shape)
        else:
            keep = keep_by_definition(geoms, sel, not poly)
        want.append((u, sel, keep))
    try:
        coll = ocgis.OcgOperations(**kw).execute()
        raised = False
    except ExtentError:
        raised = True
    if not case['allow_empty'] and not all(k.any() for _, _, k in want):
        check(raised, 'a selection meets nothing, allow_empty is off, but there was no error')
        return 'error'
    check(not raised, 'extent error although every selection meets something (or empty output is allowed)')
    check(sorted(coll.children) == sorted(u for u, _, _ in want), 'containers {} expected {}', list(coll.children), [u for u, _, _ in want])
    for u, sel, keep in want:
        fld = coll.get_element(container_ugid=u)
        if not keep.any():
            check(fld.is_empty, 'selection {} meets nothing but the field is not empty', u)
            continue
        check(not fld.is_empty, 'selection {} meets something but the field is empty', u)
        if not case['agg_selection']:
            sg = coll.geoms[u]
            check(sg.equals(sel) or case['radius'] and sg.symmetric_difference(sel).area < 1e-9, 'selection geometry {} of the collection is {} expected {}', u, sg.wkt, sel.wkt)
        slc = bbox_slice(keep)
        if case['nearest']:
            c = sel.centroid
            cand = [i for i in np.ndindex(keep.shape) if keep[i]]
            g = {i: (geoms[i].intersection(sel) if case['op'] == 'clip' else geoms[i]) for i in cand}
            dist = {i: c.distance(g[i]) for i in cand}
            best = min(dist.values())
            pos = [i for i in cand if dist[i] <= best + 1e-12]
            check(fld.geom.get_masked_value().compressed().size == 1, 'select_nearest returned {} geometries', fld.geom.shape)
            ok = False
            for i in pos:
                ok = ok or all(np.ma.allequal(np.ma.asarray(fld[v['name']].get_masked_value()).ravel(),
                                              G.varray(s, v)[tuple(i['yx'.index(d)] if d in 'yx' else slice(None) for d in v['dims'])].ravel())
                               for v in s['vars'])
            check(ok, 'nearest data are not those of a nearest element {}', pos)
            continue
        k = keep[slc]
        for v in s['vars']:
            w = G.varray(s, v)
            dims = v['dims']
            w = w[tuple(slc['yx'.index(d)] if d in 'yx' else slice(None) for d in dims)]
            kk = k if dims.index('y') < dims.index('x') else k.T
            sh = [w.shape[a] if d in 'yx' else 1 for a, d in enumerate(dims)]
            arr_eq(fld[v['name']].get_masked_value(), np.ma.array(w.data, mask=np.ma.getmaskarray(w) | ~kk.reshape(sh)), 'data of {} for {}'.format(v['name'], u))
        if case['op'] == 'clip':
            val = fld.geom.get_value()
            for i in np.ndindex(k.shape):
                if k[i]:
                    same_geom(val[i], geoms[slc][i].intersection(sel), 'geometry {}'.format(i))
    return 'ops{}{}'.format(len(want), '-agg' if case['agg_selection'] else '') if not all(k.all() for _, _, k in want) else ''


TARGETS = [
    Target('grid', gen_grid, run_grid, quick=1500, thorough=20000, rule='some but not all cells are kept, or the empty error is due'),
    Target('geoms', gen_geoms, run_geoms, quick=1200, thorough=20000, rule='some but not all geometries are kept, or the empty error is due'),
    Target('ops', gen_ops, run_ops, quick=500, thorough=8000, rule='some but not all elements are kept for some selection, or the extent error is due'),
]
