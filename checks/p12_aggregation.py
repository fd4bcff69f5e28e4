"""Spatial aggregation: GeometryVariable.get_unioned on grids' geometries and on geometry variables (all or some dimensions), and
OcgOperations(aggregate=True) with selections, clips, unioned selections and calculations. Oracle: shapely union/areas of the
geometries built from the generated edges and numpy weighted means over unmasked elements. Non-trivial: several geometries of
different weight or a mask that varies over the kept geometries."""
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st
from checks.p11_spatial_subset import wkt, keep_by_definition, bbox_slice, field_without_grid

UD = 'ocgis_geom_union'


def same_union(got, geoms, what):
    from shapely.ops import unary_union
    geoms = list(geoms)
    if not geoms:
        check(got is None or got.is_empty, '{}: union of nothing is {}', what, got)
        return
    want = unary_union(geoms)
    if got.equals(want):
        return
    if want.area > 0:
        check(got.geom_type in ('Polygon', 'MultiPolygon'), '{}: union is a {}', what, got.geom_type)
        check(got.symmetric_difference(want).area <= 1e-9 * max(1, want.area), '{}: union {} expected {}', what, got.wkt, want.wkt)
    else:
        check(abs(got.length - want.length) <= 1e-9 * max(1., want.length) and got.hausdorff_distance(want) < 1e-9, '{}: union {} expected {}', what, got.wkt, want.wkt)


def wmean(arr, w, axes):
    """Masked weighted mean over axes; w has one entry per element along those axes (broadcastable)."""
    a = np.ma.asarray(arr)
    m = np.ma.getmaskarray(a)
    W = np.broadcast_to(w, a.shape) * (~m)
    den = W.sum(axis=axes)
    num = (np.where(m, 0., a.data.astype(float)) * W).sum(axis=axes)
    bad = den == 0
    return np.ma.array(num / np.where(bad, 1., den), mask=bad)


def weights_of(garr, keep):
    a = np.array([g.area for g in garr.flat]).reshape(garr.shape)
    a = np.where(a == 0, 1., a)
    return np.where(keep, a, 0.)


def want_var(data, dims, gdims, w):
    """Expected aggregated data of one variable: dims without the geometry dimensions, plus the union dimension last."""
    axes = tuple(i for i, d in enumerate(dims) if d in gdims)
    order = [gdims.index(d) for d in dims if d in gdims]
    ww = np.transpose(w, order)
    sh = [1] * len(dims)
    for a in axes:
        sh[a] = data.shape[a]
    r = wmean(data, ww.reshape(sh), axes)
    r = np.ma.array(r)
    return np.ma.array(r.data.reshape(r.shape + (1,)), mask=np.ma.getmaskarray(r).reshape(r.shape + (1,)))


# ------------------------------------------------------------------ get_unioned
def gen_union(draw):
    via = pick(draw, ['grid', 'grid', 'geoms', 'geoms2'])
    case = {'via': via}
    if via == 'grid':
        s = G.draw_field(draw, nt=(1, 3), nl='maybe', nr='maybe', ny=(1, 4), nx=(1, 4), nvars=(1, 3), order='any', dtypes=('f8', 'f4', 'i4', 'i2'), x={'maxstep': 6}, y={'maxstep': 6})
        for v in s['vars']:
            if chance(draw, .3):
                v['dims'] = [d for d in v['dims'] if d in 'yx']
        case['field'] = s
        case['gmask'] = pick(draw, [None, None, 20, 50, 100])
        case['split'] = chance(draw, .3)
        case['names'] = draw(st.lists(st.sampled_from([v['name'] for v in s['vars']]), min_size=0, max_size=3, unique=True)) if chance(draw, .4) else [v['name'] for v in s['vars']]
    else:
        two = via == 'geoms2'
        shape = [draw(I(1, 3)), draw(I(1, 4))] if two else [draw(I(1, 6))]
        n = int(np.prod(shape))
        kinds = pick(draw, [('poly', 'multi', 'hole'), ('point',), ('point', 'mpoint'), ('line',)])
        case['kinds'] = kinds[0]
        # Some geometries are much smaller than the others.
        small = pick(draw, [0, 0, 0, .3, 1])
        case['geoms'] = [G.draw_geom(draw, (-6 / 64., -6 / 64., 6 / 64., 6 / 64.), kinds=kinds, unit=.5 / 64) if chance(draw, small) else
                         G.draw_geom(draw, (-6, -6, 6, 6), kinds=kinds) for _ in range(n)]
        case['shape'] = shape
        case['gmask'] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if chance(draw, .5) else None
        case['nt'] = draw(I(1, 3))
        case['seed'] = draw(I(0, 999))
        case['dmask'] = G.draw_density(draw)
        case['dtype'] = pick(draw, ['f8', 'f4', 'i4'])
        case['perm'] = draw(st.permutations(['t'] + ['ab'[i] for i in range(len(shape))]))
        case['partial'] = two and chance(draw, .5)
        case['union'] = pick(draw, ['a', 'b'])
        case['ud'] = pick(draw, [None, 'place'])
    return case


def run_union(case):
    from ocgis import GeometryVariable, Field, Variable, Dimension
    if case['via'] == 'grid':
        s = case['field']
        f = G.build_field(s)
        gm = G.mask((s['ny'], s['nx']), s['vars'][0]['seed'], case['gmask'])
        if gm is not None:
            f.grid.set_mask(gm.copy(), cascade=False)
        f.set_abstraction_geom()
        if case['split']:
            f = field_without_grid(f)
        garr = G.cells(s) if s['bounds'] else G.points(s)
        keep = ~gm if gm is not None else np.ones(garr.shape, bool)
        data = {v['name']: (G.varray(s, v), list(v['dims'])) for v in s['vars']}
        gd, names, nm, ud, union = ['y', 'x'], case['names'], G.DIMN, None, None
    else:
        shape = tuple(case['shape'])
        garr = np.empty(shape, dtype=object)
        for i, w in zip(np.ndindex(shape), case['geoms']):
            garr[i] = wkt(w)
        gm = None if case['gmask'] is None else np.array(case['gmask']).reshape(shape)
        keep = np.ones(shape, bool) if gm is None else ~gm
        gd = ['a', 'b'][:len(shape)]
        sizes = dict(zip(gd, shape), t=case['nt'])
        dims = list(case['perm'])
        shp = tuple(sizes[d] for d in dims)
        m = G.mask(shp, case['seed'], case['dmask'])
        arr = np.ma.array(G.values(shp, case['seed'], case['dtype']), mask=np.zeros(shp, bool) if m is None else m)
        sdims = [d for d in dims if d in gd]
        sshp = tuple(sizes[d] for d in sdims)
        arr2 = np.ma.array(G.values(sshp, case['seed'] + 1, case['dtype']), mask=np.zeros(sshp, bool))
        nm = {'t': 'time', 'a': 'na', 'b': 'nb'}
        gv = GeometryVariable(name='geom', value=garr.copy(), dimensions=[nm[d] for d in gd], mask=None if gm is None else gm.copy())
        f = Field(geom=gv, variables=[Variable('v1', arr.data.copy(), [nm[d] for d in dims], mask=None if m is None else m.copy()),
                                      Variable('v2', arr2.data.copy(), [nm[d] for d in sdims])], is_data=['v1', 'v2'])
        G.touch(f)
        data = {'v1': (arr, dims), 'v2': (arr2, sdims)}
        names = ['v1', 'v2']
        ud = case['ud']
        union = [case['union']] if case['partial'] else None
        if union and arr.size > 40:
            raise Skip
    before = G.snap_coll(f)
    kw = {}
    if ud:
        kw['union_dimension'] = Dimension(ud, 1)
    if union:
        kw['dimensions'] = [nm[d] for d in union]
    if names:
        kw['spatial_average'] = names
    r = f.geom.get_unioned(**kw)
    d = G.diff_coll(before, G.snap_coll(f), order=False)
    check(d is None, 'source changed by the union: {}', d)
    und = ud or UD
    w = weights_of(garr, keep)
    if union:
        rest = [d for d in gd if d not in union][0]
        ax = gd.index(union[0])
        check(list(r.dimension_names) == [nm[rest], und], 'dimensions of the union {}', r.dimension_names)
        check(r.shape == (sizes[rest], 1), 'shape of the union {}', r.shape)
        for i in range(sizes[rest]):
            sl = (slice(None), i) if ax == 0 else (i, slice(None))
            same_union(r.get_value()[i, 0], garr[sl][keep[sl]], 'geometry {}'.format(i))
        for n in names:
            a, dims = data[n]
            sh = [1] * a.ndim
            ww = np.transpose(w, [gd.index(d) for d in dims if d in gd])
            for k, d in enumerate(dims):
                if d in gd:
                    sh[k] = a.shape[k]
            e = wmean(a, ww.reshape(sh), (dims.index(union[0]),))
            e = np.ma.array(e.data[..., None], mask=np.ma.getmaskarray(e)[..., None])
            got = r.parent[n]
            check(list(got.dimension_names) == [nm[d] for d in dims if d not in union] + [und], 'dimensions of {} are {}', n, got.dimension_names)
            arr_eq(got.get_masked_value(), e, 'mean of {}'.format(n), rtol=1e-6 if case['dtype'] == 'f4' else 1e-9, atol=1e-9)
        return 'partial' if sizes[union[0]] > 1 and sizes[rest] > 1 else ''
    check(r.shape == (1,) and list(r.dimension_names) == [und], 'union has dimensions {}', r.dimensions)
    same_union(r.get_value()[0], garr[keep], 'union')
    check(r.get_mask() is None or not r.get_mask().any() or not keep.any(), 'union is masked')
    for n in names:
        a, dims = data[n]
        e = want_var(a, dims, gd, w)
        got = r.parent[n]
        check(list(got.dimension_names) == [nm[d] for d in dims if d not in gd] + [und], 'dimensions of {} are {}', n, got.dimension_names)
        check([len(x) for x in got.dimensions] == list(e.shape), 'sizes of the dimensions of {} are {}', n, got.dimensions)
        f4 = a.dtype == np.float32
        arr_eq(got.get_masked_value(), e, 'mean of {}'.format(n), rtol=1e-5 if f4 else 1e-9, atol=1e-5 if f4 else 1e-9)
    for n in data:
        if n not in names and names:
            a, dims = data[n]
            arr_eq(r.parent[n].get_masked_value(), a, 'variable {} that was not averaged'.format(n))
    ww = w[keep]
    vary = ww.size > 1 and (len(set(ww.tolist())) > 1 or any(np.ma.getmaskarray(a).any() for a, _ in data.values()))
    return '{}-{}'.format(case['via'], len(names)) if vary else ''


# ------------------------------------------------------------------ OcgOperations(aggregate=True)
def gen_agg(draw):
    s = G.draw_field(draw, nt=(1, 4), nl='maybe', ny=(1, 5), nx=(1, 5), nvars=(1, 2), order=pick(draw, [None, 'any']), dtypes=('f8', 'f8', 'f4', 'i4'),
                     x={'lo': -20, 'hi': 20, 'maxstep': 5}, y={'lo': -20, 'hi': 20, 'maxstep': 5})
    s['crs'] = 'spherical'
    n = draw(I(0, 3))
    kinds = pick(draw, [('poly', 'poly', 'multi', 'hole'), ('poly', 'multi'), ('point',)])
    case = {'field': s, 'sels': [G.draw_sel(draw, s, kinds) for _ in range(n)], 'op': pick(draw, ['intersects', 'clip']), 'file': chance(draw, .4),
            'agg_selection': n > 0 and chance(draw, .25), 'ugid': [draw(I(1, 3)) + 4 * i for i in range(n)],
            'abstraction': pick(draw, ['auto', 'auto', 'point']), 'const': chance(draw, .1),
            'calc': pick(draw, [None, None, None, 'mean', 'sum', 'raw-mean', 'raw-sum', 'expr'])}
    if (case['calc'] or '').startswith('raw'):
        # Raw calculations are averaged without weights by design: judged on cells of equal area only.
        for k, step in (('xe', pick(draw, [1., 2.])), ('ye', 1.)):
            e = s[k]
            sg = 1 if e[-1] > e[0] else -1
            s[k] = [e[0] + sg * step * i for i in range(len(e))]
        s['shear'] = [0, 0]
        s['nl'] = None
        for v in s['vars']:
            v['dims'] = [d for d in v['dims'] if d != 'l']
        case['op'] = 'intersects'
        case['sels'] = [G.draw_sel(draw, s, kinds) for _ in range(n)]
    return case


def run_agg(case):
    import ocgis
    from ocgis.exc import ExtentError
    from shapely.ops import unary_union
    s = case['field']
    names = [v['name'] for v in s['vars']]
    path = os.path.abspath('in.nc')
    if case['const']:
        arrs = {v['name']: np.ma.array(np.full(G.vshape(s, v), 7).astype(v['dtype']), mask=np.ma.getmaskarray(G.varray(s, v))) for v in s['vars']}
    else:
        arrs = {v['name']: G.varray(s, v) for v in s['vars']}
    if case['file']:
        G.write_nc(s, path)
        if case['const']:
            import netCDF4
            with netCDF4.Dataset(path, 'a') as d:
                for k, a in arrs.items():
                    d.variables[k][:] = a
        ds = ocgis.RequestDataset(path, variable=names, crs=G.crs_obj('spherical'))
    else:
        ds = G.build_field(s, name='f')
        for k, a in arrs.items():
            ds[k].get_value()[:] = a.data
    sels = [wkt(w) for w in case['sels']]
    kw = dict(dataset=ds, output_format='ocgis', aggregate=True, spatial_operation=case['op'], agg_selection=case['agg_selection'], allow_empty=False)
    if case['abstraction'] == 'point':
        kw['abstraction'] = 'point'
    if sels:
        kw['geom'] = [{'geom': g, 'properties': {'UGID': u}, 'crs': G.crs_obj('spherical')} for g, u in zip(sels, case['ugid'])]
    calc = case['calc']
    raw = (calc or '').startswith('raw')
    if calc == 'expr':
        kw['calc'] = 'res={}*2+1'.format(names[0])
    elif calc:
        fn = calc.replace('raw-', '')
        c = {'func': fn, 'name': 'res'}
        kw['calc'] = [c]
        kw['calc_grouping'] = 'all'
        kw['calc_raw'] = raw
    poly = s['bounds'] and case['abstraction'] != 'point'
    garr = G.cells(s) if poly else G.points(s)
    if sels:
        units = list(zip(case['ugid'], sels))
        if case['agg_selection']:
            U = unary_union(sels)
            units = [(1, U)]
            old = {c for g in sels for p in getattr(g, 'geoms', [g]) for c in getattr(p, 'exterior', p).coords}
            new = {c for p in getattr(U, 'geoms', [U]) for c in getattr(p, 'exterior', p).coords}
            if new - old:
                for g in garr.flat:
                    if g.distance(U.boundary) < 1e-9 and (g.area == 0 or g.intersection(U).area < 1e-9):
                        raise Skip
    else:
        units = [(None, None)]
    want = [(u, sel, np.ones(garr.shape, bool) if sel is None else keep_by_definition(garr, sel, not poly)) for u, sel in units]
    try:
        coll = ocgis.OcgOperations(**kw).execute()
        raised = False
    except ExtentError:
        raised = True
    if not all(k.any() for _, _, k in want):
        check(raised, 'a selection meets nothing but there was no error')
        return 'error'
    check(not raised, 'extent error although every selection meets something')
    vary = False
    for u, sel, keep in want:
        fld = coll.get_element(container_ugid=u)
        gg = garr
        if case['op'] == 'clip' and sel is not None:
            gg = np.empty(garr.shape, dtype=object)
            for i in np.ndindex(gg.shape):
                gg[i] = garr[i].intersection(sel) if keep[i] else garr[i]
        w = weights_of(gg, keep)
        # A clip of an area by a point leaves a point: all weights are then one.
        check(fld.geom.shape == (1,), 'aggregated geometry has shape {}', fld.geom.shape)
        same_union(fld.geom.get_value()[0], gg[keep], 'union for {}'.format(u))
        if sel is not None:
            check(fld.geom.ugid is not None and int(fld.geom.ugid.get_value()[0]) == u, 'identifier of the aggregate is not that of the selection {}', u)
            if not case['agg_selection']:
                check(coll.geoms[u].equals(sel), 'selection geometry of the collection for {}', u)
        ww = w[keep]
        vary = vary or ww.size > 1 and (len(set(np.round(ww, 9).tolist())) > 1 or any(np.ma.getmaskarray(arrs[v['name']]).any() for v in s['vars']))
        for v in s['vars']:
            a = arrs[v['name']]
            dims = v['dims']
            f4 = a.dtype == np.float32
            tol = dict(rtol=1e-5, atol=1e-5) if f4 else dict(rtol=1e-9, atol=1e-9)
            if not calc:
                e = want_var(a, dims, ['y', 'x'], w)
                got = fld[v['name']]
                check(list(got.dimension_names) == [G.DIMN[d] for d in dims if d not in 'yx'] + [UD], 'dimensions of {} are {}', v['name'], got.dimension_names)
                arr_eq(got.get_masked_value(), e, 'aggregate of {} for {}'.format(v['name'], u), **tol)
                check(v['name'] in [d.name for d in fld.data_variables], 'aggregate of {} is not a data variable', v['name'])
                continue
            if calc == 'expr':
                if v['name'] != names[0]:
                    continue
                e = want_var(a, dims, ['y', 'x'], w)
                e = np.ma.array(e.data * 2 + 1, mask=e.mask)
                arr_eq(fld['res'].get_masked_value(), e, 'expression of the aggregate for {}'.format(u), **tol)
                continue
            key = 'res' if len(names) == 1 else None
            got = [x for x in fld.data_variables if (key and x.name == key) or (not key and x.name.endswith('_' + v['name']) or x.name == 'res_' + v['name'])]
            check(len(got) == 1, 'result of {} for {} among {}', calc, v['name'], [x.name for x in fld.data_variables])
            got = got[0].get_masked_value()
            ta = [d for d in dims].index('t')
            if raw:
                mk = np.ma.getmaskarray(a) | ~np.broadcast_to(np.transpose(keep, ['yx'.index(d) for d in dims if d in 'yx']).reshape([a.shape[i] if d in 'yx' else 1 for i, d in enumerate(dims)]), a.shape)
                x = np.where(mk, 0, a.data.astype(float))
                cnt = (~mk).sum(axis=ta)
                if calc == 'raw-mean':
                    cell = np.ma.array(x.sum(axis=ta) / np.maximum(cnt, 1), mask=cnt == 0)
                    if a.dtype.kind == 'i':
                        continue
                    e = cell.mean()
                else:
                    e = np.ma.array(x.sum(axis=ta), mask=cnt == 0).sum()
                check(got.size == 1, 'size of the aggregated raw calculation {}', got.shape)
                e = np.ma.array([e]) if e is not np.ma.masked else np.ma.array([0.], mask=[True])
                arr_eq(got.ravel(), e, '{} of {} for {}'.format(calc, v['name'], u), **tol)
            else:
                e = want_var(a, dims, ['y', 'x'], w)
                nd = [d for d in dims if d not in 'yx']
                m = np.ma.getmaskarray(e)
                tx = nd.index('t')
                cnt = (~m).sum(axis=tx, keepdims=True)
                x = np.where(m, 0., e.data).sum(axis=tx, keepdims=True)
                if calc == 'mean':
                    x = x / np.maximum(cnt, 1)
                e = np.ma.array(x, mask=cnt == 0)
                check(got.size == e.size, 'shape of the calculation on aggregates {} expected {}', got.shape, e.shape)
                arr_eq(got.reshape(e.shape), e, '{} of the aggregate of {} for {}'.format(calc, v['name'], u), **tol)
    return 'agg{}{}-{}'.format(len(want), '-sel' if case['agg_selection'] else '', calc or case['op']) if vary else ''


TARGETS = [
    Target('union', gen_union, run_union, quick=1200, thorough=20000, rule='several geometries of different area, or data masks varying over the kept geometries'),
    Target('agg', gen_agg, run_agg, quick=500, thorough=9000, rule='several kept geometries of different weight or data masks'),
]
