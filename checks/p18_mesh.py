"""Geometry/mesh conversion. Generated geometries are converted to coordinates with connectivity and back, sliced, reduced and written;
files are read with netCDF4 and the element geometries rebuilt from the format definitions. Non-trivial: at least two elements."""
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st


def shape(draw, kind=None):
    """Coordinates of a simple polygon within a square of side 8."""
    k = kind or pick(draw, ['box', 'box', 'tri', 'L', 'quad', 'star'])
    if k == 'box':
        w, h = draw(I(1, 8)), draw(I(1, 8))
        c = [(0, 0), (w, 0), (w, h), (0, h)]
    elif k == 'tri':
        c = [(0, 0), (draw(I(2, 8)), draw(I(0, 3))), (draw(I(0, 3)), draw(I(4, 8)))]
    elif k == 'L':
        a, b = draw(I(1, 4)), draw(I(1, 4))
        c = [(0, 0), (8, 0), (8, a), (b, a), (b, 8), (0, 8)]
    elif k == 'quad':
        c = [(0, draw(I(0, 2))), (draw(I(5, 8)), 0), (8, draw(I(5, 8))), (draw(I(0, 2)), 8)]
    else:
        n = draw(I(5, 12))
        r = [draw(I(2, 4)) for _ in range(n)]
        c = [(round(4 + q * float(np.cos(2 * np.pi * i / n)), 3), round(4 + q * float(np.sin(2 * np.pi * i / n)), 3)) for i, q in enumerate(r)]
    c = [list(map(float, p)) for p in c]
    if chance(draw, .4):
        c = c[::-1]
    n = draw(I(0, len(c) - 1))
    return c[n:] + c[:n]


def hole(draw, i, j):
    """A hole in one of the 2 x 2 slots of a square of side 8."""
    x, y = 4. * i + 1, 4. * j + 1
    k = pick(draw, ['box', 'box', 'diamond', 'L', 'C', 'edge'])
    if k == 'box':
        w, h = draw(I(1, 2)), draw(I(1, 2))
        c = [(0, 0), (w, 0), (w, h), (0, h)]
    elif k == 'diamond':
        c = [(1, 0), (2, 1), (1, 2), (0, 1)]
    elif k == 'L':
        c = [(0, 0), (2, 0), (2, .5), (.5, .5), (.5, 2), (0, 2)]
    elif k == 'C':
        c = [(0, 0), (2, 0), (2, .5), (.5, .5), (.5, 1.5), (2, 1.5), (2, 2), (0, 2)]
    else:
        c = [(0, 0), (2.5, 0), (2.5, .25), (0, .25)]
    return [[x + a, y + b] for a, b in c]


def part(draw, c, tile):
    ox, oy = 10 * tile[0], 10 * tile[1]
    if c['holes'] and chance(draw, .5):
        ext = [[0., 0.], [8., 0.], [8., 8.], [0., 8.]]
        slots = sorted(draw(st.sets(st.sampled_from([(0, 0), (0, 1), (1, 0), (1, 1)]), min_size=1, max_size=4)))
        holes = [hole(draw, *s) for s in slots]
    else:
        ext, holes = shape(draw, c['kind']), []
    return [[[x + ox, y + oy] for x, y in r] for r in [ext] + holes]


def draw_polygons(draw, c, n):
    out = []
    for _ in range(n):
        k = draw(I(1, 3)) if c['multi'] and chance(draw, .6) else 1
        tiles = draw(st.permutations([(i, j) for i in range(3) for j in range(2)]))[:k]
        out.append([part(draw, c, t) for t in tiles])
    return out


def gen(draw):
    c = {'geom': pick(draw, ['polygon'] * 4 + ['point'])}
    n = draw(I(1, 6))
    c['z'] = chance(draw, .2)
    c['start'] = pick(draw, [0, 0, 1])
    c['crs'] = pick(draw, [None, 'spherical', 'wgs84'])
    c['mask'] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if chance(draw, .25) and n > 1 else None
    if c['mask'] is not None and all(c['mask']):
        c['mask'][0] = False
    c['names'] = chance(draw, .3)
    c['dtype'] = pick(draw, [None, None, 'f8'])
    c['data'] = chance(draw, .5)
    c['sub'] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if chance(draw, .5) else [draw(I(0, n - 1)), draw(I(1, n))]
    c['write'] = pick(draw, ['ugrid', 'ugrid', 'esmf', 'esmf-reload', None])
    c['memory'] = chance(draw, .3)
    if c['geom'] == 'point':
        c['points'] = [[draw(I(-9, 9)) * .5, draw(I(-9, 9)) * .5] + ([float(draw(I(0, 5)))] if c['z'] else []) for _ in range(n)]
        return c
    c['holes'] = chance(draw, .3)
    c['multi'] = chance(draw, .35)
    c['pack'] = chance(draw, .6)
    c['repeat'] = chance(draw, .25)
    c['kind'] = pick(draw, [None, None, None, 'box', 'tri', 'quad'])
    c['maxc'] = c['kind'] is not None and not c['multi'] and not c['holes'] and chance(draw, .7)
    c['thr'] = draw(I(4, 9)) if chance(draw, .2) and not c['maxc'] and not c['z'] else None
    c['mbv'] = draw(I(-9, -2)) if chance(draw, .3) else None
    if c['holes'] or c['thr']:
        c['z'] = False
    c['polys'] = draw_polygons(draw, c, n)
    c['gtype'] = chance(draw, .3)
    return c


def build(c):
    from shapely.geometry import Polygon, MultiPolygon, Point
    if c['geom'] == 'point':
        return [Point(*p) for p in c['points']]
    out = []
    for k, m in enumerate(c['polys']):
        ps = []
        for p in m:
            rings = [[(x, y, float((i + k) % 4)) for i, (x, y) in enumerate(r)] if c['z'] else [tuple(q) for q in r] for r in p]
            ps.append(Polygon(rings[0], rings[1:]))
            if not ps[-1].is_valid:
                raise Skip('invalid polygon')
        out.append(ps[0] if len(ps) == 1 else MultiPolygon(ps))
        if not out[-1].is_valid:
            raise Skip('invalid geometry')
    return out


def parts(g):
    return list(g.geoms) if hasattr(g, 'geoms') else [g]


def same(got, want, what):
    """Same point set and the parts do not overlap."""
    from shapely.ops import unary_union
    if want is None:
        check(got is None, '{}: masked element has a geometry', what)
        return
    check(got is not None, '{}: element without geometry', what)
    if want.geom_type == 'Point':
        check(got.geom_type == 'Point' and np.allclose(np.array(got.coords), np.array(want.coords)), '{}: {} expected {}', what, got.wkt, want.wkt)
        return
    p = parts(got)
    check(abs(sum(q.area for q in p) - want.area) < 1e-6, '{}: areas of the parts sum to {} expected {} ({} expected {})', what, sum(q.area for q in p), want.area, got.wkt, want.wkt)
    check(all(q.is_valid for q in p), '{}: invalid geometry {}', what, got.wkt)
    check(unary_union(p).symmetric_difference(want).area < 1e-6, '{}: shape differs: {} expected {}', what, got.wkt, want.wkt)
    if want.has_z:
        a, b = {tuple(np.round(q, 9)) for r in p for q in r.exterior.coords}, {tuple(np.round(q, 9)) for r in parts(want) for q in r.exterior.coords}
        check(a == b, '{}: nodes {} expected {}', what, sorted(a), sorted(b))


def same_all(got, want, what):
    check(len(got) == len(want), '{}: {} elements expected {}', what, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        same(a, b, '{} element {}'.format(what, i))


def elements(gc):
    """Connectivity of every element as lists of parts with zero-based node indices."""
    v = gc.cindex.get_value()
    s, b = gc.start_index, gc.multi_break_value
    out = []
    for r in v:
        r = [int(q) for q in np.atleast_1d(r).ravel()]
        ps = [[]]
        for q in r:
            if b is not None and q == b:
                ps.append([])
            else:
                ps[-1].append(q - s)
        out.append(ps)
    return out


def check_nodes(gc, what, exact=False):
    n = gc.x.get_value().size
    used = {q for e in elements(gc) for p in e for q in p}
    check(all(0 <= q < n for q in used), '{}: connectivity refers to nodes {} of {}', what, sorted(used), n)
    if exact:
        check(used == set(range(n)), '{}: nodes {} are not referenced', what, sorted(set(range(n)) - used))


def known(case):
    return False


def geoms_of(gc, memory=False):
    return [g for _, g in gc.get_geometry_iterable(use_memory_optimizations=memory)]


def run(case):
    import ocgis
    from ocgis import env
    from ocgis.spatial.grid import GridUnstruct
    geoms = build(case)
    n = len(geoms)
    mask = None if case['mask'] is None or not any(case['mask']) else np.array(case['mask'])
    want = [None if mask is not None and mask[i] else g for i, g in enumerate(geoms)]
    val = np.empty(n, dtype=object)
    val[:] = geoms
    kw = {}
    if case['crs'] is not None:
        kw['crs'] = G.crs_obj(case['crs'])
    if case['geom'] == 'polygon' and case['gtype']:
        kw['geom_type'] = 'MultiPolygon' if case['multi'] else 'auto'
    f = ocgis.Field()
    gv = ocgis.GeometryVariable(name='geom', value=val, mask=mask, dimensions='el', **kw)
    f.add_variable(gv)
    if case['data']:
        f.add_variable(ocgis.Variable('data', value=np.arange(n) * 1.5, dimensions='el'), is_data=True)
    wkt = [g.wkt for g in geoms]
    opt = {'start_index': case['start']}
    if case['names']:
        opt.update(xname='nx', yname='ny', zname='nz', node_dim_name='nodes', element_index_name='conn')
    if case['dtype']:
        opt['dtype'] = case['dtype']
    if case['geom'] == 'polygon':
        opt.update(pack=case['pack'], repeat_last_node=case['repeat'], split_interiors=case['holes'])
        if case['maxc']:
            opt['max_element_coords'] = len(case['polys'][0][0][0]) + case['repeat']
        if case['thr'] is not None:
            opt['node_threshold'] = case['thr']
        if case['mbv'] is not None:
            opt['multi_break_value'] = case['mbv']
    gc = gv.convert_to(**opt)
    check([g.wkt for g in gv.get_value()] == wkt, 'the conversion changes the geometries')
    what = 'conversion'
    poly = case['geom'] == 'polygon'
    for memory in ([False, case['memory']] if poly else [False]):
        same_all(geoms_of(gc, memory), want, what)
    if poly:
        check_nodes(gc, what, exact=True)
        check(gc.start_index == case['start'], 'start index {} expected {}', gc.start_index, case['start'])
        if case['pack']:
            k = [v.get_value() for v in (gc.x, gc.y) + ((gc.z,) if case['z'] else ())]
            k = list(zip(*[v.tolist() for v in k]))
            check(len(set(k)) == len(k), 'packed nodes are repeated')
        for i, e in enumerate(elements(gc)):
            for p in e:
                check((gc.x.get_value()[[p[0], p[-1]]].ptp() + gc.y.get_value()[[p[0], p[-1]]].ptp() == 0) == case['repeat'],
                      'element {}: first node repeated: {}', i, p)
            if case['thr'] is not None and len(e) == 1 and len(parts(geoms[i])) == 1:
                check(len(e[0]) <= case['thr'], 'element {} with {} nodes is not split at {}', i, len(e[0]), case['thr'])
    if case['data']:
        check(gc.parent['data'].get_value().tolist() == [1.5 * i for i in range(n)], 'data of the elements')
    back = gc.convert_to()
    check(isinstance(back, ocgis.GeometryVariable) and (mask is not None or back.shape == (n,)), 'conversion to a geometry variable')
    if mask is None:
        same_all(list(back.get_value()), want, 'back')
        if case['crs'] is not None:
            check(back.crs == gv.crs, 'coordinate system {} expected {}', back.crs, gv.crs)
    # A part of the mesh.
    sel = case['sub']
    if any(isinstance(q, bool) for q in sel):
        sl, idx = np.array(sel, dtype=bool), np.flatnonzero(sel)
    else:
        a, b = sel
        if a >= b:
            a, b = b - 1, a + 1
        sl, idx = slice(a, b), np.arange(a, b)
    label = ''
    if len(idx):
        sub = gc[sl]
        label = 'part '
        same_all(geoms_of(sub), [want[i] for i in idx], 'part')
        # Ragged connectivity can not be reduced.
        if poly and case['maxc']:
            nodes = elements(sub)
            red = sub.reduce_global()
            same_all(geoms_of(red), [want[i] for i in idx], 'reduced')
            same_all(geoms_of(red), [want[i] for i in idx], 'reduced again')
            check_nodes(red, 'reduced', exact=True)
            used = sorted({q for e in nodes for p in e for q in p})
            gx, rx = gc.x.get_value(), red.x.get_value()
            check(np.allclose(rx, gx[used]), 'nodes kept {} expected {}', rx.tolist(), gx[used].tolist())
            check(red.start_index == case['start'], 'start index of the reduced mesh {} expected {}', red.start_index, case['start'])
            same_all(geoms_of(gc), want, 'mesh after the reduction')
            if case['data']:
                check(red.parent['data'].get_value().tolist() == [1.5 * i for i in idx], 'data of the reduced mesh')
    if case['write'] and poly and not case['z']:
        label += write(case, gc, want, n)
    return '{}{}{}'.format(label, case['geom'], ' multi' if poly and case['multi'] else '') if n > 1 else ''


def raw_ugrid(path):
    """Element geometries of a UGRID file and its data."""
    import netCDF4 as nc
    from shapely.geometry import Polygon, MultiPolygon
    with nc.Dataset(path) as ds:
        host = [v for v in ds.variables.values() if getattr(v, 'cf_role', None) == 'mesh_topology']
        check(len(host) == 1, 'number of mesh topology variables')
        host = host[0]
        x, y = [np.asarray(ds.variables[q][:]) for q in host.node_coordinates.split()]
        c = ds.variables[host.face_node_connectivity]
        s, b = getattr(c, 'start_index', 0), getattr(c, 'multi_break_value', None)
        rows = [np.atleast_1d(r).ravel() for r in c[:]]
        out = []
        for r in rows:
            ps = [[]]
            for q in r:
                if b is not None and q == b:
                    ps.append([])
                else:
                    ps[-1].append(int(q) - s)
            check(all(0 <= q < x.size for p in ps for q in p), 'connectivity {} in the file refers to nodes of {}', ps, x.size)
            ps = [Polygon([(x[q], y[q]) for q in p]) for p in ps]
            out.append(ps[0] if len(ps) == 1 else MultiPolygon(ps))
        return out, (ds.variables['data'][:].tolist() if 'data' in ds.variables else None)


def raw_esmf(path):
    import netCDF4 as nc
    from shapely.geometry import Polygon, MultiPolygon
    with nc.Dataset(path) as ds:
        v = ds.variables
        xy = np.asarray(v['nodeCoords'][:])
        num = np.asarray(v['numElementConn'][:])
        con = np.asarray(v['elementConn'][:])
        # The format counts from one unless told otherwise.
        s, b = getattr(v['elementConn'], 'start_index', 1), getattr(v['elementConn'], 'polygon_break_value', None)
        check(ds.gridType == 'unstructured', 'grid type')
        check(num.sum() == con.size, 'numbers of nodes per element {} for {} indices', num.tolist(), con.size)
        out, k = [], 0
        for m in num:
            ps = [[]]
            for q in con[k:k + m]:
                if b is not None and q == b:
                    ps.append([])
                else:
                    ps[-1].append(int(q) - s)
            k += m
            check(all(0 <= q < len(xy) for p in ps for q in p), 'connectivity {} in the file refers to nodes of {}', ps, len(xy))
            ps = [Polygon(xy[p]) for p in ps]
            out.append(ps[0] if len(ps) == 1 else MultiPolygon(ps))
        return out, (v['data'][:].tolist() if 'data' in v else None)


def write(case, gc, want, n):
    import ocgis
    esmf = case['write'].startswith('esmf')
    full = build(case)
    # The mask of the elements is kept by the UGRID format only.
    want = full if esmf else want
    key = 'netcdf-esmf-unstruct' if esmf else 'netcdf-ugrid'
    raw = raw_esmf if esmf else raw_ugrid
    gc.parent.write('m.nc', driver=key)
    got, data = raw('m.nc')
    same_all(got, full, 'file')
    check(data == ([1.5 * i for i in range(n)] if case['data'] else None), 'data in the file {}', data)
    crs = {} if case['crs'] is None else {'crs': G.crs_obj(case['crs'])}
    f = ocgis.RequestDataset('m.nc', driver=key, grid_abstraction='polygon', **crs).get()
    for memory in (False, case['memory'] and not esmf):
        same_all(geoms_of(f.grid.abstractions_available['polygon'], memory), want, 'read')
    if esmf:
        f = ocgis.RequestDataset('m.nc', driver=key, grid_abstraction='polygon', **crs).get()
        red = f.grid.reduce_global()
        same_all(geoms_of(red.abstractions_available['polygon']), want, 'read and reduced')
    if case['write'] == 'esmf-reload' or not esmf:
        f = ocgis.RequestDataset('m.nc', driver=key, grid_abstraction='polygon', **crs).get()
        f.load()
        f.write('m2.nc', driver=key)
        got, data = raw('m2.nc')
        same_all(got, full, 'written again')
    return key + ' '


def gen_scrip(draw):
    """Files in the SCRIP format: corners per cell."""
    n, k = draw(I(1, 6)), draw(I(3, 5))
    c = {'cells': [], 'mask': draw(st.lists(st.booleans(), min_size=n, max_size=n)) if chance(draw, .4) else None, 'corners': chance(draw, .8)}
    for i in range(n):
        ox, oy = 3 * draw(I(-9, 9)), 3 * draw(I(-9, 9))
        c['cells'].append([[ox + round(2 * float(np.cos(2 * np.pi * (j + .1) / k)), 4), oy + round(2 * float(np.sin(2 * np.pi * (j + .1) / k)), 4)] for j in range(k)])
    if c['mask'] is not None and all(c['mask']):
        c['mask'][0] = False
    c['sub'] = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    c['poly'] = chance(draw, .7)
    return c


def write_scrip(c, path):
    import netCDF4 as nc
    a = np.array(c['cells'])
    with nc.Dataset(path, 'w') as ds:
        for d, z in (('grid_size', len(a)), ('grid_corners', a.shape[1]), ('grid_rank', 1)):
            ds.createDimension(d, z)
        ds.createVariable('grid_dims', 'i4', ('grid_rank',))[:] = 1
        for k, i, u in (('lon', 0, 'degrees'), ('lat', 1, 'degrees')):
            v = ds.createVariable('grid_center_' + k, 'f8', ('grid_size',))
            v.units = u
            v[:] = a[:, :, i].mean(axis=1)
            if c['corners']:
                v = ds.createVariable('grid_corner_' + k, 'f8', ('grid_size', 'grid_corners'))
                v.units = u
                v[:] = a[:, :, i]
        v = ds.createVariable('grid_imask', 'i4', ('grid_size',))
        v[:] = 1 if c['mask'] is None else np.invert(c['mask']).astype(int)


def raw_scrip(path):
    import netCDF4 as nc
    with nc.Dataset(path) as ds:
        v = ds.variables
        return (np.stack([v['grid_center_lon'][:], v['grid_center_lat'][:]], axis=-1),
                np.stack([v['grid_corner_lon'][:], v['grid_corner_lat'][:]], axis=-1) if 'grid_corner_lon' in v else None, np.asarray(v['grid_imask'][:]))


def run_scrip(case):
    import ocgis
    from shapely.geometry import Polygon, Point
    write_scrip(case, 's.nc')
    poly = case['poly'] and case['corners']
    n = len(case['cells'])
    a = np.array(case['cells'])
    want = [Polygon(q) if poly else Point(*q.mean(axis=0)) for q in a]
    masked = [False] * n if case['mask'] is None else case['mask']
    w = [None if m else g for g, m in zip(want, masked)]
    f = ocgis.RequestDataset('s.nc', driver='netcdf-scrip', grid_abstraction='polygon' if poly else 'point').get()
    g = f.grid.abstractions_available['polygon' if poly else 'point']
    same_all(geoms_of(g), w, 'read')
    sel = np.array(case['sub'])
    if sel.any():
        # Slices are along the cells, polygons have two dimensions here.
        f = ocgis.RequestDataset('s.nc', driver='netcdf-scrip', grid_abstraction='point').get()
        sub = f.grid.get_distributed_slice(sel).parent.grid
        idx = np.flatnonzero(sel)
        if len(idx) > 1:
            s = sub.abstractions_available['polygon' if poly else 'point']
            same_all(geoms_of(s), [w[i] for i in idx], 'part')
        sub.parent.write('p.nc', driver='netcdf-scrip')
        cen, cor, m = raw_scrip('p.nc')
        check(np.allclose(cen, a[idx].mean(axis=1)), 'centres of the part written {} expected {}', cen.tolist(), a[idx].mean(axis=1).tolist())
        check(not case['corners'] or np.allclose(cor, a[idx]), 'corners of the part written')
        check((m == 0).tolist() == [masked[i] for i in idx], 'mask of the part written {}', m.tolist())
    return 'polygon' if poly and n > 1 else 'point' if n > 1 else ''


TARGETS = [Target('convert', gen, run, 200, 5000, 'at least two elements', known),
           Target('scrip', gen_scrip, run_scrip, 60, 1500, 'at least two elements', known)]
