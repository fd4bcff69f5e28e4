"""Grids: points, cells, extents, resolutions and slices of rectilinear and two-dimensional grids against shapely geometries built
from the generated vertices (target geoms); bounds derived for coordinates without bounds, one- and two-dimensional, including the
corner conversions (derive); histories of mask changes, cascades, copies, slices, assignments and files against a mask model
(masks). Non-trivial: two-dimensional or irregular or descending coordinates, derived cells, masks that change."""
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st

RLIMIT = 1000


def same_geoms(got, want, gm, what, mask=True):
    """got: masked object array of ocgis; want: object array; gm: expected mask (bool)."""
    m = np.ma.getmaskarray(got)
    check(got.shape == want.shape, '{}: shape {} expected {}', what, got.shape, want.shape)
    if mask:
        check(np.array_equal(m, gm), '{}: mask {} expected {}', what, m.astype(int).tolist(), gm.astype(int).tolist())
    for i in np.ndindex(want.shape):
        if gm[i]:
            continue
        g = got.data[i]
        check(g.geom_type == want[i].geom_type, '{}: {} is a {}', what, i, g.geom_type)
        if want[i].geom_type == 'Point':
            check(g.coords[0][:2] == want[i].coords[0][:2], '{}: point {} is {} expected {}', what, i, g.wkt, want[i].wkt)
        else:
            check(g.is_valid and g.symmetric_difference(want[i]).area <= 1e-9 * max(1., want[i].area), '{}: cell {} is {} expected {}', what, i, g.wkt, want[i].wkt)


def want_res(v, axis):
    if v.size == 1:
        return 0.
    return float(np.abs(np.diff(v, axis=axis)).mean()) if v.shape[axis] > 1 else None


def ext_of(X, Y):
    return (X.min(), Y.min(), X.max(), Y.max())


# ---------------------------------------------------------------- geoms
def gen_geoms(draw):
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 4), nx=(1, 5), nvars=(1, 1), dtypes=('f8',), masks=False)
    s['xdt'] = pick(draw, ['f8', 'f8', 'f4'])
    return {'field': s, 'gmask': pick(draw, [None, None, 20, 50]), 'seed': draw(I(0, 99)), 'via': pick(draw, ['memory', 'memory', 'file']),
            'expand': chance(draw), 'point': chance(draw, .3), 'slc': [G.draw_index(draw, s['ny'], ('int', 'slice', 'none')), G.draw_index(draw, s['nx'], ('int', 'slice', 'none'))],
            'near': [draw(I(-20, 60)) + .3, draw(I(-20, 60)) + .2], 'touch': chance(draw), 'assign': chance(draw, .4)}


def run_geoms(case):
    import ocgis
    s = case['field']
    gm = G.mask((s['ny'], s['nx']), case['seed'], case['gmask'])
    if gm is not None and gm.all():
        gm[0, 0] = False
    f = G.build_field(s)
    if gm is not None:
        f.grid.set_mask(gm)
    if case['via'] == 'file':
        p = os.path.abspath('g.nc')
        for c, n in ((f.x, 'longitude'), (f.y, 'latitude')):
            c.attrs['standard_name'] = n
        f.write(p)
        f = ocgis.RequestDataset(p).get()
        if case['touch']:
            G.touch(f)
        check(f.grid is not None, 'no grid')
    grid = f.grid
    if case['point']:
        grid.abstraction = 'point'
    poly = s['bounds'] and not case['point']
    want_p, want_c = G.points(s), G.cells(s)
    X, Y = G.centres(s)
    VX, VY = G.vertices(s)
    M = np.zeros((s['ny'], s['nx']), bool) if gm is None else gm
    before = G.snap_coll(f)

    def judge(g, P, C, M, ext, cx, cy, what):
        check(tuple(g.shape) == M.shape, '{}: shape {}', what, g.shape)
        check(g.has_bounds == bool(s['bounds']), '{}: has bounds {}', what, g.has_bounds)
        check(g.abstraction == ('polygon' if poly else 'point'), '{}: abstraction {}', what, g.abstraction)
        check(sorted(g.abstractions_available) == sorted(['point'] + (['polygon'] if s['bounds'] else [])), '{}: abstractions {}', what, g.abstractions_available)
        same_geoms(g.get_point().get_masked_value(), P, M, what + ' points')
        if poly:
            gv = g.get_polygon()
            same_geoms(gv.get_masked_value(), C, M, what + ' cells')
            arr_eq(gv.area, np.ma.array([[c.area for c in r] for r in C], mask=M), what + ' areas', rtol=1e-9)
        same_geoms(g.get_abstraction_geometry().get_masked_value(), C if poly else P, M, what + ' geometry')
        e = g.extent
        check(np.allclose(e, ext, rtol=0, atol=1e-9), '{}: extent {} expected {}', what, e, ext)
        check(g.envelope.bounds == tuple(e), '{}: envelope', what)
        sv = g.get_value_stacked()
        check(np.array_equal(sv[0], cy) and np.array_equal(sv[1], cx), '{}: stacked values', what)
        for n, v, ax in (('x', g.x.get_value(), 1), ('y', g.y.get_value(), 0)):
            if v.ndim == 1:
                ax = 0
            if v.size == 1 or v.shape[ax] > 1:
                r = getattr(g, 'resolution_' + n)
                w = want_res(v, ax)
                check(abs(r - w) < 1e-9, '{}: {} resolution {} expected {}', what, n, r, w)
        if min(M.shape) > 1:
            check(abs(g.resolution - np.mean([g.resolution_x, g.resolution_y])) < 1e-9, '{}: resolution', what)
        mk = g.get_mask()
        check(np.array_equal(np.zeros(M.shape, bool) if mk is None else mk, M), '{}: mask {} expected {}', what, mk, M)

    ext = ext_of(VX, VY) if s['bounds'] else ext_of(X, Y)
    judge(grid, want_p, want_c, M, ext, X, Y, 'grid')
    if not M.any() or True:
        # Iterating yields the records of unmasked cells in order.
        recs = list(grid.iter_records())
        flat = [(C.centroid.x, C.centroid.y) if poly else P.coords[0] for C, P, m in zip(want_c.flat, want_p.flat, M.flat) if not m]
        from shapely.geometry import shape
        got = [shape(r['geometry']).centroid.coords[0] for r in recs]
        check(len(got) == len(flat) and np.allclose(got, flat, atol=1e-9), 'records {} expected {}', got, flat)
    # Nearest.
    from shapely.geometry import Point
    t = Point(*case['near'])
    gs = want_c if poly else want_p
    dist = np.array([[t.distance(g) for g in r] for r in gs])
    dist[M] = np.inf
    n, idx = grid.get_nearest(t, return_indices=True)
    check(tuple(n.shape) == (1, 1), 'nearest has shape {}', n.shape)
    check(abs(dist[tuple(idx)] - dist.min()) < 1e-9, 'nearest is {} at {} expected {}', idx, dist[tuple(idx)], dist.min())
    nx, ny = float(n.get_value_stacked()[1][0, 0]), float(n.get_value_stacked()[0][0, 0])
    check((nx, ny) == (X[tuple(idx)], Y[tuple(idx)]), 'nearest cell is centred at {} {}', nx, ny)
    d = G.diff_coll(before, G.snap_coll(f))
    check(d is None, 'looking at the grid changed it: {}', d)
    # Slices.
    iy, ix = [G.index_positions(j, k) for j, k in zip(case['slc'], (s['ny'], s['nx']))]
    sub = grid[tuple(G.index_obj(j) for j in case['slc'])]
    ii = np.ix_(iy, ix)
    vx = [np.concatenate([VX[i:i + 2, j:j + 2].ravel() for i in iy for j in ix]) for _ in (0,)][0]
    vy = [np.concatenate([VY[i:i + 2, j:j + 2].ravel() for i in iy for j in ix]) for _ in (0,)][0]
    judge(sub, want_p[ii], want_c[ii], M[ii], ext_of(vx, vy) if s['bounds'] else ext_of(X[ii], Y[ii]), X[ii], Y[ii], 'slice')
    d = G.diff_coll(before, G.snap_coll(f))
    check(d is None, 'slicing the grid changed it: {}', d)
    if case['expand']:
        g2 = f.deepcopy().grid
        g2.expand()
        check(not g2.is_vectorized and g2.x.ndim == 2 and g2.y.ndim == 2, 'not expanded')
        judge(g2, want_p, want_c, M, ext, X, Y, 'expanded')
        s2 = g2[tuple(G.index_obj(j) for j in case['slc'])]
        judge(s2, want_p[ii], want_c[ii], M[ii], ext_of(vx, vy) if s['bounds'] else ext_of(X[ii], Y[ii]), X[ii], Y[ii], 'expanded slice')
        g2.expand()
        judge(g2, want_p, want_c, M, ext, X, Y, 'expanded twice')
    if s['bounds']:
        g3 = f.deepcopy().grid
        g3.remove_bounds()
        check(g3.abstraction == 'point' and not g3.has_bounds, 'bounds remain')
        same_geoms(g3.get_abstraction_geometry().get_masked_value(), want_p, M, 'without bounds')
        check(np.allclose(g3.extent, ext_of(X, Y)), 'extent without bounds {}', g3.extent)
    d = G.diff_coll(before, G.snap_coll(f))
    check(d is None, 'changing a copy changed the grid: {}', d)
    return '{} {} {}{}'.format(s['grid'], 'poly' if poly else 'point', case['via'], ' masked' if M.any() else '')


# ---------------------------------------------------------------- derive
def gen_derive(draw):
    kind = pick(draw, ['1d', '1d', 'affine', 'curved', 'corners', 'expanded'])
    s = G.draw_field(draw, nt=(1, 1), ny=(2, 5), nx=(2, 5), nvars=(1, 1), grid=('1d',), bounds=False, masks=False, dtypes=('f8',))
    c = {'kind': kind, 'field': s, 'dt': pick(draw, ['f8', 'f8', 'f4']), 'seed': draw(I(0, 999)), 'gmask': pick(draw, [None, 30])}
    c['coef'] = [draw(I(-6, 6)) * .5, draw(I(1, 8)) * .5 * pick(draw, [1, -1]), draw(I(1, 8)) * .5 * pick(draw, [1, -1]), draw(I(-6, 6)) * .5]
    c['via'] = pick(draw, ['grid', 'grid', 'variable', 'request'])
    # Coordinates chosen freely (not cell centres): irregular strictly monotonic.
    for k, n in (('cx', s['nx']), ('cy', s['ny'])):
        st_ = [draw(I(1, 12)) * .5 for _ in range(n - 1)]
        v = np.cumsum([draw(I(-40, 20)) * .5] + st_)
        c[k] = (v[::-1] if chance(draw, .3) else v).tolist()
    return c


def want_bounds(v):
    """Boundaries half-way between neighbours; the ends extend by the mean distance of the boundaries (of the centres if there are two)."""
    v = np.asarray(v, float)
    e = (v[1:] + v[:-1]) / 2.
    d = np.diff(e).mean() if len(e) > 1 else v[1] - v[0]
    e = np.concatenate([[e[0] - d], e, [e[-1] + d]])
    return np.column_stack([e[:-1], e[1:]])


def run_derive(case):
    import ocgis
    from ocgis import Variable, Grid, Field
    from ocgis.util.helpers import create_ocgis_corners_from_esmf_corners, get_esmf_corners_from_ocgis_corners
    k, s = case['kind'], case['field']
    if k == 'corners':
        e = G.values((s['ny'] + 1, s['nx'] + 1), case['seed'], 'f8')
        o = create_ocgis_corners_from_esmf_corners(e)
        check(np.array_equal(o, G.corners_from_vertices(e)), 'corners {} of {}', o.tolist(), e.tolist())
        check(np.array_equal(get_esmf_corners_from_ocgis_corners(o), e.T), 'corners do not convert back')
        check(np.array_equal(get_esmf_corners_from_ocgis_corners(np.ma.array(o)), e.T), 'masked corners do not convert back')
        return 'corners'
    if k in ('1d', 'expanded'):
        x = np.array(case['cx'], dtype=case['dt'])
        y = np.array(case['cy'], dtype=case['dt'])
        if k == 'expanded':
            # Two-dimensional coordinates of a regular grid.
            x = np.linspace(x[0], x[0] + (len(x) - 1) * (x[1] - x[0]), len(x)).astype(case['dt'])
            y = np.linspace(y[0], y[0] + (len(y) - 1) * (y[1] - y[0]), len(y)).astype(case['dt'])
        vx, vy = Variable('x', x, 'x'), Variable('y', y, 'y')
        grid = Grid(vx, vy)
        if k == 'expanded':
            grid.expand()
    else:
        a, b, c, d = case['coef']
        jj, ii = np.meshgrid(np.arange(s['nx']), np.arange(s['ny']))
        x, y = b * jj + a * ii * .25 + 3, c * ii + d * jj * .25 - 5
        if abs(b * c - a * d * .0625) < .1:
            raise Skip('degenerate')
        if k == 'curved':
            r = np.random.RandomState(case['seed'])
            x = x + r.randint(-2, 3, size=x.shape) * .0625 * min(abs(b), abs(c))
            y = y + r.randint(-2, 3, size=y.shape) * .0625 * min(abs(b), abs(c))
        vx, vy = Variable('x', x.astype(case['dt']), ['y', 'x']), Variable('y', y.astype(case['dt']), ['y', 'x'])
        grid = Grid(vx, vy)
    x, y = x.astype(float), y.astype(float)
    f = grid.parent
    f.add_variable(Variable('foo', G.values(grid.shape, 1), ['y', 'x']), is_data=True)
    gm = G.mask(tuple(grid.shape), case['seed'], case['gmask'])
    if gm is not None:
        grid.set_mask(gm)
    if case['via'] == 'variable':
        grid.x.set_extrapolated_bounds('xb', 'cc')
        grid.y.set_extrapolated_bounds('yb', 'cc')
    elif case['via'] == 'request':
        if k != '1d':
            raise Skip('files hold one-dimensional coordinates')
        p = os.path.abspath('d.nc')
        f.x.attrs['standard_name'], f.y.attrs['standard_name'] = 'longitude', 'latitude'
        f.write(p)
        ops = ocgis.OcgOperations(dataset=ocgis.RequestDataset(p, 'foo'), interpolate_spatial_bounds=True)
        f = ops.execute().get_element()
        grid = f.grid
    else:
        grid.set_extrapolated_bounds('xb', 'yb', 'cc')
    if k == 'expanded':
        x, y = np.meshgrid(x, y)
    check(np.array_equal(grid.x.get_value(), vx.get_value()) and np.array_equal(grid.y.get_value(), vy.get_value()), 'centres changed')
    check(grid.has_bounds and grid.abstraction == 'polygon', 'no cells after deriving bounds: {}', grid.abstraction)
    bx, by = grid.x.bounds.get_value().astype(float), grid.y.bounds.get_value().astype(float)
    tol = 1e-9 if case['dt'] == 'f8' else 1e-5
    if k == '1d':
        check(np.allclose(bx, want_bounds(x), rtol=0, atol=tol), 'x bounds {} of {} expected {}', bx.tolist(), x.tolist(), want_bounds(x).tolist())
        check(np.allclose(by, want_bounds(y), rtol=0, atol=tol), 'y bounds {} of {} expected {}', by.tolist(), y.tolist(), want_bounds(y).tolist())
        CX, CY = None, None
    else:
        check(bx.shape == x.shape + (4,) and by.shape == x.shape + (4,), 'corner shape {}', bx.shape)
        # Interior corners: the mean of the four surrounding centres, shared by the four cells.
        for b, v, n in ((bx, x, 'x'), (by, y, 'y')):
            mid = (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:]) / 4.
            V = np.full((v.shape[0] + 1, v.shape[1] + 1), np.nan)
            for i in np.ndindex(v.shape):
                for q, (p_, r_) in enumerate(((0, 0), (0, 1), (1, 1), (1, 0))):
                    o = V[i[0] + p_, i[1] + r_]
                    check(np.isnan(o) or abs(o - b[i + (q,)]) <= tol, '{} corner {} of cell {} is {}, another cell has {}', n, q, i, b[i + (q,)], o)
                    V[i[0] + p_, i[1] + r_] = b[i + (q,)]
            check(np.allclose(V[1:-1, 1:-1], mid, rtol=0, atol=tol), '{} interior corners {} expected {}', n, V[1:-1, 1:-1].tolist(), mid.tolist())
            if k in ('affine', 'expanded'):
                di, dj = v[1, 0] - v[0, 0], v[0, 1] - v[0, 0]
                I_, J_ = np.meshgrid(np.arange(V.shape[0]) - .5, np.arange(V.shape[1]) - .5, indexing='ij')
                W = v[0, 0] + I_ * di + J_ * dj
                check(np.allclose(V, W, rtol=0, atol=tol * 10), '{} corners {} expected {}', n, V.tolist(), W.tolist())
    # Cells tile: no overlap, no gap.
    from shapely.ops import unary_union
    gv = grid.get_polygon(mask=np.zeros(tuple(grid.shape), bool))
    gs = list(gv.get_value().flat)
    if k != 'curved' or all(g.is_valid for g in gs):
        check(all(g.is_valid for g in gs), 'invalid cells')
        u = unary_union(gs)
        tot = sum(g.area for g in gs)
        check(abs(u.area - tot) <= 1e-6 * tot, 'cells overlap: area {} of {}', u.area, tot)
        if case['dt'] == 'f8':
            check(u.buffer(1e-7).geom_type == 'Polygon' and sum(map(len, [u.buffer(1e-7).interiors])) == 0, 'gaps between the cells: {}', u.wkt)
    mk = grid.get_mask()
    check((mk is None or not mk.any()) if gm is None else (np.array_equal(mk, gm) or not gm.any()), 'mask is {}', mk)
    # Again: bounds are there.
    from ocgis.exc import BoundsAlreadyAvailableError
    try:
        grid.x.set_extrapolated_bounds('q', 'cc')
    except BoundsAlreadyAvailableError:
        pass
    else:
        raise Violation('existing bounds were replaced')
    return '{} {}'.format(k, case['via'])


# ---------------------------------------------------------------- masks
def gen_masks(draw):
    s = G.draw_field(draw, nt=(1, 3), nl='maybe', ny=(1, 4), nx=(1, 4), nvars=(1, 3), dtypes=('f8', 'i4'), order='any')
    ops = []
    for _ in range(draw(I(1, 6))):
        k = pick(draw, ['set', 'set', 'cascade', 'cascade', 'var', 'none', 'slice', 'copy', 'file', 'expand', 'edit', 'assign', 'geom', 'data'])
        ops.append([k, draw(I(0, 99)), pick(draw, [0, 20, 50, 100])])
    return {'field': s, 'ops': ops, 'early': chance(draw), 'slc': [G.draw_index(draw, s['ny'], ('slice', 'none')), G.draw_index(draw, s['nx'], ('slice', 'none'))]}


def run_masks(case):
    import ocgis
    from ocgis.spatial.base import create_spatial_mask_variable
    s = case['field']
    f = G.build_field(s)
    shp = (s['ny'], s['nx'])
    gmask = None
    data = {v['name']: G.varray(s, v).copy() for v in s['vars']}
    dims = {v['name']: list(v['dims']) for v in s['vars']}
    want_p, want_c = G.points(s), G.cells(s)
    kept = []
    changed = 0

    def judge(f, gmask, data, P, C, what):
        g = f.grid
        mk = g.get_mask()
        M = np.zeros(g.shape, bool) if gmask is None else gmask
        check((mk is None) == (gmask is None) or not M.any(), '{}: grid mask is {} expected {}', what, mk, gmask)
        check(np.array_equal(np.zeros(g.shape, bool) if mk is None else mk, M), '{}: grid mask is {} expected {}', what, mk, M)
        check(g.has_masked_values == bool(M.any()), '{}: has masked values {}', what, g.has_masked_values)
        check(bool(g.has_mask) == (gmask is not None) or not M.any(), '{}: has mask {}', what, g.has_mask)
        same_geoms(g.get_abstraction_geometry().get_masked_value(), C if s['bounds'] else P, M, what + ' geometries')
        check(not np.any(g.x.get_mask()) and not np.any(g.y.get_mask()), '{}: coordinates are masked', what)
        for n in data:
            arr_eq(f[n].get_masked_value(), data[n], '{} variable {}'.format(what, n))
        if f.time is not None:
            check(not np.any(f.time.get_mask()), '{}: time is masked', what)

    def cascade(M):
        for n in data:
            a = np.moveaxis(data[n], [dims[n].index('y'), dims[n].index('x')], [-2, -1])
            a = np.ma.array(a.data, mask=np.ma.getmaskarray(a) | M)
            data[n] = np.moveaxis(a, [-2, -1], [dims[n].index('y'), dims[n].index('x')])

    judge(f, gmask, data, want_p, want_c, 'start')
    for i, (k, seed, den) in enumerate(case['ops']):
        shp = tuple(f.grid.shape)
        m = G.mask(shp, seed, den)
        what = 'op {} {}'.format(i, k)
        if k in ('set', 'cascade'):
            arg = m.copy()
            f.grid.set_mask(arg, cascade=k == 'cascade')
            check(np.array_equal(arg, m), '{}: the given mask was changed', what)
            arg[...] = ~arg
            gmask = m
            changed += m.any()
            if k == 'cascade':
                cascade(m)
        elif k == 'var':
            mv = create_spatial_mask_variable('smask{}'.format(i), m, f.grid.dimensions)
            f.grid.set_mask(mv, cascade=bool(seed % 2))
            gmask = m
            changed += m.any()
            if seed % 2:
                cascade(m)
        elif k == 'none':
            f.grid.set_mask(None)
            gmask = None
        elif k == 'slice':
            kept.append((f, gmask, dict(data), want_p, want_c))
            iy = [j for j in range(shp[0]) if j % 2 == seed % 2 or den == 0] or [0]
            f2 = f.grid[iy[0]:iy[-1] + 1, 0:max(1, shp[1] - seed % 2)].parent
            sl = np.ix_(range(iy[0], iy[-1] + 1), range(0, max(1, shp[1] - seed % 2)))
            gmask = None if gmask is None else gmask[sl]
            for n in data:
                a = np.moveaxis(data[n], [dims[n].index('y'), dims[n].index('x')], [-2, -1])[(Ellipsis,) + sl]
                data[n] = np.moveaxis(a, [-2, -1], [dims[n].index('y'), dims[n].index('x')])
            want_p, want_c = want_p[sl], want_c[sl]
            f = f2
        elif k == 'copy':
            kept.append((f, gmask, dict(data), want_p, want_c))
            f = f.deepcopy() if seed % 2 else f.copy()
        elif k == 'file':
            p = os.path.abspath('m{}.nc'.format(i))
            kept.append((f, gmask, dict(data), want_p, want_c))
            for c, n in ((f.x, 'longitude'), (f.y, 'latitude')):
                c.attrs['standard_name'] = n
            f.write(p)
            f = ocgis.RequestDataset(p, variable=[v['name'] for v in s['vars']]).get()
            if seed % 2:
                f.load()
        elif k == 'expand':
            f.grid.expand()
        elif k == 'edit':
            # Masks handed out for editing.
            mk = f.grid.get_mask(create=True)
            check(mk.shape == shp and np.array_equal(mk, np.zeros(shp, bool) if gmask is None else gmask), '{}: created mask {}', what, mk)
            gmask = np.zeros(shp, bool) if gmask is None else gmask
        elif k == 'assign':
            # Values are set in place: slices and shallow copies share them.
            f = f.deepcopy()
            g2 = f.deepcopy().grid[0:1, 0:1]
            mm = np.array([[bool(seed % 2)]])
            g2.set_mask(mm)
            f.grid[shp[0] - 1:, shp[1] - 1:] = g2
            gmask = np.zeros(shp, bool) if gmask is None else gmask.copy()
            gmask[-1, -1] = mm[0, 0]
            P, C = want_p.copy(), want_c.copy()
            P[-1, -1], C[-1, -1] = want_p[0, 0], want_c[0, 0]
            if f.grid.is_vectorized:
                # The last row and column take the first coordinates.
                from shapely.geometry import Point, box
                P, C = want_p.copy(), want_c.copy()
                ny, nx = shp
                for r in range(ny):
                    for c in range(nx):
                        rr, cc = (0 if r == ny - 1 else r), (0 if c == nx - 1 else c)
                        P[r, c], C[r, c] = want_p[rr, cc], want_c[rr, cc]
            want_p, want_c = P, C
        elif k == 'geom':
            g = f.grid.get_abstraction_geometry()
            fc = f.copy()
            fc.set_geom(g)
            mg = fc.geom.get_mask()
            check(np.array_equal(np.zeros(shp, bool) if mg is None else mg, np.zeros(shp, bool) if gmask is None else gmask), '{}: geometry mask {}', what, mg)
        elif k == 'data':
            v = s['vars'][0]['name']
            a = data[v].copy()
            # (A file holds no data under its masks.)
            mm = G.mask(a.shape, seed, den) | np.ma.getmaskarray(a)
            f[v].set_mask(mm)
            data[v] = np.ma.array(a.data, mask=mm)
        judge(f, gmask, data, want_p, want_c, what)
        for j, (kf, kg, kd, kp, kc) in enumerate(kept):
            judge(kf, kg, kd, kp, kc, what + ' (original {})'.format(j))
    return (' '.join(sorted({o[0] for o in case['ops']}))[:40]) if changed else None


TARGETS = [
    Target('geoms', gen_geoms, run_geoms, 300, 6000, 'geometries, extents and slices of the grid are all judged'),
    Target('derive', gen_derive, run_derive, 300, 5000, 'bounds are derived'),
    Target('masks', gen_masks, run_masks, 300, 6000, 'a mask with masked cells is set in the history'),
]
