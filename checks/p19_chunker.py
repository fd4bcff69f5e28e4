"""Grid chunking. Chunk files are read with netCDF4 and every cell is located in the global grid by its coordinates, independently of the
index file. Synthetic weights in chunk-local indices must come out as the same cells in the merged file; chunked destination data must
come out in the global array. Non-trivial: at least two chunks."""
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st


def cname(s):
    return ('x', 'y') if s['grid'] == '1d' else ('lon', 'lat')


def draw_grid(draw, n=(1, 7), lo=-4, hi=2, **kw):
    s = G.draw_field(draw, time=False, ny=n, nx=n, nvars=(1, 1), dtypes=('f8',), masks=False,
                     x={'lo': lo, 'hi': hi, 'maxstep': 2}, y={'lo': lo, 'hi': hi, 'maxstep': 2}, **kw)
    s['order'] = None
    return s


def lon_grid(draw, left, right, ny):
    """A regular grid on the sphere with longitude edges between the given ones."""
    step = pick(draw, [20, 30, 40])
    n = (right - left) // step
    a = draw(I(0, n - 1)) if right - left < 360 else 0
    b = draw(I(a + 1, n)) if right - left < 360 else n
    s = {'nt': None, 'nl': None, 'nr': None, 'ny': ny, 'nx': b - a, 'grid': pick(draw, ['1d', '1d', '2d']), 'bounds': chance(draw, .6), 'shear': [0, 0], 'lb': False,
         'xe': [float(left + step * i) for i in range(a, b + 1)], 'ye': [float(-20 + 10 * i) for i in range(ny + 1)]}
    s['vars'] = [{'name': 'foo', 'dims': ['y', 'x'], 'dtype': 'f8', 'seed': 1, 'mask': None}]
    return s


def gen(draw):
    c = {}
    if chance(draw, .2):
        c['wrap'] = True
        lo = pick(draw, [(0, -180), (-180, 0)])
        c['src'] = lon_grid(draw, lo[0], lo[0] + 360, draw(I(3, 6)))
        c['dst'] = lon_grid(draw, lo[1] + (20 if lo[1] else 60), lo[1] + (160 if lo[1] else 300), draw(I(2, 5))) if chance(draw, .5) else \
            lon_grid(draw, lo[1], lo[1] + 360, draw(I(2, 5)))
        crs = pick(draw, ['spherical', 'wgs84'])
    else:
        c['wrap'] = False
        c['src'] = draw_grid(draw, (3, 9), lo=-8, hi=-3)
        c['dst'] = draw_grid(draw)
        crs = pick(draw, [None, None, 'spherical', 'wgs84', '+proj=laea +lat_0=40 +lon_0=-100 +ellps=WGS84 +units=m +no_defs'])
    c['src']['crs'] = c['dst']['crs'] = crs
    c['files'] = [chance(draw, .4) for _ in range(2)] if crs == 'spherical' else [False, False]
    c['n'] = [draw(I(1, 4)), draw(I(1, 4))]
    c['buffer'] = None if chance(draw, .4) else draw(I(0 if c['dst']['bounds'] else 1, 6)) * (10. if c['wrap'] else .5)
    c['opt'] = pick(draw, ['auto', 'auto', True, False])
    c['smask'], c['dmask'] = (draw(I(0, 99)) if chance(draw, .25) else None), chance(draw, .25)
    c['format'] = pick(draw, [None, None, 'NETCDF4', 'NETCDF3_64BIT_OFFSET'])
    c['wseed'] = draw(I(0, 999))
    c['sizes'] = draw(st.lists(I(0, 6), min_size=16, max_size=16))
    c['missing'] = sorted(draw(st.sets(I(0, 4), min_size=1, max_size=3))) if chance(draw, .4) else []
    c['aux'] = chance(draw, .2)
    c['names'] = pick(draw, [None, None, {'dst_template': 'd_{}_x.nc', 'src_template': 'a{}.nc'}, {'index_file': 'idx.nc', 'wgt_template': 'w_{}.nc'}])
    c['dims'] = pick(draw, ['yx', 'tyx'])
    c['dtype'] = pick(draw, ['f8', 'f4', 'i4'])
    c['imask'] = pick(draw, [None, None, .3])
    c['fills'] = chance(draw, .3)
    c['nv'] = draw(I(1, 2))
    c['cwd'] = chance(draw, .3)
    c['regions'] = draw(I(0, 2))
    return c


def source(s, name, as_file, m, crs):
    """A grid, a field or a request dataset."""
    import ocgis
    if as_file:
        G.write_nc(s, name + '_in.nc')
        return ocgis.RequestDataset(os.path.abspath(name + '_in.nc'))
    f = G.build_field(s)
    if m is not None:
        f.grid.set_mask(m)
    return f.grid


def located(X, Y):
    d = {}
    for i in np.ndindex(X.shape):
        k = (round(float(X[i]), 7), round(float(Y[i]), 7))
        if k in d:
            raise Skip('cells with equal centres')
        d[k] = i
    return d


def read(path, s):
    """Global coordinates of the cells of a chunk file and the mask."""
    import netCDF4 as nc
    xn, yn = cname(s)
    with nc.Dataset(path) as ds:
        if xn not in ds.variables:
            xn, yn = 'x', 'y'
        x, y = ds.variables[xn][:], ds.variables[yn][:]
        if x.ndim == 1:
            x, y = np.meshgrid(x, y)
        m = [np.ma.getmaskarray(v[:]) for v in ds.variables.values() if getattr(v, 'ocgis_role', None) == 'spatial_mask']
        return np.asarray(x), np.asarray(y), (m[0] if m else None)


def where(path, s, loc, what):
    x, y, m = read(path, s)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        k = (round(float(x[i]), 7), round(float(y[i]), 7))
        check(k in loc, '{}: coordinates {} do not occur in the global grid', what, k)
        out[i] = loc[k]
    return out, m


def known(case):
    return False


def run(case):
    import ocgis
    import netCDF4 as nc
    from ocgis.exc import EmptySubsetError
    from ocgis.spatial.grid_chunker import GridChunker
    S, D = case['src'], case['dst']
    SX, SY = G.centres(S)
    DX, DY = G.centres(D)
    sloc, dloc = located(SX, SY), located(DX, DY)
    rng = np.random.RandomState(case['wseed'])
    sm = np.random.RandomState(case['smask']).rand(*SX.shape) < .3 if case['smask'] is not None and not case['files'][0] else None
    if sm is not None and sm.all():
        sm = None
    dm = np.add.outer(np.arange(D['ny']), np.arange(D['nx'])) % 2 == 1 if case['dmask'] and not case['files'][1] else None
    if sm is not None and not sm.any():
        sm = None
    if dm is not None and not dm.any():
        dm = None
    src, dst = source(S, 's', case['files'][0], sm, S['crs']), source(D, 'd', case['files'][1], dm, D['crs'])
    buf = case['buffer']
    if 1 in (S['ny'] * S['nx'], D['ny'] * D['nx']) or buf is None and 1 in (S['ny'], S['nx'], D['ny'], D['nx']):
        buf = 1. if buf is None else buf
        opt = True if case['opt'] == 'auto' else case['opt']
    else:
        opt = case['opt']
    if case['n'] == [1, 1]:
        raise Skip('one chunk')
    kw = {}
    os.makedirs('w')
    here = os.getcwd()
    paths = dict(case['names'] or {}, wd=os.path.abspath('w'))
    if case['cwd']:
        # The working directory is the current one by default.
        os.makedirs('elsewhere')
        os.chdir('elsewhere')
        GridChunker(src, dst, nchunks_dst=(1, 2), buffer_value=1., optimized_bbox_subset=True)
        os.chdir(here)
        os.chdir('w')
        if case['names'] is None:
            paths = None
        else:
            paths.pop('wd')
    given = None if paths is None else dict(paths)
    try:
        gc = GridChunker(src, dst, nchunks_dst=tuple(case['n']), paths=paths, buffer_value=buf, optimized_bbox_subset=opt,
                         filemode='WITHAUX' if case['aux'] else 'BASIC', **({} if case['format'] is None else {'nc_format': case['format']}))
    finally:
        os.chdir(here)
    if buf is None:
        buf = gc.buffer_value
        regular = [s for s in (S, D) if s['grid'] == '1d' and all(np.allclose(np.diff(s[k]), np.diff(s[k])[0]) for k in ('xe', 'ye'))]
        if len(regular) == 2:
            want = 2 * min(max(abs(np.diff(s[k])[0]) for k in ('xe', 'ye')) for s in (S, D))
            check(np.isclose(buf, want), 'default buffer is {} expected {}', buf, want)
    # The extents are decided by the chunks of the destination.
    try:
        gc.write_chunks()
    except EmptySubsetError:
        empty = True
    else:
        empty = False
    W = os.path.join(here, 'w')
    N = dict({'dst_template': 'split_dst_{}.nc', 'src_template': 'split_src_{}.nc', 'wgt_template': 'esmf_weights_{}.nc', 'index_file': '01-split_index.nc'}, **(case['names'] or {}))
    k = 1
    cells = []
    seen = np.zeros(DX.shape, int)
    while os.path.exists(os.path.join(W, N['dst_template'].format(k))):
        d, m = where(os.path.join(W, N['dst_template'].format(k)), D, dloc, 'destination chunk %d' % k)
        for i in d.flat:
            seen[i] += 1
        if dm is not None or m is not None:
            got = np.zeros(d.shape, bool) if m is None else m
            exp = np.array([False if dm is None else dm[i] for i in d.flat]).reshape(d.shape)
            arr_eq(got, exp, 'mask of destination chunk %d' % k)
        cells.append(d)
        k += 1
    dslices = chunks_of(gc)
    need = []
    for ys, xs in dslices:
        need.append(needed(case, S, D, SX, SY, DX, DY, ys, xs, buf, gc.optimized_bbox_subset if opt == 'auto' else opt, sm))
    if empty:
        check(any(not n.any() for n in need), 'no source cells are found for a destination chunk')
        return 'a chunk without source'
    check((seen == 1).all(), 'destination cells per chunk count {}', seen.tolist())
    nf = len(cells)
    cov = 1 * (D['ny'] > 1 or D['nx'] > 1)
    check(nf <= case['n'][0] * case['n'][1], '{} chunks expected at most {}', nf, case['n'])
    for axis, n in enumerate(case['n']):
        size = DX.shape[axis]
        parts = len({d.flat[0][axis] for d in cells})
        check(parts == max(1, min(n, size // 2)), '{} pieces of a dimension with {} elements and chunk count {}', parts, size, n)
    scell = []
    for i in range(nf):
        s, m = where(os.path.join(W, N['src_template'].format(i + 1)), S, sloc, 'source chunk %d' % (i + 1))
        scell.append(s)
        have = np.zeros(SX.shape, bool)
        for j, p in enumerate(s.flat):
            have[p] = m is None or not m.flat[j]
        # The part of the destination.
        ys, xs = sorted({p[0] for p in cells[i].flat}), sorted({p[1] for p in cells[i].flat})
        w = needed(case, S, D, SX, SY, DX, DY, slice(ys[0], ys[-1] + 1), slice(xs[0], xs[-1] + 1), buf, gc.optimized_bbox_subset if opt == 'auto' else opt, sm)
        check(not (w & ~have).any(), 'source chunk {} lacks cells {} within the buffered extent of the destination chunk', i + 1,
              [tuple(q) for q in np.argwhere(w & ~have)])
    # Index file.
    with nc.Dataset(os.path.join(W, N['index_file'])) as ds:
        g = ds.variables['grid_chunker_index']
        check(list(g.src_grid_shape) == list(SX.shape) and list(g.dst_grid_shape) == list(DX.shape), 'shapes in the index {} {}', g.src_grid_shape, g.dst_grid_shape)
        for role, files, cc in (('src', 'grid_chunker_source', scell), ('dst', 'grid_chunker_destination', cells)):
            xb, yb = ds.variables[getattr(g, role + '_x_bounds')][:], ds.variables[getattr(g, role + '_y_bounds')][:]
            check(len(xb) == nf, 'number of files in the index')
            for i, p in enumerate(cc):
                for b, ax in ((yb, 0), (xb, 1)):
                    want = [min(q[ax] for q in p.flat), max(q[ax] for q in p.flat) + 1]
                    check(list(b[i]) == want, 'index: {} chunk {} axis {} has bounds {} expected {}', role, i + 1, ax, list(b[i]), want)
                check([q for q in p.flat] == [(y, x) for y in range(*yb[i]) for x in range(*xb[i])], 'index: {} chunk {} is not the part of the global grid', role, i + 1)
            v = ds.variables[getattr(g, files)]
            names = [bytes(np.ma.filled(r, b'')).decode().strip('\x00').strip() if v.dtype.kind == 'S' else r for r in v[:]]
            want = [N[role + '_template'].format(i + 1) for i in range(nf)]
            check(names == want, 'index: files {} expected {}', names, want)
    # Chunk addressed directly.
    j = rng.randint(nf)
    subs = list(gc.iter_dst_grid_subsets(yield_slice=True, yield_idx=int(j)))
    check(len(subs) == 1, 'one chunk is asked for and {} are returned', len(subs))
    got = [(float(a), float(b)) for a, b in zip(*[v.flatten() for v in (np.meshgrid(subs[0][0].x.get_value(), subs[0][0].y.get_value()) if subs[0][0].is_vectorized else
                                                                        (subs[0][0].x.get_value(), subs[0][0].y.get_value()))])]
    check(np.allclose(got, [(DX[p], DY[p]) for p in cells[j].flat]), 'chunk {} asked for directly differs', j)
    merge(case, gc, W, N, rng, nf, scell, cells, SX.shape, DX.shape)
    insert(case, W, N, rng, nf, cells, D)
    return 'one chunk' if nf == 1 else '{}{}{} {} chunks'.format('wrap ' if case['wrap'] else '', D['grid'], 'b' if D['bounds'] else '', nf) if nf > 1 else ''


def chunks_of(gc):
    dims = [d.name for d in gc.dst_grid.dimensions]
    return [tuple(s[d] for d in dims) for s in gc.iter_dst_grid_slices()]


def needed(case, S, D, SX, SY, DX, DY, ys, xs, buf, opt, sm):
    """Source cells which must be in the chunk for the part of the destination."""
    from shapely.geometry import box
    if D['bounds']:
        VX, VY = G.vertices(D)
        y2, x2 = slice(ys.start, ys.stop + 1), slice(xs.start, xs.stop + 1)
        px, py = VX[y2, x2], VY[y2, x2]
    else:
        px, py = DX[ys, xs], DY[ys, xs]
    b = [px.min() - buf, py.min() - buf, px.max() + buf, py.max() + buf]
    if case['wrap']:
        # Extents beyond the range of longitudes of the destination are cut, periodicity is not considered.
        lo = -180 if DX.min() < 0 else 0
        hi = 180 if DX.min() >= 0 and DX.max() <= 180 else lo + 360
        b[0], b[2] = max(b[0], lo), min(b[2], hi)
    out = np.zeros(SX.shape, bool)
    e = 1e-6
    for sh in ((-360, 0, 360) if case['wrap'] else (0,)):
        if opt or not S['bounds']:
            out |= (SX + sh > b[0] + e) & (SX + sh < b[2] - e) & (SY > b[1] + e) & (SY < b[3] - e)
        else:
            from shapely.affinity import translate
            bb = box(*b)
            cs = G.cells(S)
            for i in np.ndindex(out.shape):
                if translate(cs[i], sh, 0).intersection(bb).area > 1e-6:
                    out[i] = True
    if sm is not None:
        out &= ~sm
    return out


def merge(case, gc, W, N, rng, nf, scell, cells, sshape, dshape):
    import netCDF4 as nc
    want = []
    first = None
    for i in range(nf):
        if i in case['missing'] and i < nf - 1:
            continue
        n = case['sizes'][i % 16]
        row, col, S = rng.randint(1, cells[i].size + 1, n), rng.randint(1, scell[i].size + 1, n), rng.randint(-64, 64, n) / 64.
        with nc.Dataset(os.path.join(W, N['wgt_template'].format(i + 1)), 'w', format='NETCDF3_64BIT_OFFSET') as ds:
            ds.createDimension('n_s', n)
            for name, v, t in (('col', col, 'i4'), ('row', row, 'i4'), ('S', S, 'f8')):
                ds.createVariable(name, t, ('n_s',))[:] = v
            if first is None and case['aux']:
                ds.createDimension('n_a', 3)
                ds.createVariable('area_a', 'f8', ('n_a',))[:] = [i, 2., 3.]
                ds.setncattr('title', 'weights %d' % i)
                first = i
        for r, c, v in zip(row, col, S):
            p, q = cells[i].flat[r - 1], scell[i].flat[c - 1]
            want.append((p[0] * dshape[1] + p[1] + 1, q[0] * sshape[1] + q[1] + 1, v))
    gc.create_merged_weight_file('merged.nc')
    with nc.Dataset('merged.nc') as ds:
        check(ds.dimensions['n_s'].size == len(want), 'merged file has {} weights expected {}', ds.dimensions['n_s'].size, len(want))
        got = list(zip(ds.variables['row'][:].tolist(), ds.variables['col'][:].tolist(), ds.variables['S'][:].tolist())) if want else []
        check(sorted(got) == sorted((int(a), int(b), float(v)) for a, b, v in want), 'merged weights {} expected {}', sorted(got), sorted(want))
        fmt = case['format'] or 'NETCDF3_64BIT_DATA'
        check(ds.data_model == fmt, 'format of the merged file {} expected {}', ds.data_model, fmt)
        if case['aux'] and first is not None:
            check('area_a' in ds.variables and ds.variables['area_a'][:].tolist() == [first, 2., 3.], 'auxiliary variable of the first weight file')
    missing = [i for i in case['missing'] if i < nf - 1]
    if missing:
        try:
            gc.create_merged_weight_file('merged2.nc', strict=True)
        except IOError:
            pass
        else:
            raise Violation('missing weight files are accepted when all are required')


def insert(case, W, N, rng, nf, cells, D):
    """Data on the chunks goes to the global file."""
    import netCDF4 as nc
    from ocgis.spatial.grid_chunker import GridChunker
    ny, nx = D['ny'], D['nx']
    nt = 3
    shape = (ny, nx) if case['dims'] == 'yx' else (nt, ny, nx)
    names = ['va', 'vb'][:case['nv']]
    full, fills = {}, {}
    for n in names:
        v = rng.randint(-99, 99, shape).astype(case['dtype'])
        m = rng.rand(*shape) < case['imask'] if case['imask'] is not None else np.zeros(shape, bool)
        full[n] = np.ma.array(v, mask=m)

    def create(ds, n, yd, xd, fill):
        if len(shape) == 3 and 'time' not in ds.dimensions:
            ds.createDimension('time', None if fill is None else nt)
            t = ds.createVariable('time', 'f8', ('time',))
            t.units, t.axis = 'days since 2000-01-01', 'T'
            t[:] = range(nt)
        return ds.createVariable(n, case['dtype'], (yd, xd) if len(shape) == 2 else ('time', yd, xd), fill_value=fill)
    xn, yn = cname(D)
    f1, f2 = (-999, -777) if case['fills'] else (-999, -999)
    s = dict(D, vars=[])
    G.write_nc(s, 'master.nc')
    with nc.Dataset('master.nc', 'a') as ds:
        for n in names:
            v = create(ds, n, 'y', 'x', f1)
            for d in ('coordinates',):
                c = [q for q in ds.variables.values() if getattr(q, 'axis', None) in ('X', 'Y') and q.ndim == 2]
                if c:
                    v.coordinates = ' '.join(q.name for q in c)
            v[:] = np.ma.array(np.zeros(shape), mask=True)
    for i in range(nf):
        p = os.path.join(W, N['dst_template'].format(i + 1))
        with nc.Dataset(p, 'a') as ds:
            a = [v for v in ds.variables.values() if v.name in cname(D) + ('x', 'y')]
            two = [v for v in a if v.ndim == 2]
            yd, xd = two[0].dimensions if two else ([v.dimensions[0] for v in a if v.name in ('y', 'lat')][0], [v.dimensions[0] for v in a if v.name in ('x', 'lon')][0])
            for n in names:
                v = create(ds, n, yd, xd, f2)
                y0, x0 = cells[i].flat[0]
                h, w = cells[i].shape
                part = np.ma.empty(shape[:-2] + cells[i].shape, dtype=case['dtype'])
                for j in np.ndindex(cells[i].shape):
                    part[(Ellipsis,) + j] = full[n][(Ellipsis,) + tuple(cells[i][j])]
                v[:] = part
    # Variables without a time dimension are not discovered.
    kw = {} if len(shape) == 3 and case['fills'] else {'data_variables': names}
    GridChunker.insert_weighted(os.path.join(W, N['index_file']), W, 'master.nc', **kw)
    with nc.Dataset('master.nc') as ds:
        for n in names:
            got = ds.variables[n][:]
            arr_eq(np.ma.getmaskarray(got), np.ma.getmaskarray(full[n]), 'mask of inserted data ' + n)
            arr_eq(np.ma.filled(got, 0), np.ma.filled(full[n], 0), 'inserted data ' + n)



def gen_mesh(draw):
    """Meshes of quadrilaterals or triangles with face centres as source, destination or both."""
    c = {'which': pick(draw, ['both', 'both', 'src', 'dst'])}
    for k, lo in (('src', -8), ('dst', -4)):
        g = draw_grid(draw, (2, 6) if k == 'src' else (2, 5), lo=lo, hi=0 if k == 'dst' else -4)
        if k == 'src' or c['which'] != 'src':
            g['bounds'] = True
        size = g['ny'] * g['nx']
        tri = chance(draw, .3)
        keep = draw(st.permutations(range(size * (2 if tri else 1))))
        if chance(draw, .3):
            keep = keep[:max(1, draw(I(len(keep) // 2, len(keep))))]
        elif chance(draw, .5):
            keep = sorted(keep)
        c[k] = {'spec': g, 'tri': tri, 'keep': list(keep), 'start': pick(draw, [0, 0, 1]), 'seed': draw(I(0, 99)), 'corner': chance(draw, .3)}
    c['n'] = [draw(I(2, 5))] if c['which'] != 'src' else [draw(I(1, 3)), draw(I(2, 3))]
    c['buffer'] = draw(I(1, 6)) * .5
    c['opt'] = pick(draw, [True, True, False])
    c['wseed'] = draw(I(0, 999))
    c['sizes'] = draw(st.lists(I(0, 6), min_size=9, max_size=9))
    c['eager'] = chance(draw, .5)
    return c


def mesh(m):
    """Node coordinates, connectivity (zero-based), centres."""
    from shapely.geometry import Polygon
    X, Y = G.vertices(m['spec'])
    nx = X.shape[1]
    el = []
    for i, j in np.ndindex(m['spec']['ny'], m['spec']['nx']):
        q = [i * nx + j, i * nx + j + 1, (i + 1) * nx + j + 1, (i + 1) * nx + j]
        el += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if m['tri'] else [q]
    el = np.array(el)[m['keep']]
    perm = np.random.RandomState(m['seed']).permutation(X.size)
    x, y = np.empty(X.size), np.empty(X.size)
    x[perm], y[perm] = X.ravel(), Y.ravel()
    el = perm[el]
    if m['corner']:
        # Representative points need not be the centroids.
        w = np.array([2., 1, 1, 1][:el.shape[1]])
    else:
        w = np.ones(el.shape[1])
    return x, y, el, (x[el] * w).sum(1) / w.sum(), (y[el] * w).sum(1) / w.sum()


def write_mesh(m, path):
    import netCDF4 as nc
    x, y, el, cx, cy = mesh(m)
    with nc.Dataset(path, 'w') as ds:
        for n, z in (('node', x.size), ('face', len(el)), ('corner', el.shape[1])):
            ds.createDimension(n, z)
        v = ds.createVariable('mesh', 'i4', ())
        v.cf_role, v.topology_dimension, v.node_coordinates = 'mesh_topology', 2, 'node_x node_y'
        v.face_node_connectivity, v.face_coordinates, v.standard_name = 'face_nodes', 'face_x face_y', 'mesh_topology'
        v = ds.createVariable('face_nodes', 'i4', ('face', 'corner'))
        v.cf_role, v.start_index = 'face_node_connectivity', m['start']
        v[:] = el + m['start']
        for n, val, d, a in (('node_x', x, 'node', 'x'), ('node_y', y, 'node', 'y'), ('face_x', cx, 'face', 'x'), ('face_y', cy, 'face', 'y')):
            v = ds.createVariable(n, 'f8', (d,))
            v.standard_name, v.units = {'x': ('longitude', 'degrees_east'), 'y': ('latitude', 'degrees_north')}[a]
            v[:] = val


def read_mesh(path, guid):
    """Ids, centres and polygons of the elements of a chunk."""
    import netCDF4 as nc
    with nc.Dataset(path) as ds:
        v = ds.variables
        g = np.asarray(v[guid][:])
        el = np.asarray(v['face_nodes'][:]) - getattr(v['face_nodes'], 'start_index', 0)
        x, y = np.asarray(v['node_x'][:]), np.asarray(v['node_y'][:])
        cx, cy = np.asarray(v['face_x'][:]), np.asarray(v['face_y'][:])
        check(el.min() >= 0 and el.max() < x.size, '{}: connectivity refers to nodes {}..{} of {}', os.path.basename(path), el.min(), el.max(), x.size)
        check(el.shape[0] == g.size == cx.size == cy.size, 'sizes of the element variables of {}', os.path.basename(path))
        return g, cx, cy, np.stack([x[el], y[el]])


def check_mesh(path, guid, m):
    g, cx, cy, poly = read_mesh(path, guid)
    x, y, el, gx, gy = mesh(m)
    name = os.path.basename(path)
    check(g.size == 0 or (g.min() >= 1 and g.max() <= len(el)), 'global ids {} in {}', g.tolist(), name)
    check(len(set(g.tolist())) == g.size, 'repeated elements {} in {}', g.tolist(), name)
    check(np.allclose(cx, gx[g - 1]) and np.allclose(cy, gy[g - 1]), 'face centres of {} differ from those of the elements {}', name, g.tolist())
    want = np.stack([x[el[g - 1]], y[el[g - 1]]])
    check(poly.shape == want.shape and np.allclose(poly, want), 'element geometries of {} differ: {} expected {}', name, poly.tolist(), want.tolist())
    return g


def run_mesh(case):
    import ocgis
    import netCDF4 as nc
    from ocgis.exc import EmptySubsetError
    from ocgis.spatial.grid_chunker import GridChunker
    obj, U = {}, {}
    for k in ('src', 'dst'):
        U[k] = case['which'] in ('both', k)
        if U[k]:
            write_mesh(case[k], k + '_in.nc')
            obj[k] = ocgis.RequestDataset(os.path.abspath(k + '_in.nc'), driver='netcdf-ugrid', grid_abstraction='point', crs=ocgis.crs.Spherical())
        else:
            f = G.build_field(dict(case[k]['spec'], crs='spherical'))
            obj[k] = f.grid
    W = os.path.abspath('w')
    os.mkdir(W)
    buf = case['buffer']
    gc = GridChunker(obj['src'], obj['dst'], nchunks_dst=tuple(case['n']), paths={'wd': W}, buffer_value=buf, optimized_bbox_subset=case['opt'], eager=case['eager'])
    dx, dy, del_, dcx, dcy = mesh(case['dst'])
    sx, sy, sel, scx, scy = mesh(case['src'])
    D, S = case['dst']['spec'], case['src']['spec']
    try:
        gc.write_chunks()
    except (EmptySubsetError, RuntimeError):
        # A piece of the destination may have no elements or a chunk no source elements.
        if U['dst']:
            piece = np.linspace(dcy.min(), dcy.max(), case['n'][0] + 1)
            piece[0] -= 1
            piece[-1] += 1
            if any(not ((dcy > a + 1e-5) & (dcy < b - 1e-5)).any() for a, b in zip(piece[:-1], piece[1:])):
                return 'a piece without elements'
            boxes = [(dx[q].min(), dy[q].min(), dx[q].max(), dy[q].max()) for q in del_]
        else:
            VX, VY = G.vertices(D)
            boxes = [(a, b, a, b) for a, b in zip(G.centres(D)[0].ravel(), G.centres(D)[1].ravel())]
        px, py = (scx, scy) if U['src'] else G.centres(S)
        if all(((px > b[0] - buf) & (px < b[2] + buf) & (py > b[1] - buf) & (py < b[3] + buf)).any() for b in boxes):
            raise
        return 'a chunk without source'
    k, seen, dcells, scells = 1, [], [], []
    DX, DY = G.centres(D)
    SX, SY = G.centres(S)
    if not (U['dst'] and U['src']):
        located(DX, DY), located(SX, SY)
    while os.path.exists(os.path.join(W, 'split_dst_%d.nc' % k)):
        dp, sp = os.path.join(W, 'split_dst_%d.nc' % k), os.path.join(W, 'split_src_%d.nc' % k)
        if U['dst']:
            g = check_mesh(dp, 'dstidx_guid', case['dst'])
            seen += g.tolist()
            dcells.append(g)
            e = [dx[del_[g - 1]].min(), dy[del_[g - 1]].min(), dx[del_[g - 1]].max(), dy[del_[g - 1]].max()]
        else:
            d, _ = where(dp, D, located(DX, DY), 'destination chunk')
            ids = np.array([p[0] * D['nx'] + p[1] + 1 for p in d.flat])
            seen += ids.tolist()
            dcells.append(ids)
            i, j = [p[0] for p in d.flat], [p[1] for p in d.flat]
            VX, VY = G.vertices(D) if D['bounds'] else (None, None)
            if D['bounds']:
                sl = (slice(min(i), max(i) + 2), slice(min(j), max(j) + 2))
                e = [VX[sl].min(), VY[sl].min(), VX[sl].max(), VY[sl].max()]
            else:
                sl = (slice(min(i), max(i) + 1), slice(min(j), max(j) + 1))
                e = [DX[sl].min(), DY[sl].min(), DX[sl].max(), DY[sl].max()]
        b = [e[0] - buf + 1e-6, e[1] - buf + 1e-6, e[2] + buf - 1e-6, e[3] + buf - 1e-6]
        inside = (lambda x, y: (x > b[0]) & (x < b[2]) & (y > b[1]) & (y < b[3]))
        if U['src']:
            g = check_mesh(sp, 'srcidx_guid', case['src'])
            scells.append(g)
            need = np.flatnonzero(inside(scx, scy)) + 1
        else:
            d, _ = where(sp, S, located(SX, SY), 'source chunk')
            scells.append(np.array([p[0] * S['nx'] + p[1] + 1 for p in d.flat]))
            need = np.flatnonzero(inside(SX, SY).ravel()) + 1
        lack = set(need.tolist()) - set(scells[-1].tolist())
        check(not lack, 'source chunk {} lacks elements {} within the buffered extent', k, sorted(lack))
        k += 1
    size = len(del_) if U['dst'] else DX.size
    check(sorted(seen) == list(range(1, size + 1)), 'destination elements in the chunks {} expected each of {} once', sorted(seen), size)
    # One chunk addressed directly.
    rng = np.random.RandomState(case['wseed'])
    nf = k - 1
    if nf == int(np.prod(case['n'])):
        j = int(rng.randint(nf))
        subs = list(gc.iter_dst_grid_subsets(yield_idx=j))
        check(len(subs) == 1, 'one chunk is asked for and {} are returned', len(subs))
        edges = np.linspace(dcy.min(), dcy.max(), case['n'][0] + 1)[1:-1]
        # Elements on the edges of the pieces belong to any of two.
        if U['dst'] and (np.abs(dcy[:, None] - edges) > 1e-5).all():
            got = subs[0].parent['dstidx_guid'].get_value()
            check(got.tolist() == dcells[j].tolist(), 'chunk {} asked for directly has elements {} expected {}', j, got.tolist(), dcells[j].tolist())
    want = []
    for i in range(nf):
        n = case['sizes'][i % 9]
        row, col, v = rng.randint(1, dcells[i].size + 1, n), rng.randint(1, scells[i].size + 1, n), rng.randint(-64, 64, n) / 64.
        with nc.Dataset(os.path.join(W, 'esmf_weights_%d.nc' % (i + 1)), 'w', format='NETCDF3_64BIT_OFFSET') as ds:
            ds.createDimension('n_s', n)
            for name, a, t in (('col', col, 'i4'), ('row', row, 'i4'), ('S', v, 'f8')):
                ds.createVariable(name, t, ('n_s',))[:] = a
        want += [(int(dcells[i][r - 1]), int(scells[i][q - 1]), float(z)) for r, q, z in zip(row, col, v)]
    gc.create_merged_weight_file('merged.nc')
    with nc.Dataset('merged.nc') as ds:
        got = list(zip(ds.variables['row'][:].tolist(), ds.variables['col'][:].tolist(), ds.variables['S'][:].tolist())) if want else []
        check(ds.dimensions['n_s'].size == len(want) and sorted(got) == sorted(want), 'merged weights {} expected {}', sorted(got), sorted(want))
    return '' if nf < 2 else '{} {} chunks'.format(case['which'], nf)


TARGETS = [Target('structured', gen, run, 60, 1500, 'at least two chunks', known),
           Target('unstructured', gen_mesh, run_mesh, 50, 1200, 'at least two chunks', known)]
