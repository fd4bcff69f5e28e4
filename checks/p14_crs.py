"""Coordinate systems: chains of transformations of fields, grids and geometry variables between geographic (WGS84, spheres) and projected
systems with generated parameters; rotated poles; cartesian coordinates; equality, file metadata and definition round trips.
Oracle: textbook projection formulas (Snyder; geocentric datum shift), vector algebra for rotated poles, spherical trigonometry.
Non-trivial: the coordinates change (transform), at least two distinct definitions are compared (identity)."""
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance

A84, F84 = 6378137.0, 1 / 298.257223563
E84 = np.sqrt(2 * F84 - F84 ** 2)
RS = 6370997.0
D2R = np.pi / 180.


# ------------------------------------------------------------------ formulas: longitude/latitude in degrees on the ellipsoid -> projected
def _m(p, e):
    return np.cos(p) / np.sqrt(1 - (e * np.sin(p)) ** 2)


def _t(p, e):
    return np.tan(np.pi / 4 - p / 2) / ((1 - e * np.sin(p)) / (1 + e * np.sin(p))) ** (e / 2)


def _q(p, e):
    s = np.sin(p)
    if e == 0:
        return 2 * s
    return (1 - e ** 2) * (s / (1 - (e * s) ** 2) - 1 / (2 * e) * np.log((1 - e * s) / (1 + e * s)))


def dlon(lon, lon0):
    return ((lon - lon0 + 180.) % 360. - 180.) * D2R


def project(c, lon, lat):
    """Forward formulas on the WGS84 ellipsoid."""
    k, a, e = c['kind'], A84, E84
    p, p0 = lat * D2R, c.get('lat0', 0) * D2R
    l = dlon(lon, c.get('lon0', 0))
    if k == 'merc':
        x, y = a * l, -a * np.log(_t(p, e))
    elif k == 'lcc':
        p1, p2 = [v * D2R for v in (c['sp'] * 2)[:2]]
        if p1 == p2:
            n = np.sin(p1)
        else:
            n = (np.log(_m(p1, e)) - np.log(_m(p2, e))) / (np.log(_t(p1, e)) - np.log(_t(p2, e)))
        f = _m(p1, e) / (n * _t(p1, e) ** n)
        r, r0 = a * f * _t(p, e) ** n, a * f * _t(p0, e) ** n
        x, y = r * np.sin(n * l), r0 - r * np.cos(n * l)
    elif k == 'aea':
        p1, p2 = [v * D2R for v in c['sp']]
        n = (_m(p1, e) ** 2 - _m(p2, e) ** 2) / (_q(p2, e) - _q(p1, e))
        cc = _m(p1, e) ** 2 + n * _q(p1, e)
        r, r0 = a * np.sqrt(cc - n * _q(p, e)) / n, a * np.sqrt(cc - n * _q(p0, e)) / n
        x, y = r * np.sin(n * l), r0 - r * np.cos(n * l)
    elif k == 'stere':
        s = 1. if c['lat0'] > 0 else -1.
        pc = abs(c['ts']) * D2R
        if abs(c['ts']) == 90:
            f = 2 * a / np.sqrt((1 + e) ** (1 + e) * (1 - e) ** (1 - e))
        else:
            f = a * _m(pc, e) / _t(pc, e)
        r = f * _t(s * p, e)
        x, y = r * np.sin(l), -s * r * np.cos(l)
    elif k == 'tmerc':
        # Krueger series.
        n = F84 / (2 - F84)
        A = a / (1 + n) * (1 + n ** 2 / 4 + n ** 4 / 64)
        al = [n / 2 - 2 * n ** 2 / 3 + 5 * n ** 3 / 16 + 41 * n ** 4 / 180, 13 * n ** 2 / 48 - 3 * n ** 3 / 5 + 557 * n ** 4 / 1440,
              61 * n ** 3 / 240 - 103 * n ** 4 / 140, 49561 * n ** 4 / 161280]

        def xe(p, l):
            t = np.sinh(np.arctanh(np.sin(p)) - e * np.arctanh(e * np.sin(p)))
            xi, eta = np.arctan2(t, np.cos(l)), np.arctanh(np.sin(l) / np.sqrt(1 + t ** 2))
            return (xi + sum(al[j - 1] * np.sin(2 * j * xi) * np.cosh(2 * j * eta) for j in (1, 2, 3, 4)),
                    eta + sum(al[j - 1] * np.cos(2 * j * xi) * np.sinh(2 * j * eta) for j in (1, 2, 3, 4)))
        xi, eta = xe(p, l)
        xi0 = xe(np.array(p0), np.array(0.))[0]
        x, y = c['k'] * A * eta, c['k'] * A * (xi - xi0)
    else:
        raise NotImplementedError(k)
    u = 1000. if c.get('units') == 'km' else 1.
    # Offsets are in metres also for coordinates in kilometres.
    return (x + c.get('x0', 0)) / u, (y + c.get('y0', 0)) / u


def unproject(c, x, y):
    """Newton iterations on the forward formulas."""
    lon = np.full(np.shape(x), float(c.get('lon0', 0)))
    lat = np.full(np.shape(x), float(c['lat0'] * .7 if c['kind'] == 'stere' else c.get('lat0', 0) or 20.))
    if c['kind'] == 'stere':
        s = 1. if c['lat0'] > 0 else -1.
        u = 1000. if c.get('units') == 'km' else 1.
        X, Y = np.asarray(x) * u - c.get('x0', 0), np.asarray(y) * u - c.get('y0', 0)
        lon = c['lon0'] + np.arctan2(X, -s * Y) / D2R
    h = 1e-4
    for _ in range(30):
        fx, fy = project(c, lon, lat)
        ax, ay = project(c, lon + h, lat)
        bx, by = project(c, lon, lat + h)
        j11, j21, j12, j22 = (ax - fx) / h, (ay - fy) / h, (bx - fx) / h, (by - fy) / h
        det = j11 * j22 - j12 * j21
        rx, ry = x - fx, y - fy
        dl, dp = (j22 * rx - j12 * ry) / det, (j11 * ry - j21 * rx) / det
        lon, lat = lon + np.clip(dl, -20, 20), np.clip(lat + np.clip(dp, -10, 10), -89.5, 89.5)
        if max(np.abs(dl).max(), np.abs(dp).max()) < 1e-11:
            break
    return lon, lat


def datum(c):
    return ('s', c['a']) if c['kind'] == 'sphere' else ('w', None)


def shift(lat, src, dst):
    """Latitudes between a sphere and the WGS84 ellipsoid: the geocentric position is kept."""
    if src[0] == dst[0]:
        return lat
    p = lat * D2R
    if src[0] == 'w':
        n = A84 / np.sqrt(1 - (E84 * np.sin(p)) ** 2)
        return np.arctan2(n * (1 - E84 ** 2) * np.sin(p), n * np.cos(p)) / D2R
    r, z = src[1] * np.cos(p), src[1] * np.sin(p)
    b = p.copy()
    for _ in range(50):
        n = A84 / np.sqrt(1 - (E84 * np.sin(b)) ** 2)
        b = np.arctan2(z + E84 ** 2 * n * np.sin(b), r)
    return b / D2R


def convert(a, b, x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    lon, lat = (x, y) if geographic(a) else unproject(a, x, y)
    lat = shift(lat, datum(a), datum(b))
    return (lon, lat) if geographic(b) else project(b, lon, lat)


def geographic(c):
    return c['kind'] in ('sphere', 'wgs84')


def crs_of(c):
    from ocgis.variable import crs as C
    k, f = c['kind'], c.get('form', 'cf')
    off = dict(false_easting=c.get('x0', 0), false_northing=c.get('y0', 0))
    if k == 'sphere':
        if f == 'proj4':
            return C.CRS(proj4='+proj=longlat +a={0} +b={0} +towgs84=0,0,0,0,0,0,0 +no_defs'.format(c['a']))
        return C.CFSpherical() if f == 'cf' and c['a'] == RS else C.Spherical(semi_major_axis=c['a'])
    if k == 'wgs84':
        return {'cf': C.WGS84, 'proj4': lambda: C.CRS(proj4='+proj=longlat +datum=WGS84 +no_defs'), 'epsg': lambda: C.CRS(epsg=4326)}[f]()
    if k == 'merc':
        return C.CRS(proj4='+proj=merc +lon_0={lon0} +k=1 +x_0={x0} +y_0={y0} +datum=WGS84 +units=m +no_defs'.format(**c))
    if k == 'tmerc':
        if c.get('zone'):
            return C.CRS(epsg=c['zone'] + 32600)
        return C.CRS(proj4='+proj=tmerc +lat_0={lat0} +lon_0={lon0} +k={k} +x_0={x0} +y_0={y0} +datum=WGS84 +units=m +no_defs'.format(**c))
    sp = c.get('sp')
    if k in ('aea', 'lcc'):
        if c['arr']:
            sp = np.array(sp, dtype=float)
        elif len(sp) == 1:
            sp = sp[0]
        kw = dict(standard_parallel=sp, longitude_of_central_meridian=c['lon0'], latitude_of_projection_origin=c['lat0'], **off)
        if k == 'aea':
            return C.CFAlbersEqualArea(**kw)
        return C.CFLambertConformal(units=c['units'], **kw)
    if k == 'stere':
        return C.CFPolarStereographic(standard_parallel=c['ts'], latitude_of_projection_origin=c['lat0'], straight_vertical_longitude_from_pole=c['lon0'], **off)
    raise NotImplementedError(k)


def draw_crs(draw, kinds=('sphere', 'wgs84', 'merc', 'lcc', 'aea', 'stere', 'tmerc'), hemi=1):
    k = pick(draw, kinds)
    c = {'kind': k}
    if k == 'sphere':
        c['a'] = pick(draw, [RS, RS, RS, 6371229.0, 6300000.0])
        c['form'] = pick(draw, ['cf', 'cf', 'proj4', 'ocgis'])
        return c
    if k == 'wgs84':
        c['form'] = pick(draw, ['cf', 'cf', 'proj4', 'epsg'])
        return c
    c['lon0'] = float(draw(I(-18, 18)) * 10)
    c['x0'], c['y0'] = [float(pick(draw, [0, 0, 1000, 500000, -250000])) for _ in range(2)]
    if k in ('lcc', 'aea'):
        lo = draw(I(15, 40))
        c['sp'] = [float(lo * hemi), float((lo + draw(I(5, 35))) * hemi)]
        if k == 'lcc' and chance(draw, .25):
            c['sp'] = c['sp'][:1]
        if chance(draw, .2):
            c['sp'] = c['sp'][::-1]
        c['arr'] = len(c['sp']) == 2 and chance(draw)
        # With one standard parallel the origin is that parallel.
        c['lat0'] = float(draw(I(20, 60)) * hemi) if len(c['sp']) == 2 else c['sp'][0]
        if k == 'lcc':
            c['units'] = pick(draw, ['m', 'm', 'km'])
    elif k == 'stere':
        c['lat0'] = 90. * hemi
        c['ts'] = float(pick(draw, [60, 70, 75, 90])) * hemi
    elif k == 'tmerc':
        c['lat0'] = float(draw(I(0, 50)) * hemi)
        c['k'] = pick(draw, [1., .9996])
        if hemi > 0 and chance(draw, .3):
            z = draw(I(1, 60))
            c.update(zone=z, lon0=float(z * 6 - 183), lat0=0., x0=500000., y0=0., k=.9996)
    return c


def close(got, want, c, what, tol=1., cur=None):
    """Coordinates agree: longitudes modulo 360, metres to the centimetre. Longitudes of a geographic system "cur" keep their domain
    (0 to 360 stays 0 to 360, cells crossing 180 stay connected)."""
    gx, gy = [np.asarray(v, float) for v in got]
    wx, wy = [np.asarray(v, float) for v in want]
    if gx.shape != wx.shape:
        raise Violation('{}: shape {} expected {}'.format(what, gx.shape, wx.shape))
    if geographic(c):
        dx, dy, t = np.abs((gx - wx + 180) % 360 - 180) * np.cos(wy * D2R), np.abs(gy - wy), 1e-6 * tol
        if cur is not None and geographic(cur):
            dx = np.abs(gx - wx)
    else:
        dx, dy, t = np.abs(gx - wx), np.abs(gy - wy), .05 * tol / (1000. if c.get('units') == 'km' else 1.)
    if not (dx <= t).all() or not (dy <= t).all():
        raise Violation('{}: got {} {} expected {} {}'.format(what, gx.tolist(), gy.tolist(), wx.tolist(), wy.tolist()))


# ------------------------------------------------------------------ transformation chains
def gen_transform(draw):
    hemi = pick(draw, [1, 1, -1])
    src = draw_crs(draw, hemi=hemi)
    ops = []
    lon0 = src.get('lon0')
    if lon0 is None:
        lon0 = float(draw(I(-15, 36)) * 10)
    plon0 = (lon0 + 180.) % 360. - 180.
    for _ in range(draw(I(1, 3))):
        d = draw_crs(draw, hemi=hemi)
        if 'lon0' in d and not d.get('zone'):
            d['lon0'] = plon0 + draw(I(-2, 2)) * 1.
        elif d.get('zone'):
            d.pop('zone')
            d['lon0'] = plon0
        ops.append(d)
    if chance(draw, .5):
        ops.append(dict(src))
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 3), nx=(1, 4), nvars=(1, 2), order='any', y={'lo': 0, 'hi': 20}, x={'lo': -10, 'hi': 5, 'maxstep': 3})
    return {'src': src, 'ops': ops, 'field': s, 'lon0': lon0, 'hemi': hemi, 'target': pick(draw, ['field', 'field', 'grid', 'geom', 'request']),
            'alloc': pick(draw, [None, 'point', 'polygon', 'both']), 'gmask': pick(draw, [None, None, 40]), 'km': draw(I(1, 10)) * 10000,
            'gt': pick(draw, ['point', 'poly', 'line', 'multi', 'hole', 'cells']), 'geom_on_field': chance(draw, .4)}


def place(case, x, y):
    """Lattice coordinates of the specification -> coordinates of the source coordinate system around its origin."""
    c, h = case['src'], case['hemi']
    x, y = np.asarray(x, float), np.asarray(y, float)
    if geographic(c):
        return x / 4. + case['lon0'], h * (y / 4. + 30.)
    u = 1000. if c.get('units') == 'km' else 1.
    sc = case['km'] / 10.
    oy = {'merc': 5e6 * h, 'stere': -h * 2.5e6, 'tmerc': (45. * h - c.get('lat0', 0)) * 111e3, 'lcc': 0, 'aea': 0}[c['kind']] + c.get('y0', 0)
    if 'lat0' in c and c['kind'] in ('lcc', 'aea'):
        oy += (40. * h - c['lat0']) * 111e3
    return (x * sc + c.get('x0', 0)) / u, (y * sc + oy) / u


def run_transform(case):
    import ocgis
    from ocgis import Variable, Field, Grid, GeometryVariable
    s = case['field']
    src = case['src']
    A = crs_of(src)
    f0 = G.build_field(s)
    two = s['grid'] == '2d'
    ny, nx = s['ny'], s['nx']
    X, Y = place(case, *G.centres(s))
    VX, VY = place(case, *G.vertices(s))
    # Source arrays.
    if two:
        xv, yv = Variable('lon', X.copy(), ['y', 'x']), Variable('lat', Y.copy(), ['y', 'x'])
        if s['bounds']:
            xv.set_bounds(Variable('lon_bnds', G.corners_from_vertices(VX), ['y', 'x', 'crn']))
            yv.set_bounds(Variable('lat_bnds', G.corners_from_vertices(VY), ['y', 'x', 'crn']))
    else:
        xv, yv = Variable('x', X[0].copy(), 'x'), Variable('y', Y[:, 0].copy(), 'y')
        if s['bounds']:
            xv.set_bounds(Variable('x_bnds', G.ebounds(VX[0]), ['x', 'bnds']))
            yv.set_bounds(Variable('y_bnds', G.ebounds(VY[:, 0]), ['y', 'bnds']))
    dv = [f0[v['name']].extract() for v in s['vars']]
    tv = f0.time.extract()
    f = Field(grid=Grid(xv, yv, crs=A), crs=A, time=tv, variables=dv, is_data=dv)
    G.touch(f)
    gm = G.mask((ny, nx), s['vars'][0]['seed'], case['gmask'])
    if gm is not None and gm.all():
        gm = None
    if gm is not None:
        f.grid.set_mask(gm.copy(), cascade=False)
    CX, CY = (G.corners_from_vertices(VX), G.corners_from_vertices(VY)) if s['bounds'] else (None, None)
    x, y = X, Y
    al = case['alloc']
    sel = np.ones((ny, nx), bool) if gm is None else ~gm
    if case['target'] == 'geom':
        return run_geom(case, A)
    if case['target'] == 'request':
        dst = case['ops'][0]
        before = G.snap_coll(f)
        fld = ocgis.OcgOperations(dataset=f, output_crs=crs_of(dst)).execute().get_element()
        d = G.diff_coll(before, G.snap_coll(f))
        check(d is None, 'request changed its source: {}', d)
        tx, ty = convert(src, dst, x, y)
        gx, gy = fld.grid.x.get_value(), fld.grid.y.get_value()
        if gx.ndim == 1:
            gx, gy = np.meshgrid(gx, gy)
        close((gx, gy), (tx, ty), dst, 'request output_crs', cur=src)
        check(fld.crs == crs_of(dst), 'crs of the output')
        for v in s['vars']:
            arr_eq(fld[v['name']].get_masked_value(), G.varray(s, v), 'data of the output')
        return 'request {} {}'.format(src['kind'], dst['kind'])
    if al in ('point', 'both'):
        f.grid.get_point()
    if al in ('polygon', 'both') and s['bounds']:
        f.grid.get_polygon()
    geom = None
    if case['geom_on_field']:
        f.set_abstraction_geom()
        geom = True
    orig = f
    before = G.snap_coll(orig)
    f = f.copy()
    cur = src
    for i, dst in enumerate(case['ops']):
        B = crs_of(dst)
        tgt = f if case['target'] == 'field' else f.grid
        tgt.update_crs(B)
        same = crs_of(cur) == B
        nxt = convert(cur, dst, x, y)
        what = 'step {} {}->{}'.format(i, cur['kind'], dst['kind'])
        g = f.grid
        gx, gy = g.x.get_value(), g.y.get_value()
        check(gx.shape == (ny, nx), '{}: shape {}', what, gx.shape)
        close((gx, gy), nxt, dst, what + ' centres', cur=cur)
        if s['bounds']:
            nc = convert(cur, dst, CX, CY)
            check(g.has_bounds, '{}: corners were lost', what)
            close((g.x.bounds.get_value(), g.y.bounds.get_value()), nc, dst, what + ' corners', cur=cur)
            CX, CY = g.x.bounds.get_value().copy(), g.y.bounds.get_value().copy()
        # Errors do not accumulate in the judgement; every step is judged from the actual coordinates before it.
        x, y = gx.copy(), gy.copy()
        check(f.crs == B and g.crs == B, '{}: crs {}', what, f.crs)
        P = g.get_point().get_value()[sel]
        close((np.array([p.x for p in P]), np.array([p.y for p in P])), (x[sel], y[sel]), dst, what + ' points')
        if s['bounds']:
            Q = g.get_polygon().get_value()
            for idx in map(tuple, np.argwhere(sel)):
                ring = np.array(Q[idx].exterior.coords)[:-1]
                check(len(ring) == 4, '{}: polygon {}', what, Q[idx].wkt)
                w = np.column_stack([CX[idx], CY[idx]])
                for pt in w:
                    dd = np.abs(ring - pt)
                    if geographic(dst):
                        dd[:, 0] = np.abs((dd[:, 0] + 180) % 360 - 180)
                    check((dd.max(axis=1) <= (1e-5 if geographic(dst) else .1)).any(), '{}: polygon {} has no corner {}', what, Q[idx].wkt, pt)
        if geom and case['target'] == 'field':
            gv = f.geom
            check(gv.crs == B, '{}: crs of the geometry', what)
            ps = gv.get_value()[sel]
            if len(ps) and ps[0].geom_type == 'Point':
                close((np.array([p.x for p in ps]), np.array([p.y for p in ps])), (x[sel], y[sel]), dst, what + ' field geometry')
        for v in s['vars']:
            arr_eq(f[v['name']].get_masked_value(), G.varray(s, v), what + ' data')
            check(f[v['name']].dimension_names == tuple(G.DIMN[d] for d in v['dims']), '{}: dimensions', what)
        m = g.get_mask()
        m = np.zeros((ny, nx), bool) if m is None else m
        check(np.array_equal(m, np.zeros((ny, nx), bool) if gm is None else gm), '{}: grid mask {}', what, m)
        crsv = [k for k, v in f.items() if hasattr(v, 'sr')]
        check(crsv == [B.name], '{}: coordinate system variables {}', what, crsv)
        cur = dst
    d = G.diff_coll(before, G.snap_coll(orig))
    check(d is None, 'update_crs on a copy changed the original: {}', d)
    return '{} {} {}'.format(case['target'], src['kind'], len(case['ops']))



def shapes(case):
    """Geometries in lattice coordinates with distinct shapes."""
    from shapely.geometry import Point, Polygon, LineString, MultiPolygon, box
    s = case['field']
    C = G.cells(s)
    out = []
    for i, c in enumerate(C.flat):
        x0, y0, x1, y1 = c.bounds
        mx, my = (x0 + x1) / 2., (y0 + y1) / 2.
        k = case['gt']
        if k == 'point':
            g = Point(mx, my)
        elif k == 'poly':
            g = Polygon([(x0, y0), (x1, y0), (mx, y1)])
        elif k == 'line':
            g = LineString([(x0, y0), (mx, y1), (x1, y0 + .25)])
        elif k == 'multi':
            g = MultiPolygon([box(x0, y0, mx, my), box(mx + .1, my + .1, x1, y1)]) if x1 - mx > .1 and y1 - my > .1 else box(x0, y0, x1, y1)
        elif k == 'hole':
            d = min(x1 - x0, y1 - y0) / 4.
            g = Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], [[(mx - d, my - d), (mx + d, my - d), (mx, my + d)]])
        else:
            g = c
        out.append(g)
    return out


def geom_coords(g):
    from shapely.geometry import mapping

    def flat(o):
        if o and isinstance(o[0], (int, float)):
            return [tuple(o[:2])]
        r = []
        for p in o:
            r += flat(p)
        return r
    return np.array(flat(mapping(g)['coordinates']), float)


def run_geom(case, A):
    from ocgis import GeometryVariable, Variable, Field
    from shapely.ops import transform
    gs = [transform(lambda a, b: place(case, a, b), g) for g in shapes(case)]
    n = len(gs)
    m = G.mask((n,), case['field']['vars'][0]['seed'], case['gmask'])
    gv = GeometryVariable(name='geom', value=gs, dimensions='gid', crs=A, mask=m)
    data = Variable('d', np.arange(n) * 1., 'gid')
    f = Field(geom=gv, crs=A, variables=[data], is_data=['d'])
    src = case['src']
    kinds = [g.geom_type for g in gs]
    nco = [geom_coords(g) for g in gs]
    orig = f
    before = [g.wkb for g in orig.geom.get_value()]
    ob = G.snap_coll(orig)
    f = f.copy()
    cur = src
    for i, dst in enumerate(case['ops']):
        B = crs_of(dst)
        what = 'geometry step {} {}->{}'.format(i, cur['kind'], dst['kind'])
        (f.geom if case['geom_on_field'] else f).update_crs(B)
        val = f.geom.get_value()
        check(val.shape == (n,), '{}: shape', what)
        check([g.geom_type for g in val] == kinds, '{}: types', what)
        for j, g in enumerate(val):
            got = geom_coords(g)
            want = convert(cur, dst, nco[j][:, 0], nco[j][:, 1])
            close((got[:, 0], got[:, 1]), want, dst, '{} geometry {}'.format(what, j), cur=cur)
            nco[j] = got
        check(f.geom.crs == B and f.crs == B, '{}: crs', what)
        arr_eq(f['d'].get_masked_value(), np.arange(n) * 1., what + ' data')
        mm = f.geom.get_mask()
        check(np.array_equal(np.zeros(n, bool) if mm is None else mm, np.zeros(n, bool) if m is None else m), '{}: mask', what)
        cur = dst
    check([g.wkb for g in orig.geom.get_value()] == before, 'update_crs on a copy changed the geometries of the original')
    d = G.diff_coll(ob, G.snap_coll(orig))
    check(d is None, 'update_crs on a copy changed the original: {}', d)
    return 'geom {} {} {}'.format(case['gt'], src['kind'], len(case['ops']))


# ------------------------------------------------------------------ rotated poles
def vec(lon, lat):
    lo, la = np.asarray(lon) * D2R, np.asarray(lat) * D2R
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=-1)


def rot_to_geo(pole, rlon, rlat):
    e3 = vec(*pole)
    e1 = vec(pole[0] + 180., 90. - pole[1])
    e2 = np.cross(e3, e1)
    v = vec(rlon, rlat)
    g = v[..., 0:1] * e1 + v[..., 1:2] * e2 + v[..., 2:3] * e3
    return np.arctan2(g[..., 1], g[..., 0]) / D2R, np.arcsin(np.clip(g[..., 2], -1, 1)) / D2R


def gen_rot(draw):
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 4), nx=(1, 5), nvars=(1, 1), grid=('1d', '1d', '2d'), y={'lo': -15, 'hi': 10, 'maxstep': 3}, x={'lo': -20, 'hi': 10, 'maxstep': 4})
    s['shear'] = [0, 0]
    pole = [float(draw(I(-17, 17)) * 10 + draw(I(0, 3)) * .5), float(draw(I(20, 70)) + draw(I(0, 3)) * .25)]
    geoms = []
    ext = [e for e in G.extent(s)]
    for _ in range(draw(I(1, 3))):
        x0, y0 = draw(I(int(ext[0]) - 1, int(ext[2]))), draw(I(int(ext[1]) - 1, int(ext[3])))
        geoms.append([x0 + .37, y0 + .41, x0 + .37 + draw(I(1, 12)), y0 + .41 + draw(I(1, 10))])
    return {'field': s, 'pole': pole, 'geoms': geoms, 'mode': pick(draw, ['update', 'update', 'request', 'request', 'sso', 'file']),
            'out': pick(draw, [None, None, 'spherical']), 'form': pick(draw, ['ocgis', 'numpy'])}


def run_rot(case):
    import ocgis
    from ocgis.variable.crs import CFRotatedPole, CFSpherical
    from shapely.geometry import Polygon, Point
    s = case['field']
    s = dict(s, bounds=False) if case['mode'] != 'update' else s
    pole = case['pole']
    RP = CFRotatedPole(grid_north_pole_longitude=pole[0], grid_north_pole_latitude=pole[1])
    f = G.build_field(s, crs=RP)
    X, Y = G.centres(s)
    LON, LAT = rot_to_geo(pole, X, Y)
    wg = {'kind': 'wgs84'}
    v = s['vars'][0]
    data = G.varray(s, v)
    before = G.snap_coll(f)
    if case['mode'] == 'update':
        orig, f = f, f.copy()
        f.update_crs(CFSpherical())
        close((f.grid.x.get_value(), f.grid.y.get_value()), (LON, LAT), wg, 'rotated to geographic', 3)
        check(f.crs == CFSpherical(), 'crs')
        arr_eq(f[v['name']].get_masked_value(), data, 'data')
        f.update_crs(RP)
        close((f.grid.x.get_value(), f.grid.y.get_value()), (X, Y), wg, 'back to rotated', 20)
        check(f.crs == RP, 'crs back')
        arr_eq(f[v['name']].get_masked_value(), data, 'data')
        d = G.diff_coll(before, G.snap_coll(orig))
        check(d is None, 'update_crs on a copy changed the original: {}', d)
        return 'update'
    # Selections: quadrilaterals in geographic coordinates around rotated boxes.
    polys = []
    for x0, y0, x1, y1 in case['geoms']:
        gx, gy = rot_to_geo(pole, np.array([x0, x1, x1, x0]), np.array([y0, y0, y1, y1]))
        gx = (gx - LON.flat[0] + 180) % 360 - 180 + LON.flat[0]
        p = Polygon(list(zip(gx, gy)))
        if p.is_valid and p.area > 0:
            polys.append(p)
    LONc = (LON - LON.flat[0] + 180) % 360 - 180 + LON.flat[0]
    allc = [LONc.ravel()] + [np.array(p.exterior.coords)[:, 0] for p in polys]
    if not polys or min(a.min() for a in allc) < -179 or max(a.max() for a in allc) > 179 or np.abs(LAT).max() > 85:
        raise Skip('meridian')
    pts = [[Point(a, b) for a, b in zip(r, q)] for r, q in zip(LONc, LAT)]
    keep = []
    for p in polys:
        dist = min(p.exterior.distance(q) for r in pts for q in r)
        if dist < 1e-4:
            raise Skip('edge')
        keep.append(np.array([[p.contains(q) for q in r] for r in pts]))
    path = None
    src = f
    if case['mode'] == 'file':
        path = os.path.abspath('r.nc')
        f.write(path)
        rd = ocgis.RequestDataset(path, rotated_pole_priority=True)
        g = rd.get()
        check(g.crs == RP, 'rotated pole read back: {} expected {}', g.crs.value if g.crs is not None else None, pole)
        close((g.grid.x.get_value(), g.grid.y.get_value()) if g.grid.x.ndim == 2 else np.meshgrid(g.grid.x.get_value(), g.grid.y.get_value()), (X, Y), wg, 'read back')
        src = rd
    if case['mode'] == 'sso':
        from ocgis.spatial.spatial_subset import SpatialSubsetOperation
        for p, k in zip(polys, keep):
            sso = SpatialSubsetOperation(f, output_crs='input' if case['out'] is None else CFSpherical())
            if not k.any():
                continue
            r = sso.get_spatial_subset('intersects', p, geom_crs=CFSpherical())
            judge_rot(r, k, X, Y, LON, LAT, data, s, v, case['out'], 'sso', RP)
        d = G.diff_coll(before, G.snap_coll(f))
        check(d is None, 'a spatial subset changed its source: {}', d)
        return 'sso'
    kw = {}
    if case['out']:
        kw['output_crs'] = CFSpherical()
    gd = [{'geom': p, 'UGID': i + 1} for i, p in enumerate(polys)]
    res = ocgis.OcgOperations(dataset=src, geom=gd, allow_empty=True, **kw).execute()
    if case['mode'] == 'request':
        d = G.diff_coll(before, G.snap_coll(f))
        check(d is None, 'request changed its source: {}', d)
    for i, k in enumerate(keep):
        fld = res.get_element(container_ugid=i + 1)
        if not k.any():
            check(fld.is_empty, 'empty selection gives {}', fld.grid)
            continue
        judge_rot(fld, k, X, Y, LON, LAT, data, s, v, case['out'], 'selection {}'.format(i), RP)
    return '{} {}'.format(case['mode'], len(keep))


def judge_rot(fld, k, X, Y, LON, LAT, data, s, v, out, what, RP):
    check(not fld.is_empty, '{}: empty', what)
    rr, cc = np.where(k.any(axis=1))[0], np.where(k.any(axis=0))[0]
    sl = (slice(rr[0], rr[-1] + 1), slice(cc[0], cc[-1] + 1))
    gx, gy = fld.grid.x.get_value(), fld.grid.y.get_value()
    if gx.ndim == 1:
        gx, gy = np.meshgrid(gx, gy)
    wx, wy = (LON, LAT) if out else (X, Y)
    close((gx, gy), (wx[sl], wy[sl]), {'kind': 'wgs84'}, what + ' coordinates', 20)
    if out:
        from ocgis.variable.crs import CFSpherical
        check(fld.crs == CFSpherical(), '{}: crs', what)
    else:
        check(fld.crs == RP, '{}: crs {}', what, fld.crs)
    full = [slice(None)] * len(v['dims'])
    full[v['dims'].index('y')], full[v['dims'].index('x')] = sl
    want = data[tuple(full)].copy()
    kk = k[sl]
    shp = [1] * len(v['dims'])
    if v['dims'].index('y') > v['dims'].index('x'):
        kk = kk.T
    shp[v['dims'].index('y')], shp[v['dims'].index('x')] = want.shape[v['dims'].index('y')], want.shape[v['dims'].index('x')]
    want = np.ma.array(want.data, mask=np.ma.getmaskarray(want) | np.broadcast_to(~kk.reshape(shp), want.shape))
    arr_eq(fld[v['name']].get_masked_value(), want, what + ' data')


# ------------------------------------------------------------------ cartesian
def gen_cart(draw):
    ny, nx = draw(I(1, 4)), draw(I(1, 4))
    pt = pick(draw, ['grid', 'grid', 'geom', 'arr'])
    return {'lon': sorted({float(draw(I(-180, 180))) for _ in range(nx)}), 'lat': sorted({float(draw(I(-90, 90))) for _ in range(ny)}),
            'z': [float(draw(I(1, 8)) * .5) for _ in range(16)], 'rad': pt == 'arr' and chance(draw), 'trip': chance(draw, .3), 'bounds': chance(draw), 'ptype': pt}


def run_cart(case):
    from ocgis import Variable, Grid, GeometryVariable
    from ocgis.constants import OcgisUnits
    from ocgis.variable.crs import Spherical, Cartesian, Tripole
    from shapely.geometry import Polygon
    S = Spherical(angular_units=OcgisUnits.RADIANS if case['rad'] else OcgisUnits.DEGREES)
    if case['trip']:
        S = Tripole(spherical=S)
    u = D2R if case['rad'] else 1.
    lon, lat = np.array(case['lon']), np.array(case['lat'])
    LON, LAT = np.meshgrid(lon, lat)
    Z = np.array(case['z'])[:LON.size].reshape(LON.shape)
    V = vec(LON, LAT) * Z[..., None]
    C = Cartesian()

    def back(x, y, z):
        """Positions as points in space."""
        return vec(x / u, y / u) * z[..., None]
    if case['ptype'] == 'arr':
        a = LON * u, LAT * u, Z.copy()
        keep = [k.copy() for k in a]
        out = S.transform_coordinates(C, *a)
        for k in range(3):
            arr_eq(out[k], V[..., k], 'cartesian {}'.format('xyz'[k]), atol=1e-9)
        check(all(np.array_equal(p, q) for p, q in zip(a, keep)), 'the input arrays changed')
        o2 = [k.copy() for k in out]
        x, y, z = S.transform_coordinates(C, *o2, inverse=True)
        arr_eq(back(x, y, z), V, 'back from cartesian', atol=1e-9)
        m = np.abs(LAT) < 90
        arr_eq(np.abs((x / u - LON + 180) % 360 - 180)[m], np.zeros(m.sum()), 'longitudes', atol=1e-9)
        arr_eq(y / u, LAT, 'latitudes', atol=1e-5)
        arr_eq(z, Z, 'radius', atol=1e-9)
        return 'arr'
    if case['ptype'] == 'geom':
        x0, x1 = (lon[0], lon[-1]) if len(lon) > 1 else (lon[0] - (10 if lon[0] > 0 else 0), lon[0] + (10 if lon[0] <= 0 else 0))
        y0, y1 = (lat[0], lat[-1]) if len(lat) > 1 else (lat[0] - (10 if lat[0] > 0 else 0), lat[0] + (10 if lat[0] <= 0 else 0))
        ring = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        gv = GeometryVariable(name='g', value=[Polygon([(a * u, b * u) for a, b in ring])], dimensions='g', crs=S)
        gv2 = gv.copy()
        w0 = gv.get_value()[0].wkb
        gv2.update_crs(C)
        co = np.array(gv2.get_value()[0].exterior.coords)
        arr_eq(co[:4], vec(*np.array(ring).T), 'cartesian polygon', atol=1e-9)
        check(gv.get_value()[0].wkb == w0, 'the original geometry changed')
        gv2.update_crs(S)
        co = np.array(gv2.get_value()[0].exterior.coords)
        arr_eq(vec(co[:4, 0] / u, co[:4, 1] / u) * co[:4, 2:3], vec(*np.array(ring).T), 'polygon back', atol=1e-9)
        return 'geom'
    z = Variable('z', Z.copy(), ['y', 'x'])
    kw = {}
    x, y = Variable('x', LON * u, ['y', 'x']), Variable('y', LAT * u, ['y', 'x'])
    BV = None
    if case['bounds']:
        # Corner arrays on a common shape.
        d = np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])
        BX = np.clip(LON[..., None] + d[0], -180, 180)
        BY = np.clip(LAT[..., None] + d[1], -90, 90)
        BZ = np.broadcast_to(Z[..., None], BX.shape) + .25
        for var, b, nm in ((x, BX * u, 'xb'), (y, BY * u, 'yb'), (z, BZ, 'zb')):
            var.set_bounds(Variable(nm, np.array(b), ['y', 'x', 'crn']))
        BV = vec(BX, BY) * BZ[..., None]
    g = Grid(x, y, z=z, crs=S)
    x0 = x.get_value().copy()
    h = g.copy()
    h.update_crs(C)
    for k, n in enumerate('xyz'):
        arr_eq(getattr(h, n).get_value(), V[..., k], 'cartesian ' + n, atol=1e-9)
        if BV is not None:
            arr_eq(getattr(h, n).bounds.get_value(), BV[..., k], 'cartesian corners ' + n, atol=1e-9)
    check(isinstance(h.crs, Cartesian), 'crs')
    check(np.array_equal(g.x.get_value(), x0), 'the original grid changed')
    h.update_crs(S)
    W = vec(h.x.get_value() / u, h.y.get_value() / u) * h.z.get_value()[..., None]
    arr_eq(W, V, 'back', atol=1e-9)
    if BV is not None:
        W = vec(h.x.bounds.get_value() / u, h.y.bounds.get_value() / u) * h.z.bounds.get_value()[..., None]
        arr_eq(W, BV, 'corners back', atol=1e-9)
    return 'grid'


# ------------------------------------------------------------------ identity
def gen_ident(draw):
    hemi = pick(draw, [1, -1])
    cs = [draw_crs(draw, hemi=hemi) for _ in range(2)]
    if chance(draw, .5):
        cs[1] = dict(cs[0])
        num = [k for k in ('lon0', 'lat0', 'x0', 'y0', 'ts', 'a', 'k', 'sp', 'units') if k in cs[1] and not cs[1].get('zone')]
        if num and chance(draw, .7):
            k = pick(draw, num)
            if k == 'sp':
                cs[1]['sp'] = [v + 1. for v in cs[1]['sp']]
                if len(cs[1]['sp']) == 1:
                    cs[1]['lat0'] = cs[1]['sp'][0]
            elif k == 'units':
                cs[1]['units'] = 'km' if cs[1]['units'] == 'm' else 'm'
            elif k == 'lat0' and cs[1]['kind'] == 'stere':
                cs[1].update(lat0=-cs[1]['lat0'], ts=-cs[1]['ts'])
            elif k == 'k':
                cs[1]['k'] = .9999
            elif k == 'a':
                cs[1]['a'] += 3.
            elif k == 'lat0' and len(cs[1].get('sp', [0, 0])) == 1:
                pass
            else:
                cs[1][k] += {'ts': -1. * hemi}.get(k, 1.)
    s = G.draw_field(draw, nt=(1, 1), ny=(1, 2), nx=(1, 2), nvars=(1, 1), masks=False)
    return {'crs': cs, 'field': s, 'hemi': hemi, 'pole': [float(draw(I(-179, 180))), float(draw(I(-89, 89)))] if chance(draw, .2) else None, 'drv': chance(draw, .3)}


def norm(c):
    c = dict(c)
    for k in ('form', 'arr', 'zone'):
        c.pop(k, None)
    if 'sp' in c and len(c['sp']) == 1:
        c['sp'] = c['sp'] * 2
    if 'sp' in c:
        # The order of standard parallels does not matter for the cone.
        c['sp'] = sorted(c['sp'])
    if c['kind'] == 'lcc':
        c.setdefault('units', 'm')
    return c


def run_ident(case):
    import ocgis
    from copy import deepcopy
    from ocgis.variable import crs as C
    ca, cb = case['crs']
    a, b = crs_of(ca), crs_of(cb)
    if case['pole']:
        a = C.CFRotatedPole(grid_north_pole_longitude=case['pole'][0], grid_north_pole_latitude=case['pole'][1])
        b2 = C.CFRotatedPole(grid_north_pole_longitude=case['pole'][0], grid_north_pole_latitude=case['pole'][1] / 2. + .5)
        check(a == deepcopy(a) and not a != deepcopy(a), 'rotated pole equals itself')
        check((a == b2) == (case['pole'][1] == 1.), 'rotated poles at different latitudes are equal')
        check(a != b and b != a, 'rotated pole equals {}', b.value)
    else:
        want = norm(ca) == norm(cb)
        parallel_order = 'sp' in ca and 'sp' in cb and ca['sp'] != cb['sp'] and sorted(ca['sp']) == sorted(cb['sp'])
        if not parallel_order:
            check((a == b) == want, '{} == {} is {}', a.value, b.value, a == b)
            check((b == a) == want, '{} == {} is {}', b.value, a.value, b == a)
            check((a != b) == (not want), '{} != {}', a.value, b.value)
        check(a == crs_of(ca), '{} differs from itself', a.value)
        check(a == C.CRS(proj4=a.proj4) and C.CRS(proj4=a.proj4) == a, 'through PROJ.4: {} became {}', a.value, C.CRS(proj4=a.proj4).value)
        val = dict(a.value)
        keep = dict(val)
        n = C.CRS(value=val)
        check(val == keep, 'the value dictionary given changed: {} was {}', val, keep)
        check(a == n and n == a, 'through the value dictionary: {} became {}', a.value, n.value)
        cc = C.create_crs(dict(a.value))
        check(cc == a, 'create_crs: {} became {}', a.value, cc.value)
        check(deepcopy(a) == a, 'a copy differs')
    for o in (None, 5, C.Cartesian(), 'x'):
        check(not (a == o) and a != o, '{} equals {!r}', a.value, o)
    # Through a file.
    s = case['field']
    f = G.build_field(s, crs=a)
    if 'units' in ca and not case['pole']:
        f.grid.x.attrs['units'] = ca['units']
    if not case['pole'] and not geographic(ca):
        # The CF convention names projection coordinates.
        f.grid.x.attrs['standard_name'] = 'projection_x_coordinate'
        f.grid.y.attrs['standard_name'] = 'projection_y_coordinate'
    p = os.path.abspath('c.nc')
    f.write(p)
    g = ocgis.RequestDataset(p, rotated_pole_priority=True).get()
    check(g.crs is not None and g.crs == a and a == g.crs, 'stored {} {} but read {}', type(a).__name__, a.value, None if g.crs is None else g.crs.value)
    g.write(os.path.abspath('c2.nc'))
    h = ocgis.RequestDataset(os.path.abspath('c2.nc'), rotated_pole_priority=True).get()
    check(h.crs == a, 'second round: stored {} but read {}', a.value, None if h.crs is None else h.crs.value)
    return ca['kind'] if not case['pole'] else 'pole'


TARGETS = [
    Target('transform', gen_transform, run_transform, 500, 9000, 'coordinates of grids, corners and geometries move'),
    Target('rotated', gen_rot, run_rot, 120, 1500, 'fields on rotated grids, transformed, selected and written'),
    Target('cart', gen_cart, run_cart, 120, 2500, 'spherical and cartesian positions'),
    Target('ident', gen_ident, run_ident, 160, 3000, 'definitions compared and stored'),
]
