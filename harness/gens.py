"""Shared generators (draw -> JSON specs) and builders (JSON spec -> numpy / ocgis / netCDF)."""
import numpy as np
from hypothesis import strategies as st
from collections import OrderedDict

I = st.integers


def pick(draw, seq):
    return draw(st.sampled_from(list(seq)))


def chance(draw, p=0.5):
    return draw(I(0, 99)) >= 100 - p * 100


# ---------------------------------------------------------------- arrays
def values(shape, seed, dtype='f8', lo=0):
    """Distinct values in a seed-dependent order (a permutation), exactly representable in every dtype used."""
    n = int(np.prod(shape)) if len(shape) else 1
    perm = np.random.RandomState(seed).permutation(n)
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        v = perm * 0.5 + lo - n // 4
    elif dt.itemsize == 1 or dt.kind == 'u':
        v = perm % 100
    else:
        v = perm + lo - n // 3
    return v.astype(dt).reshape(shape)


def mask(shape, seed, density):
    """None (density None) or a boolean array; density in percent."""
    if density is None:
        return None
    return np.random.RandomState(seed + 7).randint(0, 100, size=shape) < density


def draw_density(draw):
    return pick(draw, [None, None, 0, 20, 50, 90])


# ---------------------------------------------------------------- indices
def draw_index(draw, n, kinds=('int', 'slice', 'list', 'arr', 'bool', 'none')):
    k = pick(draw, kinds)
    if k == 'int':
        return ['int', draw(I(-n, n - 1))]
    if k == 'npint':
        return ['npint', draw(I(-n, n - 1))]
    if k == 'none':
        return ['none']
    if k == 'slice':
        lo = draw(I(0, n - 1))
        hi = draw(I(lo + 1, n))
        step = pick(draw, [1, 1, 1, 2, 3, -1, -2])
        if step > 0:
            a = pick(draw, [lo, lo - n] + ([None] if lo == 0 else []))
            b = pick(draw, [hi] + ([hi - n] if hi < n else [None, n + 3]))
            return ['slice', a, b, None if (step == 1 and chance(draw, .7)) else step]
        a = pick(draw, [hi - 1, hi - 1 - n] + ([None] if hi == n else []))
        b = None if lo == 0 else lo - 1
        return ['slice', a, b, step]
    if k in ('list', 'arr', 'tuple'):
        m = draw(I(1, n + 1))
        mode = pick(draw, ['asc', 'any', 'neg'])
        if mode == 'asc':
            v = sorted(draw(st.sets(I(0, n - 1), min_size=1, max_size=n)))
        elif mode == 'neg':
            v = draw(st.lists(I(-n, n - 1), min_size=1, max_size=m))
        else:
            v = draw(st.lists(I(0, n - 1), min_size=1, max_size=m))
        return [k, v]
    if k == 'bool':
        v = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(v):
            v[draw(I(0, n - 1))] = True
        return ['bool', v]
    raise NotImplementedError(k)


def index_obj(j):
    k = j[0]
    if k == 'int':
        return j[1]
    if k == 'npint':
        return np.int64(j[1])
    if k == 'none':
        return None
    if k == 'slice':
        return slice(*j[1:])
    if k == 'list':
        return list(j[1])
    if k == 'tuple':
        return tuple(j[1])
    if k == 'arr':
        return np.array(j[1])
    if k == 'bool':
        return np.array(j[1], dtype=bool)
    raise NotImplementedError(k)


def index_positions(j, n):
    """The source positions selected by an index, by definition of Python/NumPy indexing."""
    k = j[0]
    ar = list(range(n))
    if k in ('int', 'npint'):
        return [ar[j[1]]]
    if k == 'none':
        return ar
    if k == 'slice':
        return ar[slice(*j[1:])]
    if k in ('list', 'tuple', 'arr'):
        return [ar[i] for i in j[1]]
    if k == 'bool':
        return [i for i in ar if j[1][i]]
    raise NotImplementedError(k)


def take(arr, positions):
    """Orthogonal indexing: positions is a list (or None) per axis."""
    for ax, p in enumerate(positions):
        if p is not None:
            arr = np.take(arr, p, axis=ax) if not isinstance(arr, np.ma.MaskedArray) else arr[(slice(None),) * ax + (np.array(p, dtype=int),)]
    return arr


# ---------------------------------------------------------------- coordinates
def draw_edges(draw, n, lo=-40, hi=40, regular=None, desc=None, maxstep=8, unit=0.5):
    """n+1 strictly monotonic edges, multiples of ``unit`` (in units: lo..hi start range)."""
    start = draw(I(int(lo / unit), int(hi / unit)))
    if regular is None:
        regular = chance(draw, .5)
    if regular:
        s = draw(I(1, maxstep)) * 2
        steps = [s] * n
    else:
        steps = [2 * draw(I(1, maxstep)) for _ in range(n)]
    e = [start]
    for s in steps:
        e.append(e[-1] + s)
    e = [x * unit for x in e]
    if desc is None:
        desc = chance(draw, .3)
    return e[::-1] if desc else e


def mids(e):
    e = np.asarray(e, dtype=float)
    return (e[:-1] + e[1:]) / 2.


def ebounds(e):
    e = np.asarray(e, dtype=float)
    return np.column_stack([e[:-1], e[1:]])


def corners_from_vertices(V):
    """(ny+1, nx+1) vertices -> (ny, nx, 4) corners in counter-clockwise (index space) order used by ocgis."""
    V = np.asarray(V, dtype=float)
    return np.stack([V[:-1, :-1], V[:-1, 1:], V[1:, 1:], V[1:, :-1]], axis=-1)


# ---------------------------------------------------------------- field spec
def draw_time(draw, n, bounds=None, calendars=('standard',), units=('days since 2000-01-01',), span=None):
    """Ascending time axis: values in days (multiples of 0.25) with optional contiguous bounds."""
    cal = pick(draw, calendars)
    un = pick(draw, units)
    start = draw(I(0, 1500))
    if span is None:
        span = pick(draw, [1, 1, 10, 31, 100])
    steps = [draw(I(1, span)) * 2 for _ in range(n)]
    e = np.cumsum([start * 2] + steps) / 2.
    if un.startswith('seconds'):
        e = e * 3600.  # dates resolve whole seconds
    if bounds is None:
        bounds = chance(draw, .5)
    return {'units': un, 'calendar': cal, 'edges': e.tolist(), 'bounds': bool(bounds)}


def time_vals(t):
    return mids(t['edges'])


def draw_field(draw, nt=(1, 5), nl=None, nr=None, ny=(1, 4), nx=(1, 4), nvars=(1, 2), grid=('1d', '2d'), bounds=None,
               dtypes=('f8', 'f4', 'i4'), order=None, masks=True, time=True, names=None, crs=None, **kw):
    """
    A field specification. nl/nr: None (no axis) or range or 'maybe'.
    order: None for canonical (r,t,l,y,x), 'any' for a drawn permutation.
    """
    def size(rng):
        if rng is None:
            return None
        if rng == 'maybe':
            return draw(I(1, 3)) if chance(draw, .4) else None
        return draw(I(*rng))

    s = OrderedDict()
    s['nt'] = size(nt) if time else None
    s['nl'] = size(nl)
    s['nr'] = size(nr)
    s['ny'], s['nx'] = size(ny), size(nx)
    s['grid'] = pick(draw, grid)
    s['bounds'] = chance(draw, .6) if bounds is None else bounds
    s['xe'] = draw_edges(draw, s['nx'], **kw.get('x', {}))
    s['ye'] = draw_edges(draw, s['ny'], **dict({'lo': -40, 'hi': 10, 'maxstep': 5}, **kw.get('y', {})))
    s['shear'] = [draw(I(-2, 2)) * 0.25, draw(I(-2, 2)) * 0.25] if s['grid'] == '2d' and kw.get('shear', True) and chance(draw) else [0, 0]
    if s['nt'] is not None:
        s['time'] = draw_time(draw, s['nt'], **kw.get('t', {}))
    if s['nl'] is not None:
        s['le'] = draw_edges(draw, s['nl'], lo=0, hi=20, desc=False)
    s['lb'] = chance(draw)
    base = [d for d, n in (('r', s['nr']), ('t', s['nt']), ('l', s['nl']), ('y', s['ny']), ('x', s['nx'])) if n is not None]
    s['vars'] = []
    nv = draw(I(*nvars))
    names = names or ['foo', 'bar', 'tas_2', 'ab']
    for i in range(nv):
        dims = list(base)
        if order == 'any':
            dims = draw(st.permutations(dims))
        s['vars'].append({'name': names[i], 'dims': list(dims), 'dtype': pick(draw, dtypes), 'seed': draw(I(0, 999)),
                          'mask': draw_density(draw) if masks else None})
    s['crs'] = crs
    return s


DIMN = {'r': 'realization', 't': 'time', 'l': 'level', 'y': 'y', 'x': 'x'}
SIZEK = {'r': 'nr', 't': 'nt', 'l': 'nl', 'y': 'ny', 'x': 'nx'}


def vshape(s, v):
    return tuple(s[SIZEK[d]] for d in v['dims'])


def varray(s, v):
    """numpy masked array of a field variable in its own dimension order."""
    shp = vshape(s, v)
    val = values(shp, v['seed'], v['dtype'], lo=v.get('lo', 0))
    m = mask(shp, v['seed'], v['mask'])
    return np.ma.array(val, mask=np.zeros(shp, bool) if m is None else m)


def vertices(s):
    """(ny+1, nx+1) vertex arrays X, Y."""
    X, Y = np.meshgrid(np.asarray(s['xe'], float), np.asarray(s['ye'], float))
    a, b = s['shear']
    ii, jj = np.meshgrid(np.arange(X.shape[0]), np.arange(X.shape[1]), indexing='ij')
    return X + a * ii, Y + b * jj


def centres(s):
    """(ny, nx) centre arrays X, Y."""
    VX, VY = vertices(s)
    return (tuple((V[:-1, :-1] + V[1:, :-1] + V[:-1, 1:] + V[1:, 1:]) / 4. for V in (VX, VY)))


def build_field(s, name=None, **kw):
    import ocgis
    from ocgis import Variable, Field, Grid, TemporalVariable, Dimension
    if s['grid'] == '1d':
        x = Variable('x', mids(s['xe']), 'x')
        y = Variable('y', mids(s['ye']), 'y')
        if s['bounds']:
            x.set_bounds(Variable('x_bnds', ebounds(s['xe']), ['x', 'bnds']))
            y.set_bounds(Variable('y_bnds', ebounds(s['ye']), ['y', 'bnds']))
    else:
        X, Y = centres(s)
        x = Variable('lon', X, ['y', 'x'])
        y = Variable('lat', Y, ['y', 'x'])
        if s['bounds']:
            VX, VY = vertices(s)
            x.set_bounds(Variable('lon_bnds', corners_from_vertices(VX), ['y', 'x', 'crn']))
            y.set_bounds(Variable('lat_bnds', corners_from_vertices(VY), ['y', 'x', 'crn']))
    crs = kw.pop('crs', None) or crs_obj(s.get('crs'))
    grid = Grid(x, y, crs=crs)
    kwargs = {}
    if s['nt'] is not None:
        t = s['time']
        b = None
        if t['bounds']:
            b = TemporalVariable(name='time_bnds', value=ebounds(t['edges']), dimensions=['time', 'bnds'], units=t['units'], calendar=t['calendar'])
        kwargs['time'] = TemporalVariable(name='time', value=time_vals(t), dimensions='time', units=t['units'], calendar=t['calendar'], bounds=b)
    if s['nl'] is not None:
        b = Variable('level_bnds', ebounds(s['le']), ['level', 'bnds']) if s['lb'] else None
        kwargs['level'] = Variable('level', mids(s['le']), 'level', bounds=b)
    if s['nr'] is not None:
        kwargs['realization'] = Variable('realization', np.arange(1, s['nr'] + 1), 'realization')
    variables = []
    for v in s['vars']:
        shp = vshape(s, v)
        val = values(shp, v['seed'], v['dtype'], lo=v.get('lo', 0))
        m = mask(shp, v['seed'], v['mask'])
        attrs = {'units': v['units']} if v.get('units') else {}
        attrs.update(v.get('attrs') or {})
        variables.append(Variable(v['name'], val, [DIMN[d] for d in v['dims']], mask=m, attrs=attrs))
    kwargs.update(kw)
    if name is not None:
        kwargs['name'] = name
    f = Field(grid=grid, is_data=variables, variables=variables, crs=crs, **kwargs)
    touch(f)
    return f


def touch(field):
    """Axis attributes are filled in when an axis is first asked for; ask for all of them."""
    for n in ('time', 'level', 'realization', 'grid', 'x', 'y', 'geom'):
        getattr(field, n)
    for v in list(field.values()):
        getattr(v, 'bounds', None)
    return field


def crs_obj(c):
    from ocgis.variable import crs as C
    if c is None:
        return None
    if c == 'spherical':
        return C.Spherical()
    if c == 'wgs84':
        return C.WGS84()
    if c == 'cfspherical':
        return C.CFSpherical()
    return C.CoordinateReferenceSystem(proj4=c)


FILL = {'f8': 1e20, 'f4': np.float32(1e20), 'i4': -9999, 'i2': -999, 'i8': -99999, 'u1': 255, 'i1': -127}


def write_nc(s, path, unlimited=True, fmt='NETCDF4', var_order=None, gattrs=None, lon='x', lat='y', extra=None):
    """Write a field specification using netCDF4 directly (not through ocgis)."""
    import netCDF4 as nc
    ds = nc.Dataset(path, 'w', format=fmt)
    try:
        for k, v in (gattrs or {}).items():
            ds.setncattr(k, v)
        for d in 'tlryx':
            n = s[SIZEK[d]]
            if n is not None:
                ds.createDimension(DIMN[d], None if (d == 't' and unlimited) else n)
        ds.createDimension('bnds', 2)
        tasks = []

        def coord(name, dims, val, attrs, dtype='f8'):
            def f():
                v = ds.createVariable(name, dtype, dims)
                for k, a in attrs.items():
                    v.setncattr(k, a)
                v[:] = val
            tasks.append((name, f))

        if s['nt'] is not None:
            t = s['time']
            a = {'units': t['units'], 'calendar': t['calendar'], 'axis': 'T', 'standard_name': 'time'}
            if t['bounds']:
                a['bounds'] = 'time_bnds'
                coord('time_bnds', ('time', 'bnds'), ebounds(t['edges']), {})
            coord('time', ('time',), time_vals(t), a)
        if s['nl'] is not None:
            a = {'axis': 'Z', 'units': 'meters'}
            if s['lb']:
                a['bounds'] = 'level_bnds'
                coord('level_bnds', ('level', 'bnds'), ebounds(s['le']), {})
            coord('level', ('level',), mids(s['le']), a)
        if s['nr'] is not None:
            coord('realization', ('realization',), np.arange(1, s['nr'] + 1), {'axis': 'R'}, 'i4')
        xa = {'axis': 'X', 'units': 'degrees_east', 'standard_name': 'longitude'}
        ya = {'axis': 'Y', 'units': 'degrees_north', 'standard_name': 'latitude'}
        if s['grid'] == '1d':
            if s['bounds']:
                xa['bounds'], ya['bounds'] = 'x_bnds', 'y_bnds'
                coord('x_bnds', ('x', 'bnds'), ebounds(s['xe']), {})
                coord('y_bnds', ('y', 'bnds'), ebounds(s['ye']), {})
            coord('x', ('x',), mids(s['xe']), xa)
            coord('y', ('y',), mids(s['ye']), ya)
        else:
            X, Y = centres(s)
            if s['bounds']:
                ds.createDimension('crn', 4)
                xa['bounds'], ya['bounds'] = 'lon_bnds', 'lat_bnds'
                VX, VY = vertices(s)
                coord('lon_bnds', ('y', 'x', 'crn'), corners_from_vertices(VX), {})
                coord('lat_bnds', ('y', 'x', 'crn'), corners_from_vertices(VY), {})
            coord('lon', ('y', 'x'), X, xa)
            coord('lat', ('y', 'x'), Y, ya)
        for v in s['vars']:
            def f(v=v):
                nv = ds.createVariable(v['name'], v['dtype'], [DIMN[d] for d in v['dims']],
                                       fill_value=FILL[v['dtype']])
                if v.get('units'):
                    nv.units = v['units']
                for k, a in (v.get('attrs') or {}).items():
                    nv.setncattr(k, a)
                if s['grid'] == '2d':
                    nv.coordinates = 'lon lat'
                nv[:] = varray(s, v)
            tasks.append((v['name'], f))
        if var_order:
            rank = {n: i for i, n in enumerate(var_order)}
            tasks.sort(key=lambda t: rank.get(t[0], 99))
        for _, f in tasks:
            f()
        if extra:
            extra(ds)
    finally:
        ds.close()
    return path


# ---------------------------------------------------------------- snapshots
def snap_var(v):
    """Everything observable about a variable, as plain Python/numpy copies."""
    val = v.get_value()
    m = v.get_mask()
    return {
        'name': v.name, 'dims': tuple(v.dimension_names), 'lens': tuple(len(d) for d in v.dimensions),
        'unl': tuple(d.is_unlimited for d in v.dimensions),
        'value': None if val is None else np.array(val, copy=True),
        'mask': None if m is None else np.array(m, copy=True),
        'attrs': OrderedDict((k, v.attrs[k]) for k in v.attrs),
        'bounds': v._bounds_name, 'units': v.units if hasattr(v, 'units') else None,
    }


def _arr_same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return all(_obj_same(x, y) for x, y in zip(a.flat, b.flat))
    if a.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def _obj_same(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return np.array_equal(x, y)
    if hasattr(x, 'wkb'):
        return hasattr(y, 'wkb') and x.wkb == y.wkb
    return x == y


def diff_snap(a, b):
    """None if equal, else a description (first difference)."""
    for k in a:
        if k in ('value', 'mask'):
            x, y = a[k], b[k]
            if k == 'mask':
                x = None if x is None or not x.any() else x
                y = None if y is None or not y.any() else y
            if not _arr_same(x, y):
                return '{} of {!r}: was {} is {}'.format(k, a['name'], None if a[k] is None else (a[k].dtype, a[k].tolist()),
                                                        None if b[k] is None else (b[k].dtype, b[k].tolist()))
        elif k == 'attrs':
            if set(a[k]) != set(b[k]) or any(not np.array_equal(a[k][n], b[k][n]) for n in a[k]):
                return 'attrs of {!r}: was {} is {}'.format(a['name'], dict(a[k]), dict(b[k]))
        elif a[k] != b[k]:
            return '{} of {!r}: was {} is {}'.format(k, a['name'], a[k], b[k])
    return None


def snap_coll(c):
    from ocgis.util.helpers import is_crs_variable
    out = OrderedDict()
    for k, v in c.items():
        out[k] = ('crs', repr(sorted(v.value.items(), key=str))) if is_crs_variable(v) else snap_var(v)
    dims = OrderedDict((k, (d.name, len(d), d.is_unlimited)) for k, d in c.dimensions.items())
    kids = OrderedDict((k, snap_coll(x)) for k, x in c.children.items())
    extra = {'attrs': dict(c.attrs), 'tags': {k: list(v) for k, v in c._tags.items()}}
    if hasattr(c, 'dimension_map'):
        # Looking an axis up leaves empty entries behind; only entries that say something are observable.
        dm = c.dimension_map.as_dict()
        extra['dmap'] = sorted((k, str(e.get('variable')), str(e.get('bounds'))) for k, e in dm.items()
                               if isinstance(e, dict) and e.get('variable') is not None)
    return {'vars': out, 'dims': dims, 'kids': kids, 'extra': extra}


def diff_coll(a, b, order=True):
    if list(a['vars']) != list(b['vars']) and (order or sorted(a['vars']) != sorted(b['vars'])):
        return 'variables: was {} is {}'.format(list(a['vars']), list(b['vars']))
    for k in a['vars']:
        x, y = a['vars'][k], b['vars'][k]
        if isinstance(x, tuple) or isinstance(y, tuple):
            if x != y:
                return 'crs {}: was {} is {}'.format(k, x, y)
            continue
        d = diff_snap(x, y)
        if d:
            return d
    if dict(a['dims']) != dict(b['dims']):
        return 'dimensions: was {} is {}'.format(dict(a['dims']), dict(b['dims']))
    if str(a['extra']) != str(b['extra']):
        return 'collection: was {} is {}'.format(a['extra'], b['extra'])
    if list(a['kids']) != list(b['kids']):
        return 'children: was {} is {}'.format(list(a['kids']), list(b['kids']))
    for k in a['kids']:
        d = diff_coll(a['kids'][k], b['kids'][k], order)
        if d:
            return 'child {}: {}'.format(k, d)
    return None


# ---------------------------------------------------------------- selection geometries (WKT, lattice coordinates)
def draw_pt(draw, ext, unit=0.5):
    if len(ext) == 2:  # pools of x and y coordinates
        return pick(draw, ext[0]), pick(draw, ext[1])
    x0, y0, x1, y1 = ext
    return (draw(I(int(np.floor(x0 / unit)), int(np.ceil(x1 / unit)))) * unit, draw(I(int(np.floor(y0 / unit)), int(np.ceil(y1 / unit)))) * unit)


def draw_poly(draw, ext, unit=0.5):
    """A valid polygon: box, star-shaped (often concave) or triangle."""
    from shapely.geometry import Polygon, MultiPoint, box
    k = pick(draw, ['box', 'box', 'star', 'tri'])
    if k == 'box':
        a, b = draw_pt(draw, ext, unit), draw_pt(draw, ext, unit)
        x0, x1 = sorted([a[0], b[0]])
        y0, y1 = sorted([a[1], b[1]])
        return box(x0, y0, x1 if x1 > x0 else x1 + unit, y1 if y1 > y0 else y1 + unit)
    n = 3 if k == 'tri' else draw(I(4, 7))
    pts = sorted({draw_pt(draw, ext, unit) for _ in range(n)})
    if len(pts) >= 3:
        cx, cy = np.mean(pts, axis=0)
        pts.sort(key=lambda p: np.arctan2(p[1] - cy, p[0] - cx))
        p = Polygon(pts)
        if p.is_valid and p.area > 0:
            return p
        h = MultiPoint(pts).convex_hull
        if h.geom_type == 'Polygon' and h.area > 0:
            return h
    x, y = pts[0]
    return box(x, y, x + 2 * unit, y + unit)


def draw_geom(draw, ext, kinds=('poly', 'poly', 'multi', 'hole', 'point', 'mpoint', 'line'), unit=0.5):
    """WKT of a valid selection geometry around the extent ``ext`` (minx, miny, maxx, maxy)."""
    from shapely.geometry import MultiPolygon, MultiPoint, Point, LineString, Polygon
    k = pick(draw, kinds)
    if k == 'poly':
        g = draw_poly(draw, ext, unit)
    elif k == 'multi':
        a = draw_poly(draw, ext, unit)
        b = draw_poly(draw, ext, unit)
        g = MultiPolygon([a, b])
        if not g.is_valid:
            d = b.difference(a.buffer(unit / 2.))
            parts = [a] + [p for p in getattr(d, 'geoms', [d]) if p.geom_type == 'Polygon' and p.area > 0][:1]
            g = MultiPolygon(parts)
    elif k == 'hole':
        a = draw_poly(draw, ext, unit)
        x, y = a.representative_point().coords[0]
        d = a.exterior.distance(Point(x, y)) / 2.
        g = Polygon(a.exterior.coords, [[(x - d, y - d), (x + d, y - d), (x + d, y + d), (x - d, y + d)]]) if d > 0 else a
        if not g.is_valid:
            g = a
    elif k == 'point':
        g = Point(*draw_pt(draw, ext, unit / 2))
    elif k == 'mpoint':
        g = MultiPoint(sorted({draw_pt(draw, ext, unit / 2) for _ in range(draw(I(1, 4)))}))
    elif k == 'line':
        pts = []
        for _ in range(draw(I(2, 4))):
            p = draw_pt(draw, ext, unit)
            if not pts or p != pts[-1]:
                pts.append(p)
        if len(pts) < 2:
            pts.append((pts[0][0] + unit, pts[0][1]))
        g = LineString(pts)
    else:
        raise NotImplementedError(k)
    return g.wkt


def cells(s):
    """(ny, nx) object array of cell polygons (bounds) built from the spec."""
    from shapely.geometry import Polygon
    VX, VY = vertices(s)
    ny, nx = s['ny'], s['nx']
    out = np.empty((ny, nx), dtype=object)
    for i in range(ny):
        for j in range(nx):
            out[i, j] = Polygon([(VX[i, j], VY[i, j]), (VX[i, j + 1], VY[i, j + 1]), (VX[i + 1, j + 1], VY[i + 1, j + 1]), (VX[i + 1, j], VY[i + 1, j])])
    return out


def points(s):
    from shapely.geometry import Point
    X, Y = centres(s)
    out = np.empty(X.shape, dtype=object)
    for i in np.ndindex(X.shape):
        out[i] = Point(X[i], Y[i])
    return out


def coord_pools(draw, s, unit=0.5):
    """Pools of selection coordinates: cell edges and centres, points between them, a little outside."""
    VX, VY = vertices(s)
    X, Y = centres(s)
    out = []
    for V, C in ((VX, X), (VY, Y)):
        lo, hi = V.min(), V.max()
        p = set(np.round(V.ravel(), 6)) | set(np.round(C.ravel(), 6)) | {float(lo - unit), float(hi + unit)}
        p |= {float(np.floor(lo) + unit * draw(I(0, int((hi - lo) / unit) + 2))) for _ in range(3)}
        if chance(draw, .3):
            # Slivers: just beside an edge.
            e = sorted(set(np.round(V.ravel(), 6)))
            p.add(float(pick(draw, e)) + pick(draw, [-1, 1]) / 256.)
        out.append(sorted(float(x) for x in p))
    return tuple(out)


def draw_sel(draw, s, kinds=('poly', 'poly', 'multi', 'hole', 'point', 'mpoint', 'line'), pad=2):
    """Selection geometry for a field specification: on edges/centres of the cells or on a lattice over a padded extent."""
    from shapely import wkt
    want = chance(draw, .85)
    c = cells(s)
    for _ in range(4):
        w = draw_geom(draw, coord_pools(draw, s) if chance(draw, .65) else extent(s, pad), kinds)
        g = wkt.loads(w)
        if not want or any(g.intersects(p) and (g.area == 0 or not g.touches(p)) for p in c.flat):
            break
    return w


def extent(s, pad=0):
    VX, VY = vertices(s)
    return (VX.min() - pad, VY.min() - pad, VX.max() + pad, VY.max() + pad)
