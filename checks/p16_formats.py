"""Requests executed to memory and to every output format (CSV, CSV with shapefile, shapefile, GeoJSON, netCDF; melted and not).
Oracle: records enumerated by plain loops over the arrays of the in-memory result (first data variable leads, masked elements and
geometries have no record); files are read with csv/json/fiona/netCDF4, not through ocgis. Geometry identifiers must name the
geometry of their records in the accompanying files. Non-trivial: masked elements, several selections, levels or several variables."""
import csv
import json
import os
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st
from checks.p11_spatial_subset import wkt

LAEA = '+proj=laea +lat_0=0 +lon_0=0 +a=6370997 +b=6370997 +units=m +no_defs'
LONG = ['temperature_max', 'temperature_min', 'temperature_mean']


def gen(draw, fmts=('csv', 'csv', 'csv-shp', 'csv-shp', 'shp', 'shp', 'geojson', 'geojson', 'nc')):
    fmt = pick(draw, fmts)
    melted = fmt != 'nc' and chance(draw, .4)
    nds = 2 if melted and fmt != 'geojson' and chance(draw, .3) else 1
    # Longitudes from 0 to 360 (some of them crossing 180) and their wrapping in vector outputs.
    lo = pick(draw, [-10, -10, -10, 165, 178, 200, 340])
    ds = []
    for k in range(nds):
        names = [LONG, ['foo', 'bar', 'tas'], ['foo', 'bar', 'tas']][draw(I(0, 2))] if k == 0 else ['pr', 'prx']
        s = G.draw_field(draw, nt=(1, 3), nl='maybe', ny=(1, 3), nx=(1, 3), nvars=(1, 3) if k == 0 else (1, 2), order=pick(draw, [None, None, 'any']),
                         names=names, time=chance(draw, .9), x={'lo': lo, 'hi': lo + 20, 'maxstep': 4}, y={'lo': -10, 'hi': 10, 'maxstep': 4},
                         t={'calendars': ('standard', 'standard', '360_day', 'noleap'), 'units': ('days since 2000-01-01', 'hours since 1999-12-30')})
        s['crs'] = pick(draw, ['spherical', 'wgs84', 'wgs84'])
        for v in s['vars']:
            v['units'] = 'm'
        if ds:
            # One table: the same columns.
            s['crs'] = ds[0]['field']['crs']
            if (s['nt'] is None) != (ds[0]['field']['nt'] is None) or (s['nl'] is None) != (ds[0]['field']['nl'] is None):
                break
            s['lb'] = ds[0]['field']['lb']
            if s['nt'] is not None:
                s['time']['bounds'] = ds[0]['field']['time']['bounds']
        # Elements without values in all variables, a whole variable or the first element.
        extra = pick(draw, [None, None, None, None, 'all', 'first', 'second-first', 'second-all'])
        ds.append({'field': s, 'src': pick(draw, ['file', 'field', 'rdfield']), 'extra': extra, 'gmask': draw(I(1, 5)) if chance(draw, .2) else None})
    if len(ds) > 1 and 'field' in (ds[0]['src'], ds[1]['src']):
        # Only records read from files carry the identifier of their dataset.
        ds[0]['src'] = ds[1]['src'] = 'field'
    s = ds[0]['field']
    n = pick(draw, [0, 0, 1, 1, 2, 3])
    agg_selection = n > 1 and chance(draw, .2)
    agg = chance(draw, .35) and n > 0
    op = pick(draw, ['intersects', 'clip'])
    if fmt == 'nc':
        n = n if agg or agg_selection else min(n, 1)
        op = op if agg else 'intersects'
    kinds = pick(draw, [('poly',), ('poly', 'multi', 'hole'), ('poly', 'multi', 'hole'), ('point',)])
    if kinds == ('point',):
        op, agg, agg_selection, n = 'intersects', False, False, min(n, 1)
    sels = [G.draw_sel(draw, s, kinds, pad=1) for _ in range(n)]
    # Coordinate system of the output.
    out = None
    if chance(draw, .3):
        out = pick(draw, ['wgs84', 'spherical', 'wgs84', 'spherical', LAEA] if lo == -10 else ['wgs84', 'spherical'])
        if fmt == 'nc' and out == LAEA and not chance(draw, .5):
            out = None
    ids = draw(st.permutations([1, 2, 3, 7, 12, 40]))
    return {'fmt': fmt, 'melted': melted, 'ds': ds, 'sels': sels, 'ugid': list(ids[:n]), 'agg': agg, 'op': op, 'agg_selection': agg_selection and n > 1,
            'props': chance(draw, .4), 'uidname': pick(draw, [None, None, 'ID']), 'aux': chance(draw, .7), 'abstraction': pick(draw, ['auto', 'auto', 'auto', 'point']),
            'calc': pick(draw, [None, None, None, None, 'mean']), 'env_melted': melted and nds == 1 and chance(draw, .2),
            'out_crs': out, 'vector_wrap': chance(draw, .7),
            # Options of netCDF files and numeric times.
            'opts': {k: v for k, v in (('data_model', pick(draw, ['NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC', 'NETCDF3_64BIT_OFFSET'])),
                                       ('variable_kwargs', {'zlib': True, 'complevel': 3}), ('unlimited_to_fixedsize', chance(draw)), ('geom_dim', 'basin')) if chance(draw, .35)}
            if fmt == 'nc' else {},
            'numeric_time': chance(draw, .12) and all(d['src'] == 'file' for d in ds)}


def source(d, k):
    import ocgis
    s = d['field']
    f = G.build_field(s, name='fld%d' % k)
    vs = [f[v['name']] for v in s['vars']]

    def setm(v, idx):
        m = v.get_mask(create=True).copy()
        m[idx] = True
        v.set_mask(m)

    x = d['extra']
    if x == 'all':
        for v in vs:
            setm(v, Ellipsis)
    elif x == 'first':
        setm(vs[0], (0,) * vs[0].ndim)
    elif x == 'second-first':
        setm(vs[-1], (0,) * vs[-1].ndim)
    elif x == 'second-all':
        setm(vs[-1], Ellipsis)
    if d['gmask'] is not None and s['nx'] * s['ny'] > 1:
        m = f.grid.get_mask(create=True).copy()
        m.flat[d['gmask'] % m.size] = True
        f.grid.set_mask(m, cascade=True)
    if d['src'] == 'field':
        return f
    path = os.path.join(os.getcwd(), 'in%d.nc' % k)
    f.write(path)
    rd = ocgis.RequestDataset(path, variable=[v['name'] for v in s['vars']], field_name='fld%d' % k)
    if d['src'] == 'file':
        return rd
    return rd.get()


def request(case, fmt, melted, dirname):
    import ocgis
    kw = {}
    if case['sels']:
        key = case['uidname'] or 'UGID'
        kw['geom'] = []
        for i, w in enumerate(case['sels']):
            props = {key: case['ugid'][i]}
            if case['props']:
                props['NAME'] = 'sel %d' % i
                props['VAL'] = i + .5
            kw['geom'].append({'geom': wkt(w), 'properties': props, 'crs': G.crs_obj(case['ds'][0]['field']['crs'])})
        kw['spatial_operation'] = case['op']
        kw['agg_selection'] = case['agg_selection']
        if case['uidname']:
            kw['geom_uid'] = case['uidname']
    if case['agg']:
        kw['aggregate'] = True
    if case['calc'] and not case.get('numeric_time') and all(d['field']['nt'] is not None for d in case['ds']):
        kw['calc'] = [{'func': 'mean', 'name': 'the_mean'}]
        kw['calc_grouping'] = 'all'
    if case.get('out_crs'):
        kw['output_crs'] = G.crs_obj(case['out_crs'])
    # NetCDF outputs keep the domain of the dataset.
    kw['vector_wrap'] = case.get('vector_wrap', True) and case['fmt'] != 'nc'
    if case['fmt'] == 'nc' and fmt == 'nc' and case.get('vector_wrap') is not None:
        kw['vector_wrap'] = case['vector_wrap']
    if case['abstraction'] != 'auto':
        kw['abstraction'] = case['abstraction']
    if fmt == 'nc' and case.get('opts'):
        kw['output_format_options'] = case['opts']
    if case.get('numeric_time'):
        kw['format_time'] = False
    src = [source(d, k) for k, d in enumerate(case['ds'])]
    os.makedirs(dirname)
    if case['env_melted'] and melted:
        ocgis.env.MELTED = True
    else:
        kw['melted'] = melted
    ops = ocgis.OcgOperations(dataset=src if len(src) > 1 else src[0], output_format=fmt, dir_output=dirname, prefix='out', allow_empty=True,
                              add_auxiliary_files=case['aux'] or fmt == 'csv-shp', **kw)
    return ops, ops.execute()


def num(x):
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return x.item() if hasattr(x, 'item') else x


def records(coll):
    """Records of an in-memory collection, unmelted."""
    out = []
    for ugid, container in coll.children.items():
        for f in container.children.values():
            if f.is_empty:
                continue
            dvs = list(f.get_by_tag('_ocgis_data_variables', create=False) or [])
            if not dvs:
                raise Skip('no data')
            geom = f.geom
            if geom is None and f.grid is not None:
                geom = f.grid.get_abstraction_geometry()
            gname = geom.dimension_names
            ga, gm = geom.get_value(), geom.get_mask()
            if gm is None:
                gm = np.zeros(ga.shape, bool)
            lead = dvs[0]
            names = list(lead.dimension_names)

            def at(v, idx):
                sub = tuple(idx[names.index(d)] for d in v.dimension_names)
                m = v.get_mask()
                val = v.get_value()[sub]
                return None if m is not None and m[sub] else num(val)

            t, l, r = f.time, f.level, f.realization
            for idx in np.ndindex(*lead.shape):
                if at(lead, idx) is None:
                    continue
                gi = tuple(idx[names.index(d)] for d in gname)
                if gm[gi]:
                    continue
                rec = {'field': f.name, 'ugid': None if ugid is None else int(ugid), 'geom': ga[gi], 'gi': gi, 'key': (ugid, f.name) + gi}
                if t is not None:
                    ti = idx[names.index(t.dimension_names[0])]
                    if t.format_time:
                        rec['TIME'] = t.value_datetime[ti]
                        if t.has_bounds:
                            rec['LB_TIME'], rec['UB_TIME'] = t.bounds.value_datetime[ti]
                    else:
                        rec['TIME'] = num(t.get_value()[ti])
                        if t.has_bounds:
                            rec['LB_TIME'], rec['UB_TIME'] = [num(z) for z in t.bounds.get_value()[ti]]
                for ax, h in ((l, 'LEVEL'), (r, 'REALIZATION')):
                    if ax is not None:
                        rec[h] = num(ax.get_value()[idx[names.index(ax.dimension_names[0])]])
                        if ax.has_bounds and h == 'LEVEL':
                            rec['LB_LEVEL'], rec['UB_LEVEL'] = [num(z) for z in ax.bounds.get_value()[idx[names.index(ax.dimension_names[0])]]]
                rec['vars'] = [(v.name, at(v, idx)) for v in dvs]
                rec['repeat'] = {v.name: dict(v.repeat_record or ()) for v in dvs}
                out.append(rec)
    return out


AXES = ('TIME', 'LB_TIME', 'UB_TIME', 'LEVEL', 'LB_LEVEL', 'UB_LEVEL', 'REALIZATION')


def want_rows(recs, melted, uid):
    """Expected records as dictionaries of plain values; the geometry is kept apart."""
    out = []
    for r in recs:
        base = {}
        if r['ugid'] is not None:
            base[uid] = r['ugid']
        for a in AXES:
            if a in r:
                base[a] = str(r[a]) if hasattr(r[a], 'year') else r[a]
        if hasattr(r.get('TIME'), 'year'):
            base['YEAR'], base['MONTH'], base['DAY'] = r['TIME'].year, r['TIME'].month, r['TIME'].day
        elif 'TIME' in r:
            base['YEAR'] = base['MONTH'] = base['DAY'] = None
        if melted:
            for n, v in r['vars']:
                out.append((dict(base, VARIABLE=n, VALUE=v, **r['repeat'][n]), r))
        else:
            out.append((dict(base, **dict(r['vars'])), r))
    return out


def conv_like(text, like):
    if text in ('', None):
        return None
    if isinstance(like, str):
        return text
    if like is None:
        return float(text)
    if isinstance(like, int):
        check(float(text) == int(float(text)), 'value {} where an integer is expected ({})', text, like)
        return int(float(text))
    return float(text)


def key_of(d, nd=12):
    def f(v):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return ('n', float('%.*g' % (nd, v)))
        return ('s', str(v)) if v is not None else ('0', '')
    return tuple(sorted((k, f(v)) for k, v in d.items()))


def same_geom(a, b):
    if a.is_empty or b.is_empty:
        return a.is_empty and b.is_empty
    if a.equals(b):
        return True
    if a.area > 0 or b.area > 0:
        return a.symmetric_difference(b).area <= 1e-8 * max(a.area, b.area, 1e-6)
    return a.hausdorff_distance(b) < 1e-8


class Snap(object):
    """Values of a file next to a wanted value (files hold a limited number of digits) are replaced by the wanted value."""

    def __init__(self, values):
        self.v = np.unique([float(v) for v in values if isinstance(v, float)])

    def __call__(self, x):
        if isinstance(x, float) and len(self.v):
            i = np.searchsorted(self.v, x)
            for j in (i - 1, i):
                if 0 <= j < len(self.v) and abs(self.v[j] - x) <= 1e-12 + 1e-10 * abs(x):
                    return float(self.v[j])
        return x


def compare(fmt, rows, want, what, gid_needed):
    """rows: [(dict without GID/DID, gid, geometry or None)]; want: [(dict, record)]."""
    from collections import Counter
    check(len(rows) == len(want), '{}: {} records, expected {}', what, len(rows), len(want))
    if not want:
        return
    cols = set(want[0][0])
    for w, _ in want:
        cols |= set(w)
    for d, _, _ in rows:
        check(set(d) == cols, '{}: columns {} expected {}', what, sorted(d), sorted(cols))
    snap = Snap(v for w, _ in want for v in w.values())
    rows = [({k: snap(v) for k, v in d.items()}, gid, geom) for d, gid, geom in rows]
    a = Counter(key_of({k: w.get(k) for k in cols}) for w, _ in want)
    b = Counter(key_of(d) for d, _, _ in rows)
    if a != b:
        raise Violation('{}: records differ; missing {} unexpected {}'.format(what, list((a - b).items())[:3], list((b - a).items())[:3]))
    # Geometries: group the records by geometry identifier (within container and field) and compare groups.
    if gid_needed is None:
        return
    wg = {}
    for w, r in want:
        wg.setdefault(r['key'], [r['geom'], Counter()])[1][key_of({k: w.get(k) for k in cols})] += 1
    gg = {}
    for d, gid, geom in rows:
        k = (d.get(gid_needed[0]), fieldkey(d, gid_needed[1]), gid)
        g = gg.setdefault(k, [geom, Counter()])
        g[1][key_of(d)] += 1
        if geom is not None:
            check(same_geom(g[0], geom), '{}: identifier {} is used for {} and {}', what, gid, g[0].wkt, geom.wkt)
    check(len(wg) == len(gg), '{}: {} geometry identifiers, expected {}: {}', what, len(gg), len(wg), sorted(map(str, gg)))
    left = list(wg.values())
    for k, (geom, cnt) in gg.items():
        for i, (g2, c2) in enumerate(left):
            if c2 == cnt and (geom is None or same_geom(geom, g2)):
                left.pop(i)
                break
        else:
            raise Violation('{}: records {} of identifier {} with geometry {} do not belong together; remaining geometries {}'.format(
                what, list(cnt)[:2], k, None if geom is None else geom.wkt, [g.wkt for g, _ in left][:4]))


def fieldkey(d, owner):
    """Name of the field of a melted record (by variable name); fields are not distinguished otherwise."""
    return owner.get(d.get('VARIABLE')) if owner else None


def wrapped(g):
    """Geometry with longitudes up to 180: the part beyond is moved by a turn."""
    from shapely.affinity import translate
    from shapely.geometry import box
    from shapely.ops import unary_union
    if g.is_empty or g.bounds[2] <= 180:
        return g
    if g.geom_type in ('Point', 'MultiPoint'):
        from shapely.geometry import MultiPoint, Point
        ps = [Point(p.x - 360 if p.x > 180 else p.x, p.y) for p in getattr(g, 'geoms', [g])]
        return ps[0] if g.geom_type == 'Point' else MultiPoint(ps)
    parts = [g.intersection(box(-180, -90, 180, 90)), translate(g.intersection(box(180, -90, 540, 90)), -360)]
    return unary_union([p for p in parts if p.area > 0])


def read_shp(path):
    import fiona
    from shapely.geometry import shape
    with fiona.open(path) as c:
        return [(dict(r['properties']), shape(r['geometry'])) for r in c]


def run(case):
    import ocgis
    fmt, melted = case['fmt'], case['melted']
    cwd = os.getcwd()
    _, ref = request(dict(case, env_melted=False), 'ocgis', False, os.path.join(cwd, 'a'))
    recs = records(ref)
    nfields = sum(1 for _ in ref.iter_fields())
    uid = case['uidname'] or 'UGID'
    if fmt == 'nc':
        return run_nc(case, ref, recs)
    empties = [f for f in ref.iter_fields() if f.is_empty]
    if nfields == 0 or (empties and len(empties) == nfields):
        raise Skip('empty')
    kinds = {r['geom'].geom_type for r in recs}
    for f in ref.iter_fields():
        # The schema is the one of the first field even if all of its records are masked.
        if not f.is_empty:
            g = f.geom if f.geom is not None else f.grid.get_abstraction_geometry() if f.grid is not None else None
            if g is not None:
                kinds |= {x.geom_type for x in g.get_value().flat if hasattr(x, 'geom_type')}
    if fmt in ('shp', 'csv-shp') and nfields > 1 and (len(kinds & {'Point', 'MultiPoint'}) > 1 or len({k.replace('Multi', '') for k in kinds}) > 1):
        raise Skip('shapefiles hold either points, multi-points or polygons')
    if fmt == 'geojson' and case.get('out_crs') == LAEA:
        from ocgis.exc import DefinitionValidationError
        try:
            request(case, fmt, melted, os.path.join(cwd, 'b'))
        except DefinitionValidationError:
            return 'geojson-crs'
        raise Violation('geojson: projected coordinates are accepted')
    ops, ret = request(case, fmt, melted, os.path.join(cwd, 'b'))
    check(isinstance(ret, str) and os.path.exists(ret), 'returned path {} does not exist', ret)
    if case.get('vector_wrap', True) and fmt in ('shp', 'geojson', 'csv-shp') and case.get('out_crs') != LAEA:
        for f in ref.iter_fields():
            if not f.is_empty and f.grid is not None and not (f.grid.x.get_value() > 180).any() and any(r['geom'].bounds[2] > 180 for r in recs if not r['geom'].is_empty):
                # The domain is told by the centres.
                raise Skip('only edges of cells are beyond 180')
        for r in recs:
            r['geom'] = wrapped(r['geom'])
    want = want_rows(recs, melted, uid)
    what = fmt + (' melted' if melted else '')
    owner = {}
    if melted and len(case['ds']) > 1:
        for r in recs:
            for n, _ in r['vars']:
                owner.setdefault(n, r['field'])
        if case['calc'] and len(owner) != sum(len(d['field']['vars']) for d in case['ds']):
            raise Skip('names of results are shared by fields')
    anyw = {}
    for w, _ in want:
        for k, v in w.items():
            if anyw.get(k) is None:
                anyw[k] = v
    if melted and any(isinstance(w['VALUE'], float) for w, _ in want):
        anyw['VALUE'] = 1.
    # Descriptions of calculations repeat for every record; they are judged in melted records where they belong to one variable.
    drop = set() if melted else {k for r in recs for x in r['repeat'].values() for k in x}
    outdir = os.path.dirname(ret) if os.path.isfile(ret) else ret
    rows = []
    gid_needed = None
    if fmt in ('csv', 'csv-shp'):
        with open(os.path.join(outdir, 'out.csv')) as f:
            table = list(csv.DictReader(f))
        for d in table:
            d = dict(d)
            check(None not in d, 'csv: row with more columns than the header: {}', d)
            for x in drop | {'DID'}:
                d.pop(x, None)
            gid = d.pop('GID', None)
            rows.append(({k: conv_like(v, anyw.get(k)) for k, v in d.items()}, None if gid is None else int(gid), None))
        if rows and (rows[0][1] is not None or fmt == 'csv-shp'):
            gid_needed = (uid, owner)
    elif fmt == 'shp':
        for d, g in read_shp(os.path.join(outdir, 'out.shp')):
            gid = d.pop('GID')
            for x in drop | {'DID'}:
                d.pop(x, None)
            if want and not melted:
                # Field names have at most ten characters; data variables keep their order.
                names = [n for n, _ in recs[0]['vars']]
                keys = [k for k in d if k not in AXES + ('YEAR', 'MONTH', 'DAY', uid)]
                check(len(keys) == len(names), 'shp: fields {} for data variables {}', list(d), names)
                vals = [d.pop(k) for k in keys]
                d.update(zip(names, vals))
            rows.append(({k: conv_like(v, anyw.get(k)) for k, v in d.items()}, gid, g))
        gid_needed = (uid, owner)
    elif fmt == 'geojson':
        from shapely.geometry import shape
        with open(os.path.join(outdir, 'out.json')) as f:
            for r in json.load(f)['features']:
                d = dict(r['properties'])
                gid = d.pop('GID')
                for x in drop | {'DID'}:
                    d.pop(x, None)
                rows.append(({k: conv_like(v, anyw.get(k)) for k, v in d.items()}, gid, shape(r['geometry'])))
        gid_needed = (uid, owner)
    compare(fmt, rows, want, what, gid_needed)
    # Accompanying geometry files.
    if case['sels'] and fmt != 'csv':
        ug = os.path.join(outdir, 'shp', 'out_ugid.shp') if fmt == 'csv-shp' else os.path.join(outdir, 'out_ugid.shp')
        got = read_shp(ug)
        # Every selection with a result is there once.
        have = {}
        for d, g in got:
            check(d[uid] not in have, '{}: user geometry {} occurs twice in {}', what, d[uid], ug)
            have[d[uid]] = (d, g)
        for u in {r['ugid'] for r in recs}:
            check(u in have, '{}: user geometry {} is missing in {}', what, u, sorted(have))
            src = ref.children[u].geom.get_value().flat[0]
            check(same_geom(have[u][1], src), '{}: user geometry {} is {} expected {}', what, u, have[u][1].wkt, src.wkt)
            if not case['agg_selection'] and case.get('out_crs') in (None, case['ds'][0]['field']['crs']):
                w = wkt(case['sels'][case['ugid'].index(u)])
                check(same_geom(have[u][1], wrapped(w) if case.get('vector_wrap', True) else w), '{}: user geometry {} is {}', what, u, have[u][1].wkt)
                if case['props']:
                    i = case['ugid'].index(u)
                    check(have[u][0].get('NAME') == 'sel %d' % i and have[u][0].get('VAL') == i + .5, '{}: properties of user geometry {}: {}', what, u, have[u][0])
    if fmt == 'csv-shp' and not case['agg'] and want:
        got = read_shp(os.path.join(outdir, 'shp', 'out_gid.shp'))
        tab = {}
        for d, g in got:
            k = (d.get(uid), d.get('DID'), d['GID'])
            if len(case['ds']) == 1:
                check(k not in tab, 'csv-shp: identifier {} occurs twice', k)
            tab.setdefault(k, []).append(g)
        uids = {f.name: f.uid for f in ref.iter_fields()}
        for d, gid, _ in rows:
            fld = fieldkey(d, owner) or recs[0]['field']
            k = (d.get(uid), uids.get(fld), gid)
            gs = tab.get(k)
            if gs is None and len(case['ds']) == 1:
                gs = [g for kk, v in tab.items() if kk[0] == k[0] and kk[2] == gid for g in v]
            check(gs, 'csv-shp: identifier {} of a record is not in the geometry file: {}', k, sorted(map(str, tab)))
            if len(gs) > 1:
                continue
            # The record belongs to that geometry.
            kd = key_of(d)
            ok = any(same_geom(gs[0], r['geom']) for w, r in want if key_of({c: w.get(c) for c in d}) == kd)
            check(ok, 'csv-shp: record {} with identifier {} refers to {}', d, gid, gs[0].wkt)
    return label(case, recs)


def label(case, recs):
    lab = [case['fmt']]
    if len(case['sels']) > 1:
        lab.append('sels')
    if any(v is None for r in recs for _, v in r['vars']):
        lab.append('null')
    if any(d['extra'] for d in case['ds']) or any(d['gmask'] for d in case['ds']) or any(v['mask'] for d in case['ds'] for v in d['field']['vars']):
        lab.append('masked')
    if len(case['ds']) > 1:
        lab.append('datasets')
    if case['ds'][0]['field']['nl']:
        lab.append('levels')
    return '+'.join(lab) if len(lab) > 1 and recs else ('none+' + case['fmt'] if not recs else '')


def nc_options(case, ds, ref, ud):
    o = case.get('opts') or {}
    if 'data_model' in o:
        check(ds.data_model == o['data_model'], 'nc: data model {} requested {}', ds.data_model, o['data_model'])
    fixed = o.get('unlimited_to_fixedsize', False)
    for d in ds.dimensions.values():
        check(not (fixed and d.isunlimited()), 'nc: dimension {} is unlimited', d.name)
    names = [v.name for f in ref.iter_fields() for v in f.get_by_tag('_ocgis_data_variables')]
    if 'variable_kwargs' in o and ds.data_model.startswith('NETCDF4'):
        for n in names:
            flt = ds.variables[n].filters()
            check(ds.variables[n].ndim == 0 or (flt['zlib'] and flt['complevel'] == 3), 'nc: filters of {} are {}', n, flt)
    if case['agg'] and case['sels']:
        check(ud in ds.dimensions, 'nc: dimension {} is missing in {}', ud, list(ds.dimensions))
        check(len(ds.dimensions[ud]) == len(ref.children), 'nc: size of {}', ud)


def run_nc(case, ref, recs):
    import netCDF4 as nc
    fields = list(ref.iter_fields())
    if not fields or any(f.is_empty for f in fields):
        raise Skip('empty')
    if case['agg'] and len({f.grid is None for f in fields}) > 1:
        raise Skip('mixed')
    ops, ret = request(case, 'nc', False, os.path.join(os.getcwd(), 'b'))
    check(os.path.exists(ret), 'returned path {} does not exist', ret)
    ds = nc.Dataset(ret)
    ud = case['opts'].get('geom_dim', 'ocgis_geom_union') if case.get('opts') else 'ocgis_geom_union'
    try:
        nc_options(case, ds, ref, ud)
        for k, (ugid, cont) in enumerate(ref.children.items()):
            for f in cont.children.values():
                for v in f.get_by_tag('_ocgis_data_variables'):
                    check(v.name in ds.variables, 'nc: variable {} is missing', v.name)
                    nv = ds.variables[v.name]
                    got = np.ma.array(nv[...])
                    want = v.get_masked_value()
                    if case['agg'] and case['sels']:
                        ax = [i for i, d in enumerate(nv.dimensions) if d == ud][0]
                        check(got.shape[ax] == len(ref.children), 'nc: {} geometries, expected {}', got.shape[ax], len(ref.children))
                        got = got[(slice(None),) * ax + (slice(k, k + 1),)]
                    check(got.shape == want.shape, 'nc: {} has shape {} expected {}', v.name, got.shape, want.shape)
                    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
                    check((gm == wm).all(), 'nc: mask of {} is {} expected {}', v.name, gm.tolist(), wm.tolist())
                    check((np.asarray(got.data)[~wm] == np.asarray(want.data)[~wm]).all(), 'nc: {} is {} expected {}', v.name, got, want)
                if f.time is not None and not f.time.format_time:
                    check(np.array_equal(np.asarray(ds.variables[f.time.name][...]), f.time.get_value()), 'nc: numeric times {}', ds.variables[f.time.name][...])
                elif f.time is not None:
                    tv = ds.variables[f.time.name]
                    import cftime
                    got = cftime.num2date(tv[...], tv.units, tv.calendar)
                    check([str(x)[:19] for x in np.atleast_1d(got)] == [str(x)[:19] for x in f.time.value_datetime], 'nc: times {} expected {}', got, f.time.value_datetime)
                for ax in (f.level, f.realization):
                    if ax is not None:
                        check((np.asarray(ds.variables[ax.name][...]) == ax.get_value()).all(), 'nc: {}', ax.name)
                if not case['agg']:
                    for ax in (f.x, f.y):
                        check(np.array_equal(np.asarray(ds.variables[ax.name][...]), ax.get_value()), 'nc: {} is {} expected {}', ax.name, ds.variables[ax.name][...], ax.get_value())
                elif case['sels']:
                    c = cont.geom.get_value().flat[0].centroid
                    dims = [d for d in ds.variables[f.x.name].dimensions]
                    gx, gy = np.asarray(ds.variables[f.x.name][...]).flat[k], np.asarray(ds.variables[f.y.name][...]).flat[k]
                    check(abs(gx - c.x) < 1e-9 and abs(gy - c.y) < 1e-9, 'nc: centroid ({}, {}) expected {} for geometry {}', gx, gy, c.wkt, ugid)
                    gu = np.asarray(ds.variables[case['uidname'] or 'UGID'][...]).flat[k]
                    check(int(gu) == int(ugid), 'nc: identifier {} expected {}', gu, ugid)
    finally:
        ds.close()
    return label(case, recs)


TARGETS = [
    Target('formats', gen, run, 400, 9000, 'masked elements, several selections, levels or datasets', None),
]
