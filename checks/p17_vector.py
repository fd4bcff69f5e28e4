"""Vector files: reading, selecting and writing features. Files are written and read with fiona, not through ocgis.
Oracle: the list of features as written; selections evaluated by plain Python over the attribute values; unions compared by area of
the symmetric difference. Non-trivial: at least two features and a selection, missing values, or a change before loading."""
import copy
import os
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st
from checks.p11_spatial_subset import wkt

EXT = {'ESRI Shapefile': 'shp', 'GeoJSON': 'geojson', 'GPKG': 'gpkg'}
KINDS = {'Point': ('point',), 'LineString': ('line',), 'Polygon': ('poly', 'hole', 'multi')}
BOX = (-10, -10, 10, 10)
NAMES = ['a', 'bb', 'ccc', 'north side', 'e', 'zürich', "o'neil"]


def draw_features(draw, nmax=6, kinds=('Polygon', 'Polygon', 'Point', 'LineString'), nulls=.3):
    n = draw(I(1, nmax))
    kind = pick(draw, kinds)
    uname = pick(draw, [None, None, 'UGID', 'ID', 'ORDER', 'basin_id'])
    ids = list(draw(st.permutations([1, 2, 3, 5, 8, 13, 40, 1000])))[:n]
    feats = []
    for i in range(n):
        null = lambda: chance(draw, nulls)
        feats.append({'geom': G.draw_geom(draw, BOX, KINDS[kind]), 'ID': ids[i], 'NAME': None if null() else pick(draw, NAMES),
                      'VAL': None if null() else draw(I(-20, 20)) / 4., 'CNT': None if null() else draw(I(-5, 2 ** 31 - 1) if chance(draw, .1) else I(-5, 5))})
    cols = list(draw(st.permutations(['NAME', 'VAL', 'CNT'])))[:draw(I(1, 3))]
    if uname:
        cols.insert(draw(I(0, len(cols))), uname)
    return {'kind': kind, 'uname': uname, 'cols': cols, 'feats': feats}


def prop(fs, f, c):
    return f['ID'] if c == fs['uname'] else f[c]


def ctype(fs, c):
    return 'int' if c in (fs['uname'], 'CNT') else {'NAME': 'str:30', 'VAL': 'float'}[c]


def write_file(fs, driver, path):
    import fiona
    from shapely.geometry import mapping
    schema = {'geometry': 'Unknown' if driver != 'ESRI Shapefile' and any('MULTI' in f['geom'] for f in fs['feats']) else fs['kind'], 'properties': {c: ctype(fs, c) for c in fs['cols']}}
    with fiona.open(path, 'w', driver=driver, crs={'init': 'epsg:4326'}, schema=schema, encoding='utf-8') as sink:
        for f in fs['feats']:
            sink.write({'geometry': mapping(wkt(f['geom'])), 'properties': {c: prop(fs, f, c) for c in fs['cols']}})


def draw_where(draw, fs, depth=0):
    """['cmp', col, op, const] | ['null', col, bool] | ['in', col, [..]] | ['and'|'or', a, b]"""
    k = pick(draw, ['cmp', 'cmp', 'in', 'null', 'and', 'or'] if depth == 0 else ['cmp', 'in'])
    if k in ('and', 'or'):
        return [k, draw_where(draw, fs, 1), draw_where(draw, fs, 1)]
    c = pick(draw, fs['cols'])
    present = [prop(fs, f, c) for f in fs['feats'] if prop(fs, f, c) is not None]
    const = pick(draw, present) if present else ('a' if c == 'NAME' else 1)
    if k == 'null':
        return ['null', c, chance(draw, .5)]
    if k == 'in':
        return ['in', c, sorted({const} | ({pick(draw, present)} if present else set()))]
    return ['cmp', c, '=' if c == 'NAME' else pick(draw, ['=', '>', '<', '>=', '<=']), const]


def q(v):
    return "'{}'".format(v.replace("'", "''")) if isinstance(v, str) else repr(v)


def sql(w):
    if w[0] in ('and', 'or'):
        return '{} {} {}'.format(sql(w[1]), w[0].upper(), sql(w[2]))
    c = '"{}"'.format(w[1]) if w[1] == 'ORDER' else w[1]
    if w[0] == 'null':
        return '{} IS {}NULL'.format(c, '' if w[2] else 'NOT ')
    if w[0] == 'in':
        return '{} IN ({})'.format(c, ', '.join(map(q, w[2])))
    return '{} {} {}'.format(c, w[2], q(w[3]))


def holds(w, fs, f):
    if w[0] == 'and':
        return holds(w[1], fs, f) and holds(w[2], fs, f)
    if w[0] == 'or':
        return holds(w[1], fs, f) or holds(w[2], fs, f)
    v = prop(fs, f, w[1])
    if w[0] == 'null':
        return (v is None) == w[2]
    if v is None:
        return False
    if w[0] == 'in':
        return v in w[2]
    return {'=': v == w[3], '>': v > w[3], '<': v < w[3], '>=': v >= w[3], '<=': v <= w[3]}[w[2]]


def same(a, b):
    """Equal shapes; vertices as written."""
    if a.geom_type != b.geom_type and a.geom_type.replace('Multi', '') != b.geom_type.replace('Multi', ''):
        return False
    if a.area > 0 or b.area > 0:
        # Formats may round coordinates (15 digits); valid shapes that touch in a point become invalid by that.
        return (abs(a.area - b.area) < 1e-9 and a.hausdorff_distance(b) < 1e-9) or (a.is_valid and b.is_valid and a.symmetric_difference(b).area < 1e-9)
    return a.equals(b) or a.hausdorff_distance(b) < 1e-9


def gen_select(draw):
    fs = draw_features(draw)
    driver = pick(draw, ['ESRI Shapefile'] * 3 + ['GeoJSON', 'GPKG'])
    n = len(fs['feats'])
    mode = pick(draw, ['all', 'uid', 'uid', 'where', 'where', 'slc'])
    if mode == 'uid' and fs['uname'] is None:
        mode = 'where'
    via = pick(draw, ['iter', 'iter', 'field', 'key', 'iter_geoms', 'ops', 'ops-iter', 'execute'])
    if via == 'key' and driver != 'ESRI Shapefile':
        via = 'iter'
    if mode == 'slc' and via in ('ops', 'execute'):
        via = 'ops-iter'
    if via == 'execute':
        fs['kind'] == 'Polygon' or fs.update(draw_features(draw, kinds=('Polygon',)))
        n = len(fs['feats'])
        if mode == 'uid' and fs['uname'] is None:
            mode = 'where'
    if driver == 'GeoJSON':
        # Columns without any value have no type in this format.
        for c, d in (('NAME', 'a'), ('VAL', 1.), ('CNT', 1)):
            if all(f[c] is None for f in fs['feats']):
                fs['feats'][0][c] = d
    sel = None
    if mode == 'uid':
        have = [f['ID'] for f in fs['feats']]
        sel = list(draw(st.permutations(have)))[:draw(I(1, n))]
        if chance(draw, .25):
            sel.insert(draw(I(0, len(sel))), 77)
        if chance(draw, .2) and via not in ('ops', 'ops-iter', 'execute'):
            sel.append(sel[0])
    elif mode == 'where':
        sel = draw_where(draw, fs)
    elif mode == 'slc':
        sel = G.draw_index(draw, n, ('int', 'slice', 'list', 'arr', 'bool', 'none'))
    return {'fs': fs, 'driver': driver, 'mode': mode, 'sel': sel, 'via': via, 'union': chance(draw, .3), 'load': chance(draw, .85)}


def positions(case):
    fs = case['fs']
    n = len(fs['feats'])
    if case['mode'] == 'all':
        return list(range(n))
    if case['mode'] == 'uid':
        return [i for i, f in enumerate(fs['feats']) if f['ID'] in case['sel']]
    if case['mode'] == 'where':
        return [i for i, f in enumerate(fs['feats']) if holds(case['sel'], fs, f)]
    return G.index_positions(case['sel'], n)


def one(v):
    """Value and presence of a single-element variable."""
    m = v.get_mask()
    if m is not None and m.flatten()[0]:
        return None
    x = v.get_value().flatten()[0]
    return x.item() if hasattr(x, 'item') else x


def run_select(case):
    import ocgis
    from ocgis.spatial.geom_cabinet import GeomCabinet, GeomCabinetIterator
    fs = case['fs']
    path = os.path.join(os.getcwd(), 'feats.' + EXT[case['driver']])
    write_file(fs, case['driver'], path)
    before = {f: open(f, 'rb').read() for f in os.listdir('.') if os.path.isfile(f)}
    kw = {}
    # A file's own UGID is found without being named.
    if fs['uname'] not in (None, 'UGID'):
        kw['uid'] = fs['uname']
    if case['mode'] == 'uid':
        kw['select_uid'] = list(case['sel'])
    elif case['mode'] == 'where':
        kw['select_sql_where'] = sql(case['sel'])
    elif case['mode'] == 'slc':
        kw['slc'] = G.index_obj(case['sel'])
    want = positions(case)
    via, union = case['via'], case['union']
    if case['mode'] == 'slc' and any(w < 0 for w in want):
        raise Skip('negative')

    def get():
        if via == 'key':
            ocgis.env.DIR_GEOMCABINET = os.getcwd()
            check(GeomCabinet().keys() == ['feats'], 'keys {}', GeomCabinet().keys())
            return GeomCabinetIterator(key='feats', union=union, **kw)
        if via == 'iter_geoms':
            ocgis.env.DIR_GEOMCABINET = os.getcwd()
            return GeomCabinet().iter_geoms(path=path, union=union, **kw)
        if via in ('iter', 'field'):
            if via == 'iter' and not union:
                kw['load_geoms'] = case['load']
            return GeomCabinetIterator(path=path, as_field=via == 'field', union=union, **kw)
        req = {}
        if via in ('ops', 'execute'):
            req = {'geom': path, 'agg_selection': union}
            if 'uid' in kw:
                req['geom_uid'] = kw['uid']
            if 'select_uid' in kw:
                req['geom_select_uid'] = kw['select_uid']
            if 'select_sql_where' in kw:
                req['geom_select_sql_where'] = kw['select_sql_where']
        else:
            req = {'geom': GeomCabinetIterator(path=path, **kw), 'agg_selection': union}
        g = {'crs': 'wgs84', 'grid': '1d', 'nt': None, 'nl': None, 'nr': None, 'ny': 3, 'nx': 4, 'bounds': True, 'lb': False, 'shear': [0, 0], 'time': None,
             'xe': [-12., -6., 0., 6., 12.], 'ye': [-12., -4., 4., 12.], 'vars': [{'name': 'foo', 'dims': ['y', 'x'], 'dtype': 'f8', 'mask': None, 'seed': 1, 'units': 'm'}]}
        ops = ocgis.OcgOperations(dataset=G.build_field(g), allow_empty=True, **req)
        return ops

    if not want:
        # Nothing satisfies the selection: an error, not something else.
        try:
            it = get()
            got = list(it.geom if hasattr(it, 'geom') else it)
        except Exception:
            return 'none'
        raise Violation('nothing satisfies the selection but {} features are returned'.format(len(got)))
    it = get()
    if via == 'execute':
        coll = it.execute()
        rows = list(it.geom)
    elif via in ('ops', 'ops-iter'):
        rows = list(it.geom)
        if it.geom is not None:
            check(len(it.geom) == len(rows), 'length {} but {} features', len(it.geom), len(rows))
    else:
        rows = list(it)
        if via != 'iter_geoms':
            check(len(it) == len(rows), 'length {} but {} features', len(it), len(rows))
            again = list(it)
            check(len(again) == len(rows), 'second iteration returns {} features, the first {}', len(again), len(rows))
    uid = fs['uname'] or 'UGID'
    if union:
        check(len(rows) == 1, 'union returns {} features', len(rows))
        g = rows[0].geom
        check(g.size == 1, 'union has {} geometries', g.size)
        ref = wkt(fs['feats'][want[0]]['geom'])
        for w in want[1:]:
            ref = ref.union(wkt(fs['feats'][w]['geom']))
        got = g.get_value().flatten()[0]
        check(same(got, ref), 'union {} expected {}', got.wkt, ref.wkt)
        check(one(g.ugid) == 1, 'identifier of the union {}', one(g.ugid))
        uids = [1]
        refs = [ref]
    else:
        check(len(rows) == len(want), '{} features returned, expected {}', len(rows), len(want))
        uids, refs = [], []
        base = 1 if case['driver'] == 'GPKG' else 0
        for r, w in zip(rows, want):
            f = fs['feats'][w]
            fld = not isinstance(r, dict)
            if fld:
                props = {c: one(r[c]) for c in fs['cols']}
                check(r.geom.ugid is not None and r.geom.ugid.name == uid, 'identifier variable')
                u = one(r.geom.ugid)
                geom = r.geom.get_value().flatten()[0]
                check(r.geom.size == 1, 'size {}', r.geom.size)
                check(r.crs == ocgis.crs.WGS84(), 'coordinate system {}', r.crs)
            else:
                props = {c: r['properties'][c] for c in fs['cols']}
                u = r['properties'][uid]
                geom = r.get('geom')
                check((geom is None) == (kw.get('load_geoms') is False), 'geometry loaded {}', geom)
                extra = set(r['properties']) - set(fs['cols']) - {uid}
                check(not extra, 'unexpected properties {}', extra)
            for c in fs['cols']:
                check(props[c] == prop(fs, f, c) and type(props[c]) == type(prop(fs, f, c)), 'feature {}: {} is {!r}, expected {!r}', w, c, props[c], prop(fs, f, c))
            if geom is not None:
                check(same(geom, wkt(f['geom'])), 'feature {}: geometry {} expected {}', w, geom.wkt, f['geom'])
            wu = f['ID'] if fs['uname'] else (w + base)
            check(u == wu, 'identifier {} expected {} (feature {})', u, wu, w)
            uids.append(u)
            refs.append(wkt(f['geom']))
    if via == 'execute':
        check([int(k) for k in coll.children.keys()] == uids, 'collection has {} expected {}', list(coll.children.keys()), uids)
        for (k, c), ref in zip(coll.children.items(), refs):
            check(same(c.geom.get_value().flatten()[0], ref), 'geometry of {}', k)
            f = list(c.children.values())[0]
            cells = f.grid.get_abstraction_geometry() if not f.is_empty and f.grid is not None else None
            if cells is not None:
                val, m = cells.get_value(), cells.get_mask()
                for i in np.ndindex(*val.shape):
                    if m is None or not m[i]:
                        check(val[i].intersects(ref), 'cell {} outside of the geometry {}', val[i].wkt, k)
    for f, b in before.items():
        check(open(f, 'rb').read() == b, 'source file {} changed', f)
    tag = case['mode'] + ('+union' if union else '') + '+' + via
    return tag if len(fs['feats']) > 1 else ''


# ---------------------------------------------------------------- request datasets on vector files
def gen_rd(draw):
    fs = draw_features(draw, nulls=.2)
    driver = pick(draw, ['ESRI Shapefile'] * 3 + ['GeoJSON', 'GPKG'])
    n = len(fs['feats'])
    ops = []
    for _ in range(draw(I(0, 4))):
        k = pick(draw, ['slice', 'slice', 'load', 'load-geom', 'set', 'add', 'rename', 'copy', 'mask', 'extract'])
        if k == 'slice':
            j = G.draw_index(draw, n, ('int', 'slice', 'list', 'bool'))
            ops.append([k, j])
            n = len(G.index_positions(j, n))
        elif k in ('load', 'set', 'rename', 'mask', 'extract'):
            ops.append([k, draw(I(0, 5)), draw(I(0, 5))])
        else:
            ops.append([k])
    return {'fs': fs, 'driver': driver, 'ops': ops, 'out': pick(draw, [None, 'ESRI Shapefile', 'ESRI Shapefile', 'GeoJSON'])}


def model_rd(fs):
    return {'cols': [[c, [prop(fs, f, c) for f in fs['feats']]] for c in fs['cols']], 'geom': [wkt(f['geom']) for f in fs['feats']]}


def compare_field(field, m, what):
    g = field.geom.get_value()
    check(g.shape == (len(m['geom']),), '{}: shape {} expected {}', what, g.shape, len(m['geom']))
    for i, (a, b) in enumerate(zip(g, m['geom'])):
        check(same(a, b), '{}: geometry {} is {} expected {}', what, i, a.wkt, b.wkt)
    for c, vals in m['cols']:
        v = field[c]
        got, mask = v.get_value(), v.get_mask()
        got = [None if mask is not None and mask[i] else (x.item() if hasattr(x, 'item') else x) for i, x in enumerate(got)]
        check(got == vals, '{}: {} is {} expected {}', what, c, got, vals)


def run_rd(case):
    import ocgis
    import fiona
    from shapely.geometry import shape
    from ocgis.variable.base import Variable
    fs = case['fs']
    path = os.path.join(os.getcwd(), 'feats.' + EXT[case['driver']])
    write_file(fs, case['driver'], path)
    rd = ocgis.RequestDataset(path, driver='vector')
    field = rd.get()
    m = model_rd(fs)
    check(field.crs == ocgis.crs.WGS84(), 'coordinate system {}', field.crs)
    label = ''
    if any(v is None for _, vs in m['cols'] for v in vs):
        label = 'null'
    dim = field.geom.dimensions[0].name
    for op in case['ops']:
        k = op[0]
        ncol = len(m['cols'])
        name = m['cols'][op[1] % ncol][0] if len(op) == 3 else None
        n = len(m['geom'])
        if k == 'slice':
            pos = G.index_positions(op[1], n)
            obj = G.index_obj(op[1])
            # Indices select from the end as well.
            field = field[{dim: obj}]
            m = {'cols': [[c, [v[p] for p in pos]] for c, v in m['cols']], 'geom': [m['geom'][p] for p in pos]}
        elif k == 'load':
            field[name].get_value()
        elif k == 'load-geom':
            field.geom.get_value()
        elif k == 'copy':
            field = field.copy()
        elif k == 'set':
            v = field[name]
            new = ['x%d' % (i + op[2]) for i in range(n)] if v.dtype == object else [i + op[2] + (.5 if v.dtype in (float, np.dtype('f8')) else 0) for i in range(n)]
            v.set_value(new)
            v.set_mask(None)
            m['cols'][op[1] % ncol][1] = new
        elif k == 'mask':
            if name == 'UGID':
                continue
            v = field[name]
            mk = v.get_mask(create=True).copy()
            mk[op[2] % n] = True
            v.set_mask(mk)
            m['cols'][op[1] % ncol][1] = [None if i == op[2] % n else x for i, x in enumerate(m['cols'][op[1] % ncol][1])]
        elif k == 'add':
            new = 'NEW%d' % len(m['cols'])
            field.add_variable(Variable(new, value=list(range(n)), dimensions=field.geom.dimensions), is_data=True)
            m['cols'].append([new, list(range(n))])
        elif k == 'rename':
            new = 'REN%d' % op[2]
            if new in [c for c, _ in m['cols']]:
                continue
            field[name].set_name(new)
            m['cols'][op[1] % ncol][0] = new
        elif k == 'extract':
            # A variable without its field loads the same values.
            v = field[name].extract()
            mask = v.get_mask()
            got = [None if mask is not None and mask[i] else (x.item() if hasattr(x, 'item') else x) for i, x in enumerate(v.get_value())]
            check(got == m['cols'][op[1] % ncol][1], 'extracted {} is {} expected {}', name, got, m['cols'][op[1] % ncol][1])
            continue
        label = label or k
    renamed = any(o[0] == 'rename' for o in case['ops'])
    if case['out'] and not renamed:
        out = os.path.join(os.getcwd(), 'out.' + EXT[case['out']])
        # Names of data variables determine the records' columns.
        field.write(out, driver='vector', fiona_driver=case['out'])
        with fiona.open(out) as src:
            recs = [(dict(r['properties']), shape(r['geometry'])) for r in src]
            check(src.crs.get('init') == 'epsg:4326' or case['out'] == 'GeoJSON' or 'datum' in src.crs, 'coordinate system {}', dict(src.crs))
        check(len(recs) == len(m['geom']), '{} features written, expected {}', len(recs), len(m['geom']))
        for i, (p, g) in enumerate(recs):
            check(same(g, m['geom'][i]), 'written geometry {}: {} expected {}', i, g.wkt, m['geom'][i].wkt)
            for c, vals in m['cols']:
                check(c in p, 'column {} not written: {}', c, sorted(p))
                check(p[c] == vals[i], 'written {}[{}] is {!r} expected {!r}', c, i, p[c], vals[i])
        back = ocgis.RequestDataset(out, driver='vector').get()
        check(back.crs == field.crs or case['out'] == 'GeoJSON', 'coordinate system {} expected {}', back.crs, field.crs)
        compare_field(back, m, 'read back')
    compare_field(field, m, 'field')
    return label if len(fs['feats']) > 1 else ''


# ---------------------------------------------------------------- selection geometries given as objects
def gen_obj(draw):
    form = pick(draw, ['dicts', 'dicts', 'records', 'bbox', 'bbox-str', 'point', 'point-str', 'shapely', 'field', 'geomvar'])
    fs = draw_features(draw, nmax=4, nulls=0, kinds=('Polygon', 'Polygon', 'Point'))
    case = {'fs': fs, 'form': form, 'union': chance(draw, .3), 'props': chance(draw, .7), 'crs': pick(draw, [None, 'wgs84', 'spherical']), 'mask': None}
    if form in ('bbox', 'bbox-str'):
        x0, y0 = draw(I(-20, 10)) / 2., draw(I(-20, 10)) / 2.
        case['vals'] = [x0, y0, x0 + draw(I(1, 10)) / 2., y0 + draw(I(1, 10)) / 2.]
    elif form in ('point', 'point-str'):
        case['vals'] = [draw(I(-20, 20)) / 2., draw(I(-20, 20)) / 2.]
    elif form in ('field', 'geomvar') and chance(draw, .3) and len(fs['feats']) > 1:
        case['mask'] = draw(I(0, len(fs['feats']) - 1))
    return case


def run_obj(case):
    import ocgis
    from shapely.geometry import box, Point
    from ocgis.variable.geom import GeometryVariable
    from ocgis.variable.base import Variable
    fs, form, union = case['fs'], case['form'], case['union']
    uid = fs['uname'] or 'UGID'
    geoms = [wkt(f['geom']) for f in fs['feats']]
    crs = G.crs_obj(case['crs'])
    named = None
    if form in ('dicts', 'records'):
        arg = []
        for f, g in zip(fs['feats'], geoms):
            d = {'geom': g}
            if case['props'] or form == 'records':
                d['properties'] = {c: prop(fs, f, c) for c in fs['cols']}
            if crs is not None and form == 'dicts':
                d['crs'] = crs
            arg.append(d)
        has = (case['props'] or form == 'records') and fs['uname'] is not None
        ids = [f['ID'] for f in fs['feats']] if has else list(range(1, len(geoms) + 1))
        named = fs['uname'] if has and fs['uname'] != 'UGID' else None
        name = uid if has else 'UGID'
    elif form in ('bbox', 'bbox-str', 'point', 'point-str'):
        arg = case['vals'] if 'str' not in form else '|'.join(map(str, case['vals']))
        geoms = [box(*case['vals']) if len(case['vals']) == 4 else Point(*case['vals'])]
        ids, name = [1], 'UGID'
    elif form == 'shapely':
        arg = geoms[0]
        geoms, ids, name = geoms[:1], [1], 'UGID'
    else:
        ids, name = [f['ID'] for f in fs['feats']], 'UGID'
        mk = [i == case['mask'] for i in range(len(geoms))]
        gv = GeometryVariable(name='the_geom', value=geoms, dimensions='ngeom', ugid=ids, crs=crs, mask=mk if case['mask'] is not None else None)
        arg = gv if form == 'geomvar' else ocgis.Field(geom=gv, crs=crs)
        keep = [i for i in range(len(geoms)) if not mk[i]]
        if case['mask'] is not None:
            if not union:
                raise Skip('masked selection geometries')
            geoms = [geoms[i] for i in keep]
    plain = isinstance(arg, (list, str))
    before = copy.deepcopy(arg) if plain else None
    if form == 'records':
        kw = {} if crs is None else {'crs': crs}
        f = ocgis.Field.from_records(arg, uid=named, union=union, **kw)
        rows = [f]
    else:
        kw = {'geom_uid': named} if named else {}
        g = {'crs': 'wgs84', 'grid': '1d', 'nt': None, 'nl': None, 'nr': None, 'ny': 3, 'nx': 4, 'bounds': True, 'lb': False, 'shear': [0, 0], 'time': None,
             'xe': [-12., -6., 0., 6., 12.], 'ye': [-12., -4., 4., 12.], 'vars': [{'name': 'foo', 'dims': ['y', 'x'], 'dtype': 'f8', 'mask': None, 'seed': 1, 'units': 'm'}]}
        ops = ocgis.OcgOperations(dataset=G.build_field(g), geom=arg, agg_selection=union, **kw)
        rows = list(ops.geom)
        check(len(ops.geom) == len(rows), 'length {} but {} fields', len(ops.geom), len(rows))
    if plain:
        def plainly(o):
            if isinstance(o, list):
                return [plainly(x) for x in o]
            if isinstance(o, dict):
                return {k: plainly(v) for k, v in o.items() if k != 'crs'}
            return o.wkt if hasattr(o, 'wkt') else o
        check(plainly(before) == plainly(arg), 'the argument changed from {} to {}', plainly(before), plainly(arg))
    if union:
        ref = geoms[0]
        for x in geoms[1:]:
            ref = ref.union(x)
        geoms, ids = [ref], [1]
    got = [(x, u) for r in rows for x, u in zip(r.geom.get_value().flatten(), r.geom.ugid.get_value().flatten())]
    check(len(got) == len(geoms), '{} geometries, expected {}', len(got), len(geoms))
    wantcrs = crs if crs is not None else (ocgis.env.DEFAULT_COORDSYS if form in ('records',) else None)
    for (x, u), g, i in zip(got, geoms, ids):
        check(same(x, g), 'geometry {} expected {}', x.wkt, g.wkt)
        if not (union and form in ('field', 'geomvar') and len(rows) == 0):
            check(int(u) == i, 'identifier {} expected {}', u, i)
    for r in rows:
        if not union and form not in ('field', 'geomvar'):
            check(r.geom.ugid.name == name, 'identifier is named {}, expected {}', r.geom.ugid.name, name)
        if wantcrs is not None and form in ('dicts', 'records', 'field', 'geomvar'):
            check(r.crs == wantcrs, 'coordinate system {} expected {}', r.crs, wantcrs)
    if form in ('dicts', 'records') and not union and (case['props'] or form == 'records'):
        k = 0
        for r in rows:
            n = r.geom.size
            for c in fs['cols']:
                gotv = [x.item() if hasattr(x, 'item') else x for x in r[c].get_value().flatten()]
                wantv = [prop(fs, f, c) for f in fs['feats'][k:k + n]]
                check(gotv == wantv, 'property {} is {} expected {}', c, gotv, wantv)
            k += n
    return form + ('+union' if union else '') if len(fs['feats']) > 1 else ''


TARGETS = [
    Target('select', gen_select, run_select, 900, 12000, 'at least two features'),
    Target('dataset', gen_rd, run_rd, 500, 7000, 'at least two features and missing values or a change before loading'),
    Target('object', gen_obj, run_obj, 400, 5000, 'at least two features'),
]
