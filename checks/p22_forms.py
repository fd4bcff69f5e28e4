"""Requests stated as keywords, as assignments one at a time (in a generated order, with detours over other values and rejected assignments
in between), as strings, as a query string and on the request dataset. Oracle: all forms agree on acceptance, on parameter values, on the
result (or its error) and on output files; strings of single parameters are compared with reference parsers written here; invalid values
must raise DefinitionValidationError and leave the request as it was. Non-trivial: at least three parameters, or a rejection."""
import datetime
import json
import os
import re
import shutil
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st
from checks.p11_spatial_subset import wkt

NAMES = ["Ada", "bob", "O'Neil"]
BOOLS = ['agg_selection', 'aggregate', 'calc_raw', 'snippet', 'vector_wrap', 'allow_empty', 'format_time', 'calc_sample_size', 'add_auxiliary_files',
         'select_nearest', 'melted', 'spatial_reorder', 'optimized_bbox_subset', 'interpolate_spatial_bounds', 'file_only']
DEFAULTS = {'vector_wrap': True, 'format_time': True, 'add_auxiliary_files': True}


def dt(v):
    return datetime.datetime(*v)


def dts(v, short):
    d = dt(v)
    return d.strftime('%Y%m%d') if short and v[3:] == [0, 0, 0] else d.strftime('%Y%m%d-%H%M%S')


def case_of(draw, s):
    return pick(draw, [s, s, s.upper(), ' ' + s, s.title()])


def draw_bool(draw):
    b = chance(draw)
    return [pick(draw, [b, b, int(b)]), case_of(draw, pick(draw, ['true', 't', '1'] if b else ['false', 'f', '0']))]


def num(draw, lo, hi, unit=.5):
    return draw(I(int(lo / unit), int(hi / unit))) * unit


def draw_calc(draw, s, grouped):
    names = [v['name'] for v in s['vars']]
    out, strs = [], []
    if grouped is None and chance(draw, .5):
        for k in range(draw(I(1, 2))):
            e = 'E%d=%s%s%d' % (k, pick(draw, names), pick(draw, ['+', '*', '-']), draw(I(1, 4)))
            out.append(e)
            strs.append(e)
        if chance(draw, .3):
            out.append({'func': 'abs', 'name': 'aBs', 'kwds': {}})
            strs.append('abs~aBs')
        return [out, '|'.join(strs)]
    for k in range(draw(I(1, 3))):
        nm = ['m_a', 'M_b', 'mc'][k]
        f = pick(draw, ['mean', 'min', 'std', 'threshold', 'freq_perc'] if grouped is not None else ['abs', 'ln', 'moving_window', 'mean'])
        kw, t = {}, ''
        if f == 'threshold':
            v, op = draw(I(0, 9)), pick(draw, ['gt', 'lte'])
            kw, t = {'threshold': v, 'operation': op}, '!threshold~%s!operation~%s' % (v, case_of(draw, op).strip())
        elif f == 'freq_perc':
            v = pick(draw, [90, 12.5])
            kw, t = {'percentile': v}, '!percentile~%s' % v
        elif f == 'moving_window':
            kw, t = {'k': 3, 'operation': 'mean', 'mode': 'same'}, '!k~3!mode~same!operation~mean'
        d = {'func': f, 'name': nm, 'kwds': kw}
        if not kw and chance(draw):
            del d['kwds']
        if chance(draw, .25):
            out.append('%s~%s%s' % (f, nm, t))
        else:
            out.append(d)
        strs.append('%s~%s%s' % (case_of(draw, f).strip(), nm, t))
    return [out, '|'.join(strs)]


def draw_params(draw, s):
    P = {}
    kind = pick(draw, ['none', 'bbox', 'bbox', 'file', 'file', 'file', 'dicts', 'point'])
    x0, y0, x1, y1 = G.extent(s)
    if kind == 'bbox':
        a = [num(draw, x0 - 1, x1), num(draw, y0 - 1, y1)]
        b = [a[0] + num(draw, .5, 8), a[1] + num(draw, .5, 8)]
        P['geom'] = [a + b, '|'.join(repr(v) if chance(draw, .8) else '%g ' % v for v in a + b)]
    elif kind == 'point':
        a = [num(draw, x0 + .5, x1), num(draw, y0 + .5, y1)]
        P['geom'] = [a, '|'.join(map(repr, a))]
        if chance(draw, .4):
            v = pick(draw, [.75, 1.5, 2.])
            P['search_radius_mult'] = [v, repr(v)]
    elif kind == 'file':
        P['geom'] = ['FILE', 'FILE']
        if chance(draw, .3):
            P['geom_uid'] = ['ID2', 'ID2']
        if chance(draw, .4):
            ids = draw(st.permutations([1, 2, 3]))[:draw(I(1, 2))]
            ids = [10 * i for i in ids] if 'geom_uid' in P else list(ids)
            P['geom_select_uid'] = [ids, '|'.join(map(str, ids))]
        elif chance(draw, .4):
            w = pick(draw, ["NAME='Ada'", "UGID>1", "NAME IN ('bob','Ada')", "ID2=20", "NAME='Zed'"])
            P['geom_select_sql_where'] = [w, w]
    elif kind == 'dicts':
        P['geom'] = ['DICTS', None]
    if kind == 'none' and chance(draw, .4):
        d, t = [], []
        for k, n in (('nr', s['nr']), ('nt', s['nt']), ('nl', s['nl']), ('ny', s['ny']), ('nx', s['nx'])):
            v = None
            if n is not None and chance(draw, .6):
                v = draw(I(-n, n - 1))
            d.append(v)
            t.append(pick(draw, ['none', 'None', 'NONE']) if v is None else str(v))
        if chance(draw, .3):
            d[3] = [0, 1]
            t = None
        P['slice'] = [d, '|'.join(t) if t else None]
    if kind not in ('none', 'point') and chance(draw, .4):
        P['spatial_operation'] = (lambda o: [o, case_of(draw, o)])(pick(draw, ['clip', 'intersects']))
    if s['nt'] is not None:
        y = 2000
        if chance(draw, .3):
            a = [y + draw(I(0, 2)), draw(I(1, 12)), draw(I(1, 28))]
            b = [a[0] + draw(I(0, 3)), draw(I(1, 12)), draw(I(1, 28))]
            v = [q + pick(draw, [[0, 0, 0], [6, 30, 15]]) for q in (a, b)]
            v.sort()
            P['time_range'] = [v, '|'.join(dts(q, True) for q in v)]
        if chance(draw, .3):
            r = {}
            if chance(draw, .7):
                r['month'] = sorted({draw(I(1, 12)) for _ in range(draw(I(1, 5)))})
            if not r or chance(draw, .4):
                r['year'] = sorted({y + draw(I(0, 3)) for _ in range(draw(I(1, 3)))})
            P['time_region'] = [r, ','.join('%s~%s' % (case_of(draw, k).strip(), '|'.join(map(str, r[k]))) for k in draw(st.permutations(sorted(r))))]
        if chance(draw, .15):
            P['time_subset_func'] = ['FUNC', None]
    if s['nl'] is not None and chance(draw, .5):
        a, b = sorted([num(draw, 0, 30), num(draw, 0, 30)])
        P['level_range'] = [[a, b], '%s|%s' % (a, int(b) if b == int(b) else b)]
    if chance(draw, .25):
        P['conform_units_to'] = (lambda u: [u, u])(pick(draw, ['celsius', 'K', 'degF']))
    grouped = None
    if s['nt'] is not None and chance(draw, .35):
        grouped = pick(draw, [['month'], ['year'], ['month', 'year'], ['day', 'month'], 'all', [[12, 1, 2], [6, 7, 8]], [[1, 2, 3], 'unique'], [[6, 7, 8], 'year']])
        if isinstance(grouped, str):
            P['calc_grouping'] = [grouped, case_of(draw, grouped)]
        elif isinstance(grouped[0], list):
            P['calc_grouping'] = [grouped, None]
        else:
            P['calc_grouping'] = [grouped, '|'.join(case_of(draw, g) for g in grouped)]
    if chance(draw, .8 if grouped else .25):
        P['calc'] = draw_calc(draw, s, grouped)
    if chance(draw, .3):
        P['abstraction'] = (lambda o: [o, case_of(draw, o)])(pick(draw, ['point', 'polygon', 'auto']))
    if chance(draw, .3):
        P['output_crs'] = [pick(draw, [4326, 4326, 32614]), None]
        P['output_crs'][1] = str(P['output_crs'][0])
    if chance(draw, .3):
        P['spatial_wrapping'] = (lambda o: [o, case_of(draw, o)])(pick(draw, ['wrap', 'unwrap']))
    f = pick(draw, ['ocgis', 'ocgis', 'numpy', 'csv', 'csv+', 'csv-shp', 'shp', 'nc', 'geojson'])
    if f != 'ocgis' or chance(draw):
        P['output_format'] = [f, case_of(draw, f)]
    if chance(draw, .3):
        P['prefix'] = (lambda o: [o, o])(pick(draw, ['Out', 'a b', 'x-1']))
    if chance(draw, .15):
        P['output_format_options'] = [{'data_model': 'NETCDF3_CLASSIC'}, None]
    for b in BOOLS:
        p = {'agg_selection': .5 if kind == 'file' else .1, 'aggregate': .3, 'allow_empty': .5, 'file_only': .05, 'snippet': .15, 'format_time': .1}.get(b, .15)
        if chance(draw, p):
            P[b] = draw_bool(draw)
    if chance(draw, .1):
        P['backend'] = ['ocg', 'OCG']
    return P


def draw_base(draw):
    s = G.draw_field(draw, nt=(1, 6), nl='maybe', nr=None, ny=(2, 4), nx=(2, 4), nvars=(1, 2), names=['tas', 'Pr_2'], grid=('1d', '1d', '2d'),
                     t={'span': 120, 'calendars': ('standard', 'standard', '360_day', 'noleap')}, x={'lo': -20, 'hi': 20, 'maxstep': 5, 'desc': False},
                     y={'lo': -20, 'hi': 10, 'maxstep': 5, 'desc': False}, crs='wgs84')
    if s['nt'] is not None and chance(draw, .5):
        s['nt'] = 6
    for v in s['vars']:
        v['units'] = 'K'
    s['time'] = G.draw_time(draw, s['nt'], span=120, calendars=('standard', 'standard', '360_day', 'noleap'))
    return {'field': s, 'shapes': [G.draw_sel(draw, s, ('poly', 'poly', 'multi'), pad=1) for _ in range(3)], 'desc': chance(draw, .2)}


def gen(draw):
    c = draw_base(draw)
    P = draw_params(draw, c['field'])
    c['params'] = P
    c['order'] = draw(st.permutations(sorted(P)))
    # Values assigned on the way.
    D = draw_params(draw, c['field']) if chance(draw, .6) else {}
    c['detour'] = {k: D[k] for k in sorted(D) if k in P and chance(draw, .7)}
    bad = []
    for _ in range(draw(I(0, 2))):
        n = pick(draw, sorted(INVALID))
        bad.append([draw(I(0, len(P))), n, draw(I(0, len(INVALID[n]) - 1))])
    c['bad'] = bad
    c['strings'] = [chance(draw) for _ in P]
    c['one'] = chance(draw, .3)
    return c


# Invalid values: what to give, and the forms it may be given in ('s': also in a query).
INVALID = {
    'spatial_operation': [('clips', 's'), ('', ''), (5, '')],
    'abstraction': [('line', 's'), (5, '')],
    'output_format': [('foo', 's'), (5, ''), ('netcdf', 's'), ('none', 's')],
    'backend': [('esmf', 's')],
    'spatial_wrapping': [('around', 's'), (5, '')],
    'calc': [('mean', 's'), (['mean'], ''), ([5], ''), ([{'func': 'mean'}], ''), ([{'name': 'm'}], ''), ([{'func': 'nope', 'name': 'm'}], ''), ('nope~m', 's'),
             ('threshold~t', 's'), ('threshold~t!threshold', 's'), ('mean~m|min~m', 's'), ([{'func': 'mean', 'name': 'm'}, {'func': 'min', 'name': 'm'}], ''),
             ([{'func': 'threshold', 'name': 't'}, 'e=tas+4'], ''), ('threshold~t|e=tas*4', 's'), (['e=tas+4', {'func': 'threshold', 'name': 't'}], ''), (5, ''),
             ({'func': 'mean', 'name': 'm'}, ''), ([{'func': 'mean', 'name': 'm', 'foo': 1}], ''), ('mean~m!foo~3', 's'), ([{'func': 5, 'name': 'm'}], ''), ([None], ''),
             (['mean~m', 'mean~m'], '')],
    'calc_grouping': [('week', 's'), (['week'], ''), ('month|month', 's'), (['month', 'month'], ''), ([[1, 13]], ''), ([[1, 1]], ''), ([[1, 2], [2, 3]], ''), ([[1, 2], 'foo'], ''),
                      (['month', 'all'], ''), ('all|month', 's'), ([1, 2], ''), (5, ''), (['year', 'year'], ''), ('year|year', 's'), ([['1']], '')],
    'geom_select_uid': [('a', 's'), ('1|1', 's'), ([1, 1], ''), ('1.5', 's'), ([1.5], ''), (5, ''), ('1|b', 's'), ([2, 2.5], '')],
    'geom_uid': [(5, '')],
    'geom_select_sql_where': [(5, '')],
    'geom': [([1, 2, 3], ''), ('1|2|3', 's'), ('1|2|3|4|5', 's'), ([1, 2, 3, 4, 5], ''), (5, ''), ('.', 's'), ([], ''), ([{'properties': {'UGID': 1}}], ''), ([1.], '')],
    'dir_output': [('no/such/dir', 's'), (5, '')],
    'prefix': [(5, ''), ('..', 's'), ('.', 's'), ('a/../..', 's')],
    'slice': [([None, None], ''), ('none|none', 's'), ([None, 'a', None, None, None], ''), ('none|a|none|none|none', 's'), ([None, 1.5, None, None, None], ''), ('none|1.5|none|none|none', 's'),
              (4, ''), ([None, [1, 2, 3, 4], None, None, None], ''), ([None, ['a', 2], None, None, None], ''), ([None] * 6, '')],
    'level_range': [([5, 1], ''), ('5|1', 's'), ([1], ''), ('1', 's'), ([1, 2, 3], ''), ('1|2|3', 's'), (['a', 'b'], ''), ('a|b', 's'), (5, ''), ([None, 1], '')],
    'time_range': [('20000101', 's'), ('foo|bar', 's'), ('2000|2001', 's'), ('20010101|20000101', 's'), ('20001301|20010101', 's'), ('20000101|20010101|20020101', 's'), (5, ''),
                   (['20000101', '20010101'], '')],
    'time_region': [({'mnth': [1]}, ''), ('mnth~1', 's'), ('month', 's'), ('month~a', 's'), ('month~1~2', 's'), (5, ''), ('month~', 's'), ([1], '')],
    'conform_units_to': [('not_a_unit', 's'), (5, '')],
    'search_radius_mult': [('a', 's'), ('0', 's'), ('-1', 's'), (0., ''), (-.5, ''), ([1.], '')],
    'output_crs': [('foo', 's'), ('999999', 's'), (4326, ''), ([4326], '')],
    'regrid_options': [('foo', 's'), ({'foo': 1}, ''), ({'value_mask': 5}, ''), (5, '')],
    'optimizations': [({}, ''), ({'foo': 1}, ''), ('foo', 's'), (5, '')],
    'callback': [('foo', 's'), (5, '')],
    'time_subset_func': [('foo', 's'), (5, '')],
    'output_format_options': [('foo', 's'), (5, '')],
}
for _b in BOOLS:
    INVALID[_b] = [('foo', 's'), ('yes', 's'), ('none', 's'), ('2', 's'), (1.5, ''), ([True], '')]


def subset_func(value, bounds=None):
    return list(range(0, len(value), 2))


def obj(name, v, case):
    """Object form of a parameter."""
    if name == 'geom':
        if v == 'FILE':
            return os.path.abspath('../g.shp') if not os.path.exists('g.shp') else os.path.abspath('g.shp')
        if v == 'DICTS':
            return [{'geom': wkt(w), 'properties': {'UGID': 3 + i, 'ID2': 7 - i}, 'crs': G.crs_obj('wgs84')} for i, w in enumerate(case['shapes'][:2])]
    if name == 'time_range' and isinstance(v, list) and isinstance(v[0], list):
        return [dt(q) for q in v]
    if name == 'output_crs' and isinstance(v, int):
        from ocgis.variable.crs import CoordinateReferenceSystem
        return CoordinateReferenceSystem(epsg=v)
    if name == 'time_subset_func' and v == 'FUNC':
        return subset_func
    return json.loads(json.dumps(v))


def string(name, v):
    if name == 'geom' and v == 'FILE':
        return os.path.abspath('g.shp')
    return v


def fields_state(fs):
    return [(f.geom.get_value().ravel()[0].wkb, int(f.geom.ugid.get_value().ravel()[0]), f.crs and sorted(f.crs.value.items(), key=str),
             sorted((v.name, str(v.get_value().tolist()), str(v.dtype)) for v in f.values() if hasattr(v, 'dtype') and v.name not in (f.geom.name,) and not v.name.startswith('latitude_long')
                    and v.dtype is not None and v.dtype != object)) for f in fs]


def norm(name, v):
    if name == 'dataset':
        return None
    if name == 'geom':
        if v is None:
            return None
        try:
            return fields_state(v)
        except (ValueError, RuntimeError) as e:
            return repr(type(e))
    if name == 'calc' and v is not None:
        return [(c['func'], c['name'], sorted(c['kwds'].items()), str(c['meta_attrs']), c['ref'].__name__) for c in v]
    if name == 'output_crs' and v is not None:
        return v.proj4
    if name in ('time_subset_func', 'callback'):
        return v and v.__name__
    if isinstance(v, tuple):
        v = list(v)
    if isinstance(v, dict):
        return sorted((k, str(x) if isinstance(x, slice) else x) for k, x in v.items())
    return v


def state(ops):
    d = ops.as_dict()
    return {k: norm(k, d[k]) for k in sorted(d) if k != 'dir_output'}


def same_state(a, b, what):
    check(set(a) == set(b), '{}: parameters {} and {}', what, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
    for k in a:
        check(a[k] == b[k] and type(a[k]) == type(b[k]) or a[k] == b[k] and isinstance(a[k], (int, float)), '{}: {} is {!r} expected {!r}', what, k, a[k], b[k])


def content(path):
    """Comparable content of output files."""
    import netCDF4
    out = {}
    for r, _, fs in os.walk(path):
        for f in sorted(fs):
            p = os.path.join(r, f)
            k = os.path.relpath(p, path)
            if f.endswith('_metadata.txt') or f.endswith('.log'):
                out[k] = None
            elif f.endswith('.nc'):
                with netCDF4.Dataset(p) as ds:
                    out[k] = str([(n, v.dimensions, str(v.dtype), np.ma.filled(v[:].astype(object) if v.dtype != str else v[:], 'M').tolist() if v.shape else None,
                                   {a: str(v.getncattr(a)) for a in v.ncattrs()}) for n, v in ds.variables.items()]) + str(
                        {a: ds.getncattr(a) for a in ds.ncattrs() if a != 'history'}) + ds.data_model
            else:
                b = open(p, 'rb').read()
                if f.endswith('.dbf'):
                    b = b[:1] + b[4:]
                out[k] = b
    return out


def execute(ops, where):
    """Result of a request or the kind of its error."""
    import ocgis
    if os.path.exists(where):
        shutil.rmtree(where)
    os.makedirs(where)
    ops.dir_output = where
    try:
        ret = ops.execute()
    except Exception as e:
        return ('error', type(e).__name__), {}
    if isinstance(ret, str):
        return ('path', os.path.relpath(ret, where)), content(where)
    return ('ok', G.snap_coll(ret)), content(where)


def same_result(a, b, what):
    check(a[0][0] == b[0][0], '{}: {} expected {}', what, a[0][:2], b[0][:2])
    if a[0][0] == 'ok':
        d = G.diff_coll(b[0][1], a[0][1])
        check(d is None, '{}: {}', what, d)
    else:
        check(a[0] == b[0], '{}: {} expected {}', what, a[0], b[0])
    check(sorted(a[1]) == sorted(b[1]), '{}: files {} expected {}', what, sorted(a[1]), sorted(b[1]))
    for k in a[1]:
        check(a[1][k] == b[1][k], '{}: content of {} is {} expected {}', what, k, str(a[1][k])[:1500], str(b[1][k])[:1500])


def setup(case):
    import fiona
    from shapely.geometry import mapping, MultiPolygon
    import warnings
    warnings.simplefilter('ignore')
    G.write_nc(case['field'], 'd.nc')
    rng = [0, 1, 2][::-1] if case['desc'] else [0, 1, 2]
    with fiona.open('g.shp', 'w', driver='ESRI Shapefile', crs='EPSG:4326', schema={'geometry': 'MultiPolygon', 'properties': {'UGID': 'int', 'ID2': 'int', 'NAME': 'str:10'}}) as f:
        for i in rng:
            g = wkt(case['shapes'][i])
            if g.geom_type == 'Polygon':
                g = MultiPolygon([g])
            f.write({'geometry': mapping(g), 'properties': {'UGID': i + 1, 'ID2': 10 * (i + 1), 'NAME': NAMES[i]}})


def rd(case, **kw):
    import ocgis
    return ocgis.RequestDataset(os.path.abspath('d.nc'), variable=[v['name'] for v in case['field']['vars']] if not case.get('one') else case['field']['vars'][0]['name'], **kw)


def assign(ops, todo, bad, what, DVE):
    """Assign one at a time; assignments which are not valid yet are tried again. Returns the names never accepted."""
    todo = list(todo)
    n = 0
    while todo:
        left = []
        for name, v in todo:
            for k, bn, bv in bad:
                if k == n:
                    reject(ops, bn, bv, what, DVE)
            n += 1
            before = state(ops)
            try:
                setattr(ops, name, v)
            except DVE:
                left.append((name, v))
                same_state(state(ops), before, '{}: after rejecting {}={!r}'.format(what, name, v))
        if len(left) == len(todo):
            return [k for k, _ in left]
        todo = left
    return []


def reject(ops, name, v, what, DVE):
    before = state(ops)
    try:
        setattr(ops, name, v)
    except DVE:
        same_state(state(ops), before, '{}: after rejecting {}={!r}'.format(what, name, v))
    except Exception as e:
        raise Violation('{}: {}={!r} raised {!r}'.format(what, name, v, e))
    else:
        raise Violation('{}: {}={!r} is accepted as {!r}'.format(what, name, v, norm(name, getattr(ops, name))))


def query(params):
    from urllib.parse import quote, quote_plus
    return '&'.join('%s=%s' % (k, (quote if i % 2 else quote_plus)(v)) for i, (k, v) in enumerate(params))


class Stuck(Exception):
    """The parameters of a detour and the final ones are not valid together."""


def known(case):
    return False


def run(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError as DVE
    from ocgis.ops.query import QueryInterface
    setup(case)
    P = case['params']
    K = {k: obj(k, v[0], case) for k, v in P.items()}
    S = {k: string(k, v[1]) if v[1] is not None else K[k] for k, v in P.items()}
    M = {k: (S if f else K)[k] for f, k in zip(case['strings'], sorted(P))}
    try:
        ops = ocgis.OcgOperations(dataset=rd(case), **K)
        err = None
    except DVE as e:
        err = e
    except Exception as e:
        raise Violation('keywords {}: {!r}'.format(K, e))
    if err is None:
        want = state(ops)
        res = execute(ops, 'o1')
        same_state(state(ops), want, 'after execution')

    def judge(make, what):
        try:
            o = make()
        except DVE as e:
            check(err is not None, '{}: {!r} ({}); accepted as keywords', what, e, e.message)
            return
        except Violation:
            raise
        except Stuck:
            return
        except Exception as e:
            raise Violation('{}: {!r}'.format(what, e))
        check(err is None, '{}: accepted; as keywords {}', what, err and err.message)
        same_state(state(o), want, what)
        same_result(execute(o, 'o2'), res, what)
        same_state(state(o), want, what + ', after execution')
        return o
    # Strings.
    judge(lambda: ocgis.OcgOperations(dataset=rd(case), **M), 'strings %s' % M)

    # Assignment.
    def make():
        o = ocgis.OcgOperations(dataset=rd(case))
        det = [(k, obj(k, case['detour'][k][0], case)) for k in case['order'] if k in case['detour']]
        bad = [(n, b, INVALID[b][i][0]) for n, b, i in case['bad']]
        assign(o, det, bad, 'detour', DVE)
        left = assign(o, [(k, (K if case['strings'][i] else S)[k]) for i, k in enumerate(case['order'])], bad, 'assignment', DVE)
        if left:
            if case['detour']:
                raise Stuck
            raise DVE(left[0], 'not accepted: ' + str(left))
        return o
    # A detour which cannot be left again is not part of the question: the parameter values are checked after a valid request only.
    o = judge(make, 'assignment in order %s' % (case['order'],))
    if o is not None:
        # A second execution of the same request.
        same_result(execute(o, 'o2'), res, 'second execution')

    # Query string, assigning what has no string form.
    def make_query():
        v = case['field']['vars'][0]['name']
        q = [('uri', os.path.abspath('d.nc'))]
        if case.get('one'):
            q.append(('variable', v))
        q += [(k, S[k]) for k in case['order'] if P[k][1] is not None and S[k] != '']
        if any(k == 'dir_output' for k, _ in q):
            raise Skip('')
        o = QueryInterface(query(q)).get_operations()
        left = assign(o, [(k, K[k]) for k in case['order'] if P[k][1] is None], [], 'query', DVE)
        if left:
            raise DVE(left[0], 'not accepted: ' + str(left))
        return o
    # A query is validated at once: what has no string form must not be needed.
    if all(v[1] is not None for v in P.values()):
        judge(make_query, 'query')
    # Subsets stated on the request dataset.
    sub = [k for k in ('time_range', 'time_region', 'level_range', 'time_subset_func') if k in K]
    if sub and err is None and not P.get('snippet', [False])[0]:
        from ocgis.exc import RequestValidationError
        try:
            ds = rd(case, **{k: M[k] for k in sub})
        except RequestValidationError:
            # The dataset wants every year and month of the region to occur in the range.
            check('time_range' in sub and 'time_region' in sub, 'subsets {} are rejected by the request dataset', {k: M[k] for k in sub})
            (a, b), reg = P['time_range'][0], P['time_region'][0]
            ms = {m % 12 + 1 for m in range(12 * a[0] + a[1] - 1, 12 * b[0] + b[1])}
            check(not (set(reg.get('month') or ()) <= ms and set(reg.get('year') or ()) <= set(range(a[0], b[0] + 1))),
                  'overlapping subsets {} are rejected by the request dataset', {k: M[k] for k in sub})
            return 'rejected by dataset'
        o = ocgis.OcgOperations(dataset=ds, **{k: v for k, v in K.items() if k not in sub})
        same_result(execute(o, 'o2'), res, 'subsets on the request dataset')
    if err is not None:
        return 'rejected'
    return '' if len(P) < 3 else (res[0][0] if res[0][0] == 'error' else P.get('output_format', ['ocgis'])[0])


# ---------------------------------------------------------------- invalid values in every form
def gen_invalid(draw):
    c = draw_base(draw)
    n = pick(draw, sorted(INVALID))
    c['name'], c['which'] = n, draw(I(0, len(INVALID[n]) - 1))
    c['one'] = True
    P = draw_params(draw, c['field']) if chance(draw, .7) else {}
    P.pop('output_crs', None)
    keep = [k for k in sorted(P) if k != n and chance(draw, .5)]
    c['params'] = {k: P[k] for k in keep}
    return c


def run_invalid(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError as DVE
    from ocgis.ops.query import QueryInterface
    setup(case)
    name = case['name']
    bad, forms = INVALID[name][case['which']]
    P = {k: v for k, v in case['params'].items()}
    K = {k: obj(k, v[0], case) for k, v in P.items()}
    valid = True
    try:
        ops = ocgis.OcgOperations(dataset=rd(case), **K)
    except DVE:
        valid = False
        P, K = {}, {}
        ops = ocgis.OcgOperations(dataset=rd(case))
    if bad is not None and bad != [] and bad != {} or name != 'geom_select_uid':
        if bad != '' or name not in ('prefix', 'dir_output'):
            try:
                o = ocgis.OcgOperations(dataset=rd(case), **dict(K, **{name: bad}))
            except DVE:
                pass
            except Exception as e:
                raise Violation('keyword {}={!r} raised {!r}'.format(name, bad, e))
            else:
                raise Violation('keyword {}={!r} is accepted as {!r}'.format(name, bad, norm(name, getattr(o, name))))
    before = execute(ops, 'o1')
    reject(ops, name, bad, 'assignment', DVE)
    same_result(execute(ops, 'o2'), before, 'after a rejected assignment')
    if forms == 's':
        q = [('uri', os.path.abspath('d.nc')), (name, bad)]
        for k in sorted(P):
            if P[k][1] is not None:
                q.insert(1 if case['which'] % 2 else 2, (k, string(k, P[k][1])))
        try:
            o = QueryInterface(query(q)).get_operations()
        except DVE:
            pass
        except Exception as e:
            raise Violation('query {}={!r} raised {!r}'.format(name, bad, e))
        else:
            raise Violation('query {}={!r} is accepted as {!r}'.format(name, bad, norm(name, getattr(o, name))))
    return name


# ---------------------------------------------------------------- strings of single parameters against reference parsers
def tok(draw, kinds):
    return pick(draw, kinds)(draw)


def t_int(draw):
    return str(draw(I(-3, 14)))


def t_float(draw):
    return pick(draw, ['1.5', '-2.0', '3.', '.5', '1e1', '0', '7', '1e-1', '-0'])


def t_word(draw):
    return pick(draw, ['none', 'None', 'all', 'month', 'year', 'day', 'unique', 'foo', '', ' ', 'a', 'nan', 'inf', 'mean', 'e=tas+1', 'true', 'year '])


def t_date(draw):
    return pick(draw, ['20000101', '19991231', '20000230', '20010101-000000', '20001231-235959', '20000101-240000', '20000101-', '2000-01-01', '20001301', '20000229', '19000229'])


def t_calc(draw):
    return pick(draw, ['mean~m', 'min~n', 'MAX~q', 'mean~m!', 'threshold~t!threshold~3!operation~gt', 'threshold~t!operation~gt!threshold~2.5', 'threshold~t!threshold~3',
                       'freq_perc~p!percentile~90', 'freq_perc~p!percentile~90!x~1', 'freq_perc~p!percentile', 'e=tas+1', 'E=tas*2', 'nope~m', 'mean', '~m', 'mean~M'])


def t_region(draw):
    k = pick(draw, ['month', 'year', 'Month', 'foo', ''])
    return k + pick(draw, ['~', '~', '~', '', '=']) + '|'.join(draw(st.lists(st.sampled_from(['1', '12', '6', '2000', '1999', 'a', '']), min_size=0, max_size=3)))


STR = {
    'slice': ([t_int, t_int, lambda d: 'none', lambda d: 'None', t_word, t_float], '|', (4, 6)),
    'level_range': ([t_float, t_float, t_float, t_word], '|', (1, 3)),
    'time_range': ([t_date, t_date, t_date, t_word], '|', (1, 3)),
    'time_region': ([t_region], ',', (1, 2)),
    'calc_grouping': ([t_word, lambda d: pick(d, ['month', 'year', 'day'])], '|', (1, 3)),
    'geom_select_uid': ([t_int, t_int, t_word, t_float], '|', (1, 3)),
    'search_radius_mult': ([t_float, t_word], '|', (1, 1)),
    'aggregate': ([t_int, t_word, lambda d: pick(d, ['T', 'F', 'TRUE', 'False', ' true', '1 '])], '|', (1, 1)),
    'calc': ([t_calc], '|', (1, 3)),
}
INVALID_VALUE = 'INVALID'
ANY = 'ANY'


def gen_strings(draw):
    p = pick(draw, sorted(STR))
    kinds, sep, (lo, hi) = STR[p]
    n = 5 if p == 'slice' and chance(draw, .8) else 2 if p.endswith('range') and chance(draw, .7) else draw(I(lo, hi))
    return {'p': p, 'v': sep.join(tok(draw, kinds) for _ in range(n)), 'via': pick(draw, ['keyword', 'assign', 'query'])}


def ref(p, v):
    """Meaning of a string: a value, INVALID or ANY (not specified)."""
    v = v.strip()
    if p != 'calc':
        v = v.lower()
    if v == '':
        return INVALID_VALUE
    if v.lower() == 'none' and p != 'aggregate':
        return None
    el = [e.strip() for e in v.split('|')]
    if p == 'slice':
        out = []
        for e in el:
            if e == 'none':
                out.append(slice(None))
            elif re.match(r'^-?\d+$', e):
                i = int(e)
                out.append(slice(i, i + 1) if i >= 0 else slice(i, None))
            else:
                return INVALID_VALUE
        if len(out) != 5:
            return INVALID_VALUE
        return sorted(zip(('realization', 'time', 'level', 'y', 'x'), map(str, out)))
    if p == 'level_range':
        try:
            out = [float(e) for e in el]
        except ValueError:
            return INVALID_VALUE
        if any(not np.isfinite(x) for x in out):
            return ANY
        return out if len(out) == 2 and out[0] <= out[1] else INVALID_VALUE
    if p == 'time_range':
        out = []
        for e in el:
            m = re.match(r'^(\d{4})(\d\d)(\d\d)(?:-(\d\d)(\d\d)(\d\d))?$', e)
            if not m:
                return INVALID_VALUE
            try:
                out.append(datetime.datetime(*[int(g) for g in m.groups() if g is not None]))
            except ValueError:
                return INVALID_VALUE
        return out if len(out) == 2 and out[0] <= out[1] else INVALID_VALUE
    if p == 'time_region':
        out = {}
        for e in v.split(','):
            m = re.match(r'^(month|year)~(\d+(?:\|\d+)*)$', e)
            if not m:
                return INVALID_VALUE
            if m.group(1) in out:
                return ANY
            out[m.group(1)] = [int(g) for g in m.group(2).split('|')]
        if any(not 1 <= x <= 12 for x in out.get('month', [])):
            return ANY
        return sorted({'month': out.get('month'), 'year': out.get('year')}.items())
    if p == 'calc_grouping':
        if el == ['all']:
            return 'all'
        if el == ['unique']:
            return ANY
        if len(set(el)) != len(el) or any(e not in ('day', 'month', 'year') for e in el):
            return INVALID_VALUE if not (set(el) <= {'day', 'month', 'year', 'unique'} and len(set(el)) == len(el)) else ANY
        return set(el)
    if p == 'geom_select_uid':
        if any(not re.match(r'^-?\d+$', e) for e in el) or len({int(e) for e in el}) != len(el):
            return INVALID_VALUE
        return [int(e) for e in el]
    if p == 'search_radius_mult':
        try:
            x = float(v)
        except ValueError:
            return INVALID_VALUE
        return ANY if not np.isfinite(x) else x if x > 0 else INVALID_VALUE
    if p == 'aggregate':
        return True if v in ('true', 't', '1') else False if v in ('false', 'f', '0') else INVALID_VALUE
    if p == 'calc':
        out, names = [], []
        for e in el:
            if '~' not in e:
                if '=' not in e:
                    return INVALID_VALUE
                out.append((e, None, []))
                continue
            f, _, r = e.partition('~')
            name, *kw = r.split('!')
            f = f.lower()
            d = {}
            for k in kw:
                a = k.split('~')
                if len(a) != 2:
                    return INVALID_VALUE
                try:
                    d[a[0]] = float(a[1])
                except ValueError:
                    d[a[0]] = a[1].lower()
            allowed = {'mean': [], 'min': [], 'max': [], 'threshold': ['threshold', 'operation'], 'freq_perc': ['percentile']}.get(f)
            if allowed is None or set(d) - set(allowed) or f == 'threshold' and set(d) != set(allowed) or name in names:
                return INVALID_VALUE
            if f == 'freq_perc' and not d:
                return ANY
            names.append(name)
            out.append((f, name, sorted(d.items())))
        return out


def run_strings(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError as DVE
    from ocgis.ops.query import QueryInterface
    from urllib.parse import quote
    p, v = case['p'], case['v']
    want = ref(p, v)
    s = {'nt': 2, 'nl': None, 'nr': None, 'ny': 2, 'nx': 2, 'grid': '1d', 'bounds': False, 'xe': [0., 1., 2.], 'ye': [0., 1., 2.], 'shear': [0, 0], 'lb': False, 'crs': 'wgs84',
         'time': {'units': 'days since 2000-01-01', 'calendar': 'standard', 'edges': [0., 1., 2.], 'bounds': False},
         'vars': [{'name': 'tas', 'dims': ['t', 'y', 'x'], 'dtype': 'f8', 'seed': 1, 'mask': None}]}
    G.write_nc(s, 'd.nc')
    kw = {'calc_grouping': ['month']} if p == 'calc' and '=' not in v else {}
    if p == 'calc' and want not in (None, INVALID_VALUE, ANY) and '=' in v and any('=' not in f for f, _, _ in want):
        raise Skip('expressions are not grouped, statistics must be')
    try:
        if case['via'] == 'keyword':
            ops = ocgis.OcgOperations(dataset=ocgis.RequestDataset('d.nc'), **dict(kw, **{p: v}))
        elif case['via'] == 'assign':
            ops = ocgis.OcgOperations(dataset=ocgis.RequestDataset('d.nc'), **kw)
            setattr(ops, p, v)
        else:
            if v.strip() == '':
                raise Skip('blank values are not part of a query')
            ops = QueryInterface('uri=d.nc&{}={}{}'.format(p, quote(v), '&calc_grouping=month' if kw else '')).get_operations()
    except DVE as e:
        check(want in (INVALID_VALUE, ANY) if not isinstance(want, (set, list)) else False, '{} {}={!r}: {} expected {!r}', case['via'], p, v, e.message, want)
        return 'rejected'
    except Skip:
        raise
    except Exception as e:
        raise Violation('{} {}={!r}: {!r} expected {!r}'.format(case['via'], p, v, e, want))
    got = norm(p, getattr(ops, p))
    if isinstance(want, str) and want == ANY:
        return ''
    if p == 'calc' and got is not None:
        got = [(f, n, k) for f, n, k, _, _ in got]
    if isinstance(want, set):
        got = set(got)
    check(got == want, '{} {}={!r}: value is {!r} expected {!r}', case['via'], p, v, got, want)
    return p


# ---------------------------------------------------------------- datasets in queries
def gen_query(draw):
    n = draw(I(1, 3))
    c = {'files': [draw(I(0, 2)) for _ in range(n)]}
    for k, vals in (('variable', ['tas', 'pr']), ('field_name', ['A', 'B', 'c']), ('rename_variable', ['X', 'y2', 'Z'])):
        if chance(draw, .5):
            m = n if chance(draw, .75) else draw(I(1, 3))
            c[k] = [pick(draw, vals) for _ in range(m)]
    if 'rename_variable' in c and 'variable' not in c:
        del c['rename_variable']
    return c


def run_query(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError as DVE
    from ocgis.ops.query import QueryInterface
    s = {'nt': 2, 'nl': None, 'nr': None, 'ny': 2, 'nx': 2, 'grid': '1d', 'bounds': False, 'xe': [0., 1., 2.], 'ye': [0., 1., 2.], 'shear': [0, 0], 'lb': False, 'crs': 'wgs84',
         'time': {'units': 'days since 2000-01-01', 'calendar': 'standard', 'edges': [0., 1., 2.], 'bounds': False}}
    for i in range(3):
        s['vars'] = [{'name': n, 'dims': ['t', 'y', 'x'], 'dtype': 'f8', 'seed': 10 * i + j, 'mask': None} for j, n in enumerate(['tas', 'pr'])]
        G.write_nc(s, 'd%d.nc' % i)
    keys = [k for k in ('variable', 'field_name', 'rename_variable') if k in case]
    ok = all(len(case[k]) == len(case['files']) for k in keys)
    q = [('uri', '|'.join(os.path.abspath('d%d.nc' % i) for i in case['files']))] + [(k, '|'.join(case[k])) for k in keys]
    try:
        ops = QueryInterface(query(q)).get_operations()
    except DVE:
        check(not ok, 'query {} is rejected', q)
        return 'rejected'
    except Exception as e:
        raise Violation('query {}: {!r}'.format(q, e))
    check(ok, 'query {}: numbers of values differ and are accepted', q)
    rds = [ocgis.RequestDataset(os.path.abspath('d%d.nc' % i), **{k: case[k][j] for k in keys}) for j, i in enumerate(case['files'])]
    ref = ocgis.OcgOperations(dataset=rds)
    got, want = list(ops.dataset), list(ref.dataset)
    check([(g.uri.split(os.sep)[-1], g.variable, g.field_name, g.rename_variable, g.uid) for g in got] ==
          [(g.uri.split(os.sep)[-1], g.variable, g.field_name, g.rename_variable, g.uid) for g in want], 'datasets of {}', q)
    a, b = execute(ops, 'o1'), execute(ref, 'o2')
    same_result(a, b, 'query %s' % q)
    return '' if not keys else ','.join(keys)


# ---------------------------------------------------------------- documented defaults
DOC = {'spatial_operation': 'intersects', 'geom': None, 'geom_select_sql_where': None, 'geom_select_uid': None, 'geom_uid': None, 'aggregate': False, 'calc': None,
       'calc_grouping': None, 'calc_raw': False, 'abstraction': 'auto', 'snippet': False, 'backend': 'ocg', 'prefix': 'ocgis_output', 'output_format': 'ocgis',
       'agg_selection': False, 'vector_wrap': True, 'allow_empty': False, 'slice': None, 'file_only': False, 'format_time': True, 'calc_sample_size': False,
       'search_radius_mult': None, 'output_crs': None, 'interpolate_spatial_bounds': False, 'add_auxiliary_files': True, 'optimizations': None, 'callback': None,
       'time_range': None, 'time_region': None, 'time_subset_func': None, 'level_range': None, 'conform_units_to': None, 'select_nearest': False,
       'regrid_destination': None, 'melted': False, 'output_format_options': None, 'spatial_wrapping': None, 'spatial_reorder': False, 'optimized_bbox_subset': False}
# No value can be given for these.
ABSENT_ONLY = ('regrid_destination',)


def gen_defaults(draw):
    c = draw_base(draw)
    c['params'] = draw_params(draw, c['field'])
    for k in sorted(c['params']):
        if chance(draw, .4):
            del c['params'][k]
    c['given'] = [k for k in sorted(DOC) if k not in c['params'] and k not in ABSENT_ONLY and chance(draw, .3)]
    c['assign'] = [chance(draw, .3) for _ in c['given']]
    c['one'] = False
    return c


def run_defaults(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError as DVE
    setup(case)
    K = {k: obj(k, v[0], case) for k, v in case['params'].items()}
    try:
        ops = ocgis.OcgOperations(dataset=rd(case), **K)
    except DVE:
        try:
            ocgis.OcgOperations(dataset=rd(case), **dict(K, **{k: DOC[k] for k in case['given']}))
        except DVE:
            return 'rejected'
        raise Violation('{} is rejected, and accepted with the defaults of {}'.format(K, case['given']))
    want = state(ops)
    for k, v in DOC.items():
        if k not in K:
            check(want[k] == norm(k, v) and (isinstance(want[k], bool) == isinstance(v, bool)), '{} is {!r} if not given, documented {!r}; given {}', k, want[k], v, sorted(K))
    res = execute(ops, 'o1')
    first = [k for k, f in zip(case['given'], case['assign']) if not f]
    try:
        o = ocgis.OcgOperations(dataset=rd(case), **dict(K, **{k: DOC[k] for k in first}))
        for k, f in zip(case['given'], case['assign']):
            if f:
                setattr(o, k, DOC[k])
    except DVE as e:
        raise Violation('defaults of {} are rejected: {}'.format(case['given'], e.message))
    same_state(state(o), want, 'defaults of %s given' % case['given'])
    same_result(execute(o, 'o2'), res, 'defaults of %s given' % case['given'])
    return '' if not case['given'] else res[0][0]


TARGETS = [Target('forms', gen, run, 180, 6000, 'at least three parameters, or rejected in every form', known),
           Target('invalid', gen_invalid, run_invalid, 160, 3000, 'the value was given in all forms that can express it'),
           Target('strings', gen_strings, run_strings, 400, 12000, 'the meaning of the string is specified'),
           Target('query', gen_query, run_query, 60, 1500, 'the query names variables or fields'),
           Target('defaults', gen_defaults, run_defaults, 60, 2000, 'at least one default is given explicitly')]
