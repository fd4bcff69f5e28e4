"""Process-wide state and settings. Requests of several kinds run one after another in one process (a fork), including requests that fail;
each of them also runs alone in a fork of its own, and both results and the settings afterwards must be the same. Settings: a model of
assignment, reset and system variables; a setting that names a default equals the parameter stated explicitly; settings that are about
speed or messages change no result. Non-trivial: at least two requests in the process, or a setting that differs from its default."""
import os
import pickle
import shutil
import signal
import sys
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st
from checks import p22_forms as P22
from checks.p11_spatial_subset import wkt


def child(func, *args):
    """Result of a function in a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = (True, func(*args))
            except Violation as e:
                out = (False, str(e))
            except BaseException as e:
                import traceback
                out = (False, traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    _, status = os.waitpid(pid, 0)
    check(status == 0 and b, 'the process ended with status {}', status)
    ok, v = pickle.loads(b)
    if not ok:
        raise Violation(v)
    return v


# Sources ---------------------------------------------------------------------------------------------------------------------------------

def rotated_file(case, path):
    """Data on a rotated grid with geographic coordinates; which ones are used depends on the request."""
    import netCDF4
    ny, nx = 3, 4
    with netCDF4.Dataset(path, 'w') as ds:
        for k, n in (('time', 2), ('rlat', ny), ('rlon', nx)):
            ds.createDimension(k, n)
        c = ds.createVariable('rotated_pole', 'c', ())
        c.grid_mapping_name = 'rotated_latitude_longitude'
        c.grid_north_pole_latitude, c.grid_north_pole_longitude = 39.25, -162.
        t = ds.createVariable('time', 'f8', ('time',))
        t.axis, t.units, t.calendar, t[:] = 'T', 'days since 2000-01-01', 'standard', [1, 40]
        for k, n, v in (('rlat', 'grid_latitude', np.arange(ny) * 2. - 2), ('rlon', 'grid_longitude', np.arange(nx) * 2. - 3)):
            v_ = ds.createVariable(k, 'f8', (k,))
            v_.standard_name, v_.units, v_.axis, v_[:] = n, 'degrees', 'Y' if k == 'rlat' else 'X', v
        xx, yy = np.meshgrid(np.arange(nx) * 3. + 10, np.arange(ny) * 2. + 40)
        for k, n, u, v in (('lat', 'latitude', 'degrees_north', yy + xx * .1), ('lon', 'longitude', 'degrees_east', xx - .1 * yy)):
            v_ = ds.createVariable(k, 'f8', ('rlat', 'rlon'))
            v_.standard_name, v_.units, v_[:] = n, u, v
        v = ds.createVariable('tas', 'f4', ('time', 'rlat', 'rlon'))
        v.grid_mapping, v.coordinates, v.units = 'rotated_pole', 'lon lat', 'K'
        v[:] = np.arange(2 * ny * nx).reshape(2, ny, nx)


def sources(case):
    P22.setup(case)
    G.write_nc(case['other'], 'd1.nc')
    rotated_file(case, 'rp.nc')


def draw_sources(draw):
    c = P22.draw_base(draw)
    lo = pick(draw, [-20, 175, 340])
    c['other'] = s = G.draw_field(draw, nt=(1, 4), nl='maybe', ny=(1, 3), nx=(1, 4), nvars=(1, 2), names=['foo', 'bar'], dtypes=('f8', 'f4', 'i4'), x={'lo': lo, 'hi': lo + 15, 'maxstep': 4},
                                  y={'lo': -20, 'hi': 10, 'maxstep': 4}, t={'span': 100})
    s['crs'] = pick(draw, ['wgs84', 'spherical'])
    for v in s['vars']:
        v['units'] = 'm'
    c['one'] = False
    return c


# Histories -------------------------------------------------------------------------------------------------------------------------------

def draw_step(draw, c):
    k = pick(draw, ['ops', 'ops', 'ops', 'other', 'other', 'rotated', 'rotated', 'compute', 'inspect', 'vector', 'copy', 'missing'])
    d = {'kind': k}
    if k == 'ops':
        P = P22.draw_params(draw, c['field'])
        d['params'] = P
        if 'output_format' in P and P['output_format'][0] == 'numpy':
            del P['output_format']
    elif k in ('other', 'copy', 'inspect', 'compute'):
        d['src'] = 'other'
        d['fmt'] = pick(draw, ['ocgis', 'nc', 'nc', 'csv', 'csv-shp', 'shp', 'geojson'])
        d['calc'] = pick(draw, [None, None, 'mean', 'expr']) if k != 'compute' else 'mean'
        d['wrap'] = pick(draw, [None, None, 'wrap', 'unwrap'])
        d['agg'] = chance(draw, .2)
        d['bbox'] = chance(draw, .4)
        d['crs'] = pick(draw, [None, None, None, 'wgs84', 'utm'])
    elif k == 'rotated':
        d['prio'] = chance(draw, .3)
        d['fmt'] = pick(draw, ['ocgis', 'nc', 'nc', 'csv', 'meta'])
        d['bbox'] = chance(draw)
    elif k == 'vector':
        d['uid'] = pick(draw, [None, 'ID2'])
        d['union'] = chance(draw, .3)
    return d


def gen_history(draw):
    c = draw_sources(draw)
    c['steps'] = [draw_step(draw, c) for _ in range(draw(I(2, 4)))]
    # Settings assigned before the first request.
    c['set'] = {k: v for k, v in (('OPTIMIZE_FOR_CALC', True), ('MELTED', True), ('USE_SPATIAL_INDEX', False), ('PREFIX', 'other prefix'), ('OVERWRITE', True),
                                  ('ADD_OPS_MPI_BARRIER', False), ('USE_MEMORY_OPTIMIZATIONS', True), ('SUPPRESS_WARNINGS', False)) if chance(draw, .2)}
    return c


def assign(case):
    import ocgis
    for k, v in sorted(case.get('set', {}).items()):
        setattr(ocgis.env, k, v)


def env_state():
    import ocgis
    return sorted(str(ocgis.env).split('\n'))


def other_ops(case, d, where):
    import ocgis
    s = case['other']
    kw = {}
    if d['calc'] == 'mean':
        kw.update(calc=[{'func': 'mean', 'name': 'mn'}], calc_grouping=['month'])
    elif d['calc'] == 'expr':
        kw.update(calc=['new=%s*2' % s['vars'][0]['name']])
    if d['crs']:
        kw['output_crs'] = G.crs_obj(d['crs']) if d['crs'] != 'utm' else ocgis.crs.CoordinateReferenceSystem(epsg=32630)
    if d['bbox']:
        x0, y0, x1, y1 = G.extent(s)
        kw['geom'] = [x0 + .1, y0 + .1, (x0 + 2 * x1) / 3, y1]
        kw['allow_empty'] = True
    elif d['wrap']:
        kw['spatial_wrapping'] = d['wrap']
    if d['agg'] and d['bbox']:
        kw['aggregate'] = True
    return ocgis.OcgOperations(dataset=ocgis.RequestDataset(os.path.abspath('d1.nc'), variable=[v['name'] for v in s['vars']]), output_format=d['fmt'], dir_output=where, **kw)


def step(case, d, where):
    """Everything observable about a request."""
    import ocgis
    k = d['kind']
    os.makedirs(where)
    try:
        if k == 'ops':
            P = d['params']
            ops = ocgis.OcgOperations(dataset=P22.rd(case), **{n: P22.obj(n, v[0], case) for n, v in P.items()})
            return P22.execute(ops, where)
        if k == 'other':
            return P22.execute(other_ops(case, d, where), where)
        if k == 'compute':
            from ocgis.util.large_array import compute
            path = compute(other_ops(case, dict(d, fmt='nc', crs=None), where), 2)
            return ('path', os.path.relpath(path, where)), P22.content(where)
        if k == 'inspect':
            return ('text', '\n'.join(ocgis.RequestDataset(os.path.abspath('d1.nc')).driver.get_dump_report())), {}
        if k == 'copy':
            f = ocgis.RequestDataset(os.path.abspath('d1.nc')).get()
            f.write(os.path.join(where, 'c.nc'))
            g = ocgis.RequestDataset(os.path.abspath(os.path.join(where, 'c.nc'))).get()
            f.load()
            return ('ok', G.snap_coll(f)), dict(P22.content(where), crs=str(g.crs and g.crs.value))
        if k == 'vector':
            g = ocgis.GeomCabinetIterator(path=os.path.abspath('g.shp'), uid=d['uid'], union=d['union'], as_field=True)
            return ('text', str([(f.geom.get_value().ravel()[0].wkt, f.geom.ugid.name, int(f.geom.ugid.get_value().ravel()[0])) for f in g])), {}
        if k == 'rotated':
            rd = ocgis.RequestDataset(os.path.abspath('rp.nc'), variable='tas', rotated_pole_priority=d['prio'])
            if d['fmt'] == 'meta':
                return ('text', str(rd.dimension_map.as_dict()) + str(rd.crs and rd.crs.value)), {}
            kw = {'geom': [12, 38, 17, 43], 'allow_empty': True} if d['bbox'] else {}
            return P22.execute(ocgis.OcgOperations(dataset=rd, output_format=d['fmt'], **kw), where)
        if k == 'missing':
            return ('text', str(ocgis.RequestDataset(os.path.abspath('none.nc')).get())), {}
        raise AssertionError(k)
    except Exception as e:
        return ('error', type(e).__name__ + ': ' + str(e)[:100].replace(where, '')), {}


def alone(case, d, i):
    assign(case)
    return step(case, d, 'a%d' % i)


def together(case):
    assign(case)
    before = env_state()
    ret = []
    for i, d in enumerate(case['steps']):
        ret.append(step(case, d, 't%d' % i))
        # Known finding: these two are left behind by data on rotated grids read with their geographic coordinates.
        if case.get('clear', True) and d['kind'] == 'rotated' and not d['prio']:
            import ocgis
            ocgis.env.SET_GRID_AXIS_ATTRS = True
            ocgis.env.COORDSYS_ACTUAL = None
    return ret, before, env_state()


def diff(a, b, what):
    if a[0][0] == 'error' or b[0][0] == 'error' or a[0][0] in ('text', 'path'):
        check(str(a[0]) == str(b[0]), '{}: {} alone {}', what, str(a[0])[:1500], str(b[0])[:1500])
    P22.same_result(a, b, what)


def run_history(case):
    sources(case)
    one = [child(alone, case, d, i) for i, d in enumerate(case['steps'])]
    many, before, after = child(together, case)
    for i, (a, b) in enumerate(zip(many, one)):
        d = case['steps'][i]
        diff(a, b, 'request {} ({}) after {}'.format(i, d['kind'], [q['kind'] for q in case['steps'][:i]]))
    check(before == after, 'settings changed by {}: {} became {}', [q['kind'] for q in case['steps']], sorted(set(before) - set(after)), sorted(set(after) - set(before)))
    return '' if all(r[0][0] == 'error' for r in one) else case['steps'][-1]['kind']


# Values of settings ------------------------------------------------------------------------------------------------------------------------

BOOL = {'OVERWRITE': False, 'VERBOSE': False, 'SUPPRESS_WARNINGS': True, 'USE_MEMORY_OPTIMIZATIONS': False, 'MELTED': None, 'DEBUG': False}
TEXT = {'DIR_OUTPUT': None, 'DIR_DATA': None, 'DIR_GEOMCABINET': None, 'PREFIX': 'ocgis_output', 'DEFAULT_GEOM_UID': 'UGID'}
IMPORTS = ['USE_SPATIAL_INDEX', 'USE_CFUNITS']


def gen_values(draw):
    names = sorted(BOOL) + sorted(TEXT) + IMPORTS
    ops = []
    few = list(draw(st.permutations(names)))[:draw(I(1, 4))]
    for _ in range(draw(I(1, 8))):
        n = pick(draw, few)
        k = pick(draw, ['set', 'set', 'system', 'system', 'unset', 'reset'])
        v = None
        if k in ('set', 'system'):
            if n in TEXT:
                v = pick(draw, ['abc', 'A b', 'x/y', '1', 'true', 'None'])
            elif k == 'set':
                v = chance(draw)
            else:
                v = pick(draw, ['true', 'True', 'TRUE', 't', 'T', '1', 'false', 'False', 'f', '0', 'FALSE'])
        ops.append([k, n, v])
    return {'ops': ops, 'names': few}


def values_job(case):
    import ocgis
    for n in list(os.environ):
        if n.startswith('OCGIS_'):
            del os.environ[n]
    ocgis.env.reset()
    default = {n: getattr(ocgis.env, n) for n in sorted(BOOL) + sorted(TEXT) + IMPORTS}
    given, system = {}, {}
    for n, v in list(BOOL.items()) + list(TEXT.items()):
        if n != 'DIR_OUTPUT':
            check(default[n] == v, 'the default of {} is {!r} expected {!r}', n, default[n], v)
    check(default['DIR_OUTPUT'] in (None, os.getcwd()), 'the default of DIR_OUTPUT is {}', default['DIR_OUTPUT'])
    for k, n, v in case['ops']:
        if k == 'set':
            setattr(ocgis.env, n, v)
            given[n] = v
        elif k == 'system':
            os.environ['OCGIS_' + n] = v
            system[n] = v
        elif k == 'unset':
            os.environ.pop('OCGIS_' + n, None)
            system.pop(n, None)
        else:
            # System variables are only read reliably when the settings are initialized.
            ocgis.env.reset()
            given = {}
        if k in ('system', 'unset'):
            ocgis.env.reset()
            given = {}
        for m in default:
            want = given[m] if m in given else default[m]
            if m not in given and m in system:
                want = system[m] if m in TEXT else system[m].lower() in ('true', 't', '1')
            got = getattr(ocgis.env, m)
            check(got == want and type(got) is type(want), '{} is {!r} expected {!r} after {}', m, got, want, case['ops'])
            lines = [l for l in str(ocgis.env).split('\n') if l.startswith(m + '=')]
            check(lines == ['{}={}'.format(m, want)], 'the report shows {} expected {}', lines, want)
    return 'set' if given or system else 'default'


def run_values(case):
    os.makedirs('w')
    return child(values_job, case) if len(case['ops']) > 1 else child(values_job, case) and ''


# Settings that name a default ----------------------------------------------------------------------------------------------------------

SPEED = {'USE_MEMORY_OPTIMIZATIONS': [True], 'USE_SPATIAL_INDEX': [False], 'SUPPRESS_WARNINGS': [False], 'VERBOSE': [True], 'DEBUG': [True], 'USE_NETCDF4_MPI': [False, True], 'ADD_OPS_MPI_BARRIER': [False]}
NAMED = ['DIR_OUTPUT', 'PREFIX', 'MELTED', 'DEFAULT_GEOM_UID', 'DIR_DATA', 'DIR_GEOMCABINET', 'OVERWRITE']


def gen_settings(draw):
    c = draw_sources(draw)
    c['params'] = P = P22.draw_params(draw, c['field'])
    for k in ('prefix', 'melted', 'geom_uid', 'callback'):
        P.pop(k, None)
    if 'output_format' in P and P['output_format'][0] == 'numpy':
        del P['output_format']
    for k in sorted(P):
        if k not in ('geom', 'output_format') and chance(draw, .5):
            del P[k]
    c['how'] = pick(draw, ['attribute', 'attribute', 'system'])
    c['speed'] = {k: pick(draw, v) for k, v in sorted(SPEED.items()) if chance(draw, .25)}
    c['named'] = [k for k in NAMED if chance(draw, .3)]
    if P.get('geom', [None])[0] != 'FILE':
        c['named'] = [k for k in c['named'] if k not in ('DEFAULT_GEOM_UID', 'DIR_GEOMCABINET')]
    if 'DEFAULT_GEOM_UID' in c['named'] and 'geom_select_uid' in P:
        P['geom_select_uid'][0] = [10 * i for i in P['geom_select_uid'][0] if i < 10] or [10]
    elif 'geom_select_uid' in P:
        P['geom_select_uid'][0] = [i for i in P['geom_select_uid'][0] if i < 10] or [1]
    c['nest'] = chance(draw)
    c['dirs'] = chance(draw) and c['how'] == 'attribute'
    return c


def settings_job(case, explicit, top):
    import ocgis
    here = os.getcwd()
    os.makedirs(top)
    named = case['named']
    P = case['params']
    kw = {n: P22.obj(n, v[0], case) for n, v in P.items()}
    S = {} if explicit else dict(case['speed'])
    out = os.path.join(here, top, 'out')
    os.makedirs(out)
    uri = os.path.join(here, 'data', 'sub', 'd.nc')
    if explicit or 'DIR_OUTPUT' not in named:
        kw['dir_output'] = out
    else:
        S['DIR_OUTPUT'] = out
    if 'PREFIX' in named:
        (kw if explicit else S)['prefix' if explicit else 'PREFIX'] = 'Named 1'
    if 'MELTED' in named:
        (kw if explicit else S)['melted' if explicit else 'MELTED'] = True
    if 'DEFAULT_GEOM_UID' in named:
        (kw if explicit else S)['geom_uid' if explicit else 'DEFAULT_GEOM_UID'] = 'ID2'
    if 'DIR_DATA' in named and not explicit:
        base = os.path.join(here, 'data')
        S['DIR_DATA'] = [os.path.join(here, 'empty'), base] if case['dirs'] else base
        uri = 'd.nc'
    if 'DIR_GEOMCABINET' in named and not explicit:
        S['DIR_GEOMCABINET'] = os.path.join(here, 'shapes')
        kw['geom'] = 'g'
    elif P.get('geom', [None])[0] == 'FILE':
        kw['geom'] = os.path.join(here, 'shapes', 'sub', 'g.shp') if case['nest'] else os.path.join(here, 'shapes', 'g.shp')
    if 'OVERWRITE' in named:
        # Nothing is in the way.
        S['OVERWRITE'] = True
    if case['how'] == 'attribute':
        for k, v in sorted(S.items()):
            setattr(ocgis.env, k, v)
    else:
        for k, v in S.items():
            os.environ['OCGIS_' + k] = str(v)
        ocgis.env.reset()
    os.chdir(top)
    try:
        ops = ocgis.OcgOperations(dataset=ocgis.RequestDataset(uri, variable=[v['name'] for v in case['field']['vars']]), **kw)
        ret = ops.execute()
    except Exception as e:
        return ('error', type(e).__name__), P22.content('.')
    if isinstance(ret, str):
        return ('path', os.path.relpath(ret, os.path.join(here, top))), strip(P22.content('.'), here, top)
    return ('ok', G.snap_coll(ret)), strip(P22.content('.'), here, top)


def strip(c, here, top):
    """The descriptor of the datasets tells where they are."""
    return {k: v.replace(os.path.join(here, 'data', 'sub', '').encode(), b'').replace(os.path.join(here, top).encode(), b'') if isinstance(v, bytes) else v for k, v in c.items()}


def run_settings(case):
    from ocgis.exc import DefinitionValidationError
    P22.setup(case)
    os.makedirs('data/sub')
    os.makedirs('empty')
    os.makedirs('shapes/sub')
    os.rename('d.nc', 'data/sub/d.nc')
    for f in os.listdir('.'):
        if f.startswith('g.'):
            os.rename(f, os.path.join('shapes/sub' if case['nest'] else 'shapes', f))
    want = child(settings_job, case, True, 'e')
    got = child(settings_job, case, False, 's')
    what = 'settings {} {} given as {}'.format(case['named'], case['speed'], case['how'])
    P22.same_result(got, want, what)
    if not case['named'] and not case['speed']:
        return ''
    return want[0][0]


# The default coordinate system ------------------------------------------------------------------------------------------------------------

def gen_coordsys(draw):
    return {'crs': pick(draw, ['wgs84', 'epsg4326', 'sphere', 'sphere', 'spherical', None]), 'radius': draw(I(635, 639)) * 1e4, 'form': pick(draw, ['bbox', 'dicts', 'records', 'file', 'file', 'none']),
            'box': [draw(I(-8, 0)) + .25, draw(I(-8, 0)) + .25, draw(I(1, 8)) + .25, draw(I(1, 8)) + .25], 'other': chance(draw, .4), 'ny': draw(I(2, 4)), 'nx': draw(I(2, 4)),
            'reset': chance(draw, .2)}


def crs_of(case):
    import ocgis
    from ocgis.variable import crs as C
    k = case['crs']
    return {'wgs84': C.WGS84, 'epsg4326': lambda: C.CoordinateReferenceSystem(epsg=4326), 'sphere': lambda: C.CoordinateReferenceSystem(value={'proj': 'longlat', 'a': case['radius'], 'b': case['radius'], 'no_defs': True}),
            'spherical': C.Spherical, None: C.CFSpherical}[k]()


def coordsys_job(case, explicit):
    import ocgis
    from shapely.geometry import box
    c = crs_of(case)
    d = {'crs': crs_of(case)} if explicit else {}
    if not explicit and case['crs'] is not None:
        ocgis.env.DEFAULT_COORDSYS = c
        check(ocgis.env.DEFAULT_COORDSYS == c, 'the setting is {} after {} is assigned', ocgis.env.DEFAULT_COORDSYS.value, c.value)
        if case['reset']:
            ocgis.env.reset()
            ocgis.env.DEFAULT_COORDSYS = crs_of(case)
    f = case['form']
    if f == 'records':
        fld = ocgis.Field.from_records([{'geom': box(*case['box']), 'properties': {'UGID': 4}}], **d)
        return [('records', sorted(fld.crs.value.items(), key=str))]
    rd = ocgis.RequestDataset(os.path.abspath('n.nc'), **d)
    out = [('dataset', sorted(rd.crs.value.items(), key=str), sorted(rd.get().crs.value.items(), key=str))]
    kw = {}
    if f == 'bbox':
        kw['geom'] = case['box'] if not explicit else [dict(geom=box(*case['box']), properties={'UGID': 1}, **d)]
    elif f == 'dicts':
        kw['geom'] = [dict(geom=box(*case['box']), properties={'UGID': 1}, **d)]
    if f != 'file' and case['other']:
        kw['output_crs'] = ocgis.crs.CoordinateReferenceSystem(epsg=32631)
    ret = ocgis.OcgOperations(dataset=rd, allow_empty=True, **kw).execute()
    for g in ret.geoms.values() if hasattr(ret, 'geoms') and f in ('bbox', 'dicts') else []:
        out.append(['%.8g' % q for q in g.bounds + (g.area,)])
    fld = ret.get_element()
    out.append((str(fld.crs and sorted(fld.crs.value.items(), key=str)), sorted((v.name, str(np.ma.filled(v.get_masked_value().astype(object), None).tolist())) for v in fld.values() if v.dtype is not None and v.dtype != object and v.ndim)))
    if f == 'file':
        rd.get().write('out%s.nc' % explicit)
        import netCDF4
        with netCDF4.Dataset('out%s.nc' % explicit) as ds:
            out.append(sorted((n, str({a: str(v.getncattr(a)) for a in v.ncattrs()})) for n, v in ds.variables.items()))
        out.append(sorted(ocgis.RequestDataset(os.path.abspath('out%s.nc' % explicit)).get().crs.value.items(), key=str))
    return out


def run_coordsys(case):
    import netCDF4
    with netCDF4.Dataset('n.nc', 'w') as ds:
        ds.createDimension('lat', case['ny'])
        ds.createDimension('lon', case['nx'])
        for k, n, ax in (('lat', case['ny'], 'Y'), ('lon', case['nx'], 'X')):
            v = ds.createVariable(k, 'f8', (k,))
            v.axis, v[:] = ax, np.arange(n) * 3. - 4
        v = ds.createVariable('tas', 'f8', ('lat', 'lon'))
        v.units, v[:] = 'K', np.arange(case['ny'] * case['nx']).reshape(case['ny'], case['nx'])
    a, b = child(coordsys_job, case, False), child(coordsys_job, case, True)
    check(len(a) == len(b), 'results {} expected {}', a, b)
    for x, y in zip(a, b):
        check(x == y, 'default coordinate system {}, {}: {} expected {}', case['crs'], case['form'], str(x)[:1200], str(y)[:1200])
    return '' if case['crs'] is None else case['form']


TARGETS = [Target('history', gen_history, run_history, 60, 2000, 'at least one of the requests succeeds'),
           Target('values', gen_values, run_values, 150, 4000, 'at least two changes of settings'),
           Target('settings', gen_settings, run_settings, 80, 2500, 'at least one setting'),
           Target('coordsys', gen_coordsys, run_coordsys, 80, 2000, 'the default is changed')]
