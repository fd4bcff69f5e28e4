"""Histories of operations on one source: the source, the selection geometries and the parameter objects are as before after
every history, a repeated step gives the same result, and copies are independent. Non-trivial: at least two steps succeeded."""
import copy as cp
import datetime
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from checks.p11_spatial_subset import wkt

STEPS = ['slice', 'varslice', 'trange', 'tregion', 'tfunc', 'level', 'gint', 'gint', 'ggint', 'ggint', 'nearest', 'union', 'buffer', 'mask', 'sso', 'sso',
         'ops', 'ops', 'ops', 'ops', 'write', 'writevec', 'iter', 'info', 'group', 'copyops', 'copyops', 'fslice', 'wrapcopy', 'setgeom', 'extract', 'convert']


def draw_step(draw, s):
    k = pick(draw, STEPS)
    p = {'op': k, 'seed': draw(I(0, 10 ** 6))}
    if k in ('gint', 'ggint', 'nearest', 'mask', 'sso', 'ops'):
        p['sel'] = G.draw_sel(draw, s, ('poly', 'poly', 'multi', 'hole'), pad=1)
        p['clip'] = chance(draw)
    if k in ('gint', 'ggint'):
        p['kw'] = {}
        if chance(draw, .3):
            p['kw']['keep_touches'] = chance(draw)
        if k == 'ggint' and chance(draw, .3):
            p['kw']['use_spatial_index'] = chance(draw)
        if k == 'gint' and chance(draw, .3):
            p['kw']['return_slice'] = True
        if k == 'gint' and chance(draw, .2):
            p['kw']['optimized_bbox_subset'] = True
    if k == 'mask':
        p['orig'] = draw(I(0, 3))
    if k in ('sso', 'ops'):
        p['form'] = pick(draw, ['field', 'field', 'gvar', 'dicts', 'shape'])
        p['selcrs'] = pick(draw, [None, 'spherical', 'spherical', 'wgs84'])
        p['out'] = pick(draw, [None, None, 'wgs84', 'merc'])
        p['wrap'] = pick(draw, [None, None, 'wrap', 'unwrap'])
        p['optbbox'] = chance(draw, .2)
        p['buffer'] = chance(draw, .1)
    if k == 'ops':
        p['agg'] = chance(draw, .4)
        p['nogeom'] = chance(draw, .35)
        p['aggsel'] = chance(draw, .2)
        p['two'] = chance(draw, .3)
        p['calc'] = pick(draw, [None, None, 'mean', 'expr', 'two', 'threshold', 'multi'])
        p['raw'] = chance(draw, .3)
        p['conform'] = chance(draw, .25)
        p['reorder'] = chance(draw, .25)
        p['interp'] = chance(draw, .25)
        p['fmt'] = pick(draw, ['ocgis', 'ocgis', 'ocgis', 'nc', 'csv', 'csv-shp', 'shp', 'geojson'])
        p['time'] = pick(draw, [None, None, 'range', 'region', 'func', 'slice', 'snippet'])
        p['level'] = chance(draw, .2)
        p['melted'] = chance(draw, .2)
        p['abstraction'] = pick(draw, ['auto', 'auto', 'point'])
        p['search'] = chance(draw, .1)
    if k == 'copyops':
        p['what'] = pick(draw, ['remove', 'name', 'attrs', 'rename_dim', 'rename_var', 'add', 'tags', 'time', 'crs', 'geom', 'unl', 'value', 'units'])
    return p


def gen(draw):
    xlo = pick(draw, [-10, -10, 170])
    s = G.draw_field(draw, nt=(1, 4), nl='maybe', nr='maybe', ny=(2, 4), nx=(2, 4), nvars=(1, 2), dtypes=('f8', 'f4'), names=['foo', 'bar'],
                     x={'lo': xlo, 'hi': xlo + 30, 'maxstep': pick(draw, [4, 4, 8])}, y={'lo': -10, 'hi': 10, 'maxstep': 4}, t={'span': pick(draw, [10, 31, 100])})
    s['crs'] = 'spherical'
    for v in s['vars']:
        v['units'] = 'm'
        v['attrs'] = {'long_name': 'a name'}
    n = draw(I(1, 5))
    return {'field': s, 'src': pick(draw, ['mem', 'mem', 'file', 'loaded']), 'geom': chance(draw, .3), 'steps': [draw_step(draw, s) for _ in range(n)], 'repeat': chance(draw, .7), 'each': chance(draw)}


def with_geom(f, case):
    if case['geom']:
        f.set_geom(f.grid.get_abstraction_geometry())
        G.touch(f)
    return f


def make(case):
    import ocgis
    s = case['field']
    if case['src'] == 'mem':
        return with_geom(G.build_field(s, name='src'), case)
    path = os.path.abspath('in.nc')
    if not os.path.exists(path):
        G.write_nc(s, path)
    f = ocgis.RequestDataset(path, variable=[v['name'] for v in s['vars']], crs=G.crs_obj('spherical'), field_name='src').get()
    if case['src'] == 'loaded':
        f.load()
    G.touch(f)
    return with_geom(f, case)


def sel_obj(p, two=False):
    import ocgis
    from ocgis import GeometryVariable, Field
    g = wkt(p['sel'])
    crs = G.crs_obj(p['selcrs'])
    recs = [{'geom': g, 'properties': {'UGID': 3, 'NAME': 'a'}}]
    if two:
        from shapely.affinity import translate
        recs.append({'geom': translate(g, 1., .5), 'properties': {'UGID': 9, 'NAME': 'b'}})
    if p['form'] == 'dicts' or (two and p['form'] != 'field'):
        if crs is not None:
            for r in recs:
                r['crs'] = crs
        return recs
    if p['form'] == 'field':
        return Field.from_records(recs, crs=crs)
    if p['form'] == 'gvar':
        return GeometryVariable(name='sel', value=[g], dimensions='ngeom', crs=crs)
    return g


def snap_any(o):
    """Comparable picture of an argument or result."""
    import ocgis
    from ocgis.variable.base import AbstractCollection, Variable, VariableCollection
    from ocgis.collection.spatial import SpatialCollection
    from ocgis.spatial.grid import Grid
    if isinstance(o, SpatialCollection):
        return ('sc', [(k, snap_any(v)) for k, v in o.children.items()], [(k, g.wkb) for k, g in o.geoms.items()], [(k, dict(v)) for k, v in o.properties.items()])
    if isinstance(o, VariableCollection):
        return ('coll', G.snap_coll(o))
    if isinstance(o, Grid):
        return ('grid', G.snap_coll(o.parent))
    if isinstance(o, Variable):
        return ('var', G.snap_var(o))
    if hasattr(o, 'wkb'):
        return ('geom', o.wkb)
    if isinstance(o, np.ndarray):
        return ('arr', np.array(o, copy=True))
    if isinstance(o, dict):
        return ('dict', [(k, snap_any(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ('list', [snap_any(v) for v in o])
    if type(o).__name__ in ('Spherical', 'WGS84', 'CoordinateReferenceSystem'):
        return ('crs', repr(sorted(o.value.items(), key=str)))
    return ('obj', o if isinstance(o, (int, float, str, bool, type(None), slice, datetime.datetime)) else repr(type(o)))


def diff_any(a, b):
    if a[0] != b[0]:
        return 'was {} is {}'.format(a[0], b[0])
    if a[0] in ('coll', 'grid'):
        return G.diff_coll(a[1], b[1])
    if a[0] == 'var':
        return G.diff_snap(a[1], b[1])
    if a[0] == 'arr':
        return None if G._arr_same(a[1], b[1]) else 'array: was {} is {}'.format(a[1].tolist(), b[1].tolist())
    if a[0] in ('dict', 'sc'):
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return 'keys: was {} is {}'.format([k for k, _ in a[1]], [k for k, _ in b[1]])
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = diff_any(x, y)
            if d:
                return '{!r}: {}'.format(k, d)
        if a[0] == 'sc' and a[2:] != b[2:]:
            return 'geometries or properties: was {} is {}'.format(a[2:], b[2:])
        return None
    if a[0] == 'list':
        if len(a[1]) != len(b[1]):
            return 'length: was {} is {}'.format(len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff_any(x, y)
            if d:
                return '[{}]: {}'.format(i, d)
        return None
    same = a[1] == b[1] or (isinstance(a[1], float) and isinstance(b[1], float) and a[1] != a[1] and b[1] != b[1])
    return None if same else 'was {} is {}'.format(a[1], b[1])


def geom_of(f):
    return f.grid.get_abstraction_geometry() if f.geom is None else f.geom


def tdays(s):
    return np.asarray(G.time_vals(s['time']))


def day(x):
    return datetime.datetime(2000, 1, 1) + datetime.timedelta(days=float(x))


GIVEN = []


def reg(o):
    """Remember how an object looked when it was given to a step."""
    GIVEN.append((o, snap_any(o)))
    return o


def do(f, s, p, n):
    """Apply one step to the field; returns (result, objects passed)."""
    import ocgis
    from ocgis import Variable
    from ocgis.spatial.spatial_subset import SpatialSubsetOperation
    r = np.random.RandomState(p['seed'])
    k = p['op']
    t = s['time']

    def span(m):
        a, b = sorted(r.randint(0, m, 2))
        return int(a), int(b) + 1
    i, j = span(s['nt'])
    trange = reg([day(t['edges'][i]), day(t['edges'][j])])
    if k == 'slice':
        d = pick_r(r, list(f.dimensions))
        a, b = span(len(f.dimensions[d]))
        arg = reg({d: slice(a, b)} if r.rand() < .7 else {d: [a]})
        return f[arg], [arg]
    if k == 'varslice':
        v = f[pick_r(r, [x['name'] for x in s['vars']])]
        idx = tuple(slice(*span(m)) for m in v.shape)
        return v[idx], []
    if k == 'fslice':
        arg = {'time': slice(i, j)}
        a, b = span(s['nx'])
        arg['x'] = slice(a, b)
        reg(arg)
        return f.get_field_slice(arg), [arg]
    if k == 'trange':
        ret = f.time.get_between(*trange, return_indices=r.rand() < .3)
        return (ret[0].parent if isinstance(ret, tuple) else ret.parent), [trange]
    if k == 'tregion':
        region = {'month': [int(x) for x in r.randint(1, 13, 6)] + [day(tdays(s)[0]).month]}
        if r.rand() < .3:
            region['year'] = None
        reg(region)
        return f.time.get_time_region(region).parent, [region]
    if k == 'tfunc':
        return f.time.get_subset_by_function(lambda value, bounds=None: list(range(i, j))).parent, []
    if k == 'level':
        lv = f.level
        if lv is None:
            return None, []
        a, b = span(s['nl'])
        return lv.get_between(s['le'][a], s['le'][b]).parent, []
    if k == 'gint':
        g = reg(wkt(p['sel']))
        m = f.grid.get_intersection if p['clip'] else f.grid.get_intersects
        ret = m(g, **p['kw'])
        if isinstance(ret, tuple):
            return [ret[0].parent if hasattr(ret[0], 'parent') else None, ret[1]], [g]
        return ret.parent, [g]
    if k == 'ggint':
        g = reg(wkt(p['sel']))
        m = geom_of(f).get_intersection if p['clip'] else geom_of(f).get_intersects
        return m(g, **p['kw']), [g]
    if k == 'nearest':
        g = reg(wkt(p['sel']))
        return geom_of(f).get_nearest(g, return_indices=bool(r.rand() < .5)), [g]
    if k == 'union':
        sa = [x['name'] for x in s['vars']] if r.rand() < .5 else None
        reg(sa)
        return geom_of(f).get_unioned(spatial_average=sa), [sa]
    if k == 'buffer':
        return geom_of(f).get_buffer(1), []
    if k == 'mask':
        g = reg(wkt(p['sel']))
        om = None if p['orig'] == 0 else reg(r.rand(*geom_of(f).shape) < .3)
        return geom_of(f).get_mask_from_intersects(g, original_mask=om), [g] + ([om] if om is not None else [])
    if k == 'sso':
        g = sel_obj(p)
        if p['form'] == 'field':
            g = g.geom
        elif p['form'] == 'dicts':
            g = g[0]['geom']
        reg(g)
        sso = SpatialSubsetOperation(f, output_crs=crs_of(p['out']) if p['out'] else 'input', wrap=None if p['wrap'] is None else p['wrap'] == 'wrap')
        return sso.get_spatial_subset('clip' if p['clip'] else 'intersects', g, optimized_bbox_subset=p['optbbox'] and not p['clip'], geom_crs=G.crs_obj(p['selcrs'] or 'spherical'),
                                      buffer_value=.5 if p['buffer'] else None), [g]
    if k == 'ops':
        return do_ops(f, s, p, n, r, trange, span)
    if k == 'write':
        f.write(os.path.abspath('w%d_%d.nc' % (n, r.randint(10 ** 6))), variable_kwargs={} if r.rand() < .5 else {'unlimited_to_fixedsize': True})
        return None, []
    if k == 'writevec':
        if r.rand() < .5:
            geom_of(f).write_vector(os.path.abspath('v%d_%d.shp' % (n, r.randint(10 ** 6))))
        else:
            f.write(os.path.abspath('v%d_%d.csv' % (n, r.randint(10 ** 6))), driver='csv')
        return None, []
    if k == 'iter':
        kw = {'melted': bool(r.rand() < .5), 'allow_masked': bool(r.rand() < .5)}
        return [str(x) for x in f.iter(**kw)], []
    if k == 'info':
        g = f.grid
        out = [g.extent, g.resolution, g.get_value_stacked(), str(f.wrapped_state), g.get_mask(), f.get_report(), f.time.extent, f.time.value_datetime.tolist(),
               g.get_report(), g.abstraction, geom_of(f).get_report(), geom_of(f).area, geom_of(f).weights, f.shapes, f.time.get_report(), f.axes_shapes, geom_of(f).geom_type, g.has_masked_values,
               g.resolution_max, g.extent_global, f.time.extent_datetime]
        return [x if isinstance(x, np.ndarray) else str(x) for x in out], []
    if k == 'group':
        gr = reg(pick_r(r, [['month'], ['year'], 'all', ['month', 'year'], [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]]]))
        tg = f.time.get_grouping(gr)
        return [tg.get_value(), [np.asarray(x) for x in tg.dgroups]], [gr]
    if k == 'wrapcopy':
        c = f.deepcopy()
        (c.wrap if r.rand() < .5 else c.unwrap)()
        return c, []
    if k == 'setgeom':
        c = f.copy()
        c.set_geom_from_grid()
        return c, []
    if k == 'extract':
        v = pick_r(r, [x['name'] for x in s['vars']])
        x = f[v].extract() if r.rand() < .6 else f.time.extract()
        return x, []
    if k == 'convert':
        return geom_of(f).convert_to(pack=bool(r.rand() < .5)).parent, []
    if k == 'copyops':
        c = f.copy()
        w = p['what']
        v = s['vars'][0]['name']
        if w == 'remove':
            c.remove_variable(pick_r(r, [v, 'time', f.grid.x.name]))
        elif w == 'name':
            c.set_name('other')
        elif w == 'attrs':
            c.attrs['new'] = 5
        elif w == 'rename_dim':
            d = pick_r(r, list(f.dimensions))
            c.rename_dimension(d, 'renamed')
        elif w == 'rename_var':
            c[v].set_name('renamed')
        elif w == 'add':
            c.add_variable(Variable('added', np.arange(3.), 'newdim'), is_data=True)
        elif w == 'tags':
            c.append_to_tags('mytag', [v], create=True)
        elif w == 'time':
            c.remove_variable(c.time)
            c.dimension_map.set_variable('time', None)
        elif w == 'crs':
            c.set_crs(G.crs_obj('wgs84'))
        elif w == 'geom':
            c.set_abstraction_geom()
        elif w == 'unl':
            c.dimension_map.set_variable('level', None)
        elif w == 'value':
            c[v].set_value(np.full(f[v].shape, 7., dtype=f[v].dtype))
        elif w == 'units':
            c[v].units = 'km'
        return None, []
    raise AssertionError(k)


def pick_r(r, seq):
    return seq[r.randint(len(seq))]


def crs_of(n):
    from ocgis.variable import crs as C
    return C.CoordinateReferenceSystem(epsg=3395) if n == 'merc' else G.crs_obj(n)


def do_ops(f, s, p, n, r, trange, span):
    import ocgis
    kw = {'dataset': f, 'prefix': 'o%d_%d' % (n, np.random.randint(10 ** 9)), 'dir_output': os.getcwd(), 'output_format': p['fmt']}
    passed = []
    kw['aggregate'] = p['agg']
    kw['allow_empty'] = bool(r.rand() < .2)
    if not p['nogeom']:
        kw['geom'] = sel_obj(p, two=p['two'])
        kw['spatial_operation'] = 'clip' if p['clip'] else 'intersects'
        kw['agg_selection'] = p['aggsel']
        kw['optimized_bbox_subset'] = p['optbbox'] and not p['clip']
        passed.append(kw['geom'])
    if p['calc'] == 'mean':
        kw['calc'] = [{'func': 'mean', 'name': 'm'}]
        kw['calc_grouping'] = pick_r(r, [['month'], ['year'], 'all'])
    elif p['calc'] == 'two':
        kw['calc'] = [{'func': 'max', 'name': 'm', 'meta_attrs': {'field': {'note': 'x'}, 'variable': {'v': 'y'}}}, {'func': 'freq_perc', 'name': 'd', 'kwds': {'percentile': 90}}]
        kw['calc_grouping'] = ['month', 'year']
    elif p['calc'] == 'threshold':
        kw['calc'] = [{'func': 'threshold', 'name': 'th', 'kwds': {'threshold': 3., 'operation': 'gt'}}]
        kw['calc_grouping'] = ['year']
    elif p['calc'] == 'expr':
        kw['calc'] = '{0}={0}*2'.format(s['vars'][0]['name']) if r.rand() < .3 else 'res={}+1'.format(s['vars'][0]['name'])
    elif p['calc'] == 'multi' and len(s['vars']) > 1:
        kw['calc'] = [{'func': 'divide', 'name': 'q', 'kwds': {'arr1': 'foo', 'arr2': 'bar'}}]
    if 'calc' in kw:
        passed += [kw['calc'], kw.get('calc_grouping')]
        kw['calc_raw'] = p['raw'] and p['agg']
        kw['calc_sample_size'] = bool(r.rand() < .2)
    if p['conform']:
        kw['conform_units_to'] = 'km'
    kw['spatial_reorder'] = p['reorder']
    kw['interpolate_spatial_bounds'] = p['interp']
    if p['wrap']:
        kw['spatial_wrapping'] = p['wrap']
    if p['out']:
        kw['output_crs'] = crs_of(p['out'])
    if p['time'] == 'range':
        kw['time_range'] = trange
        passed.append(trange)
    elif p['time'] == 'region':
        kw['time_region'] = {'month': [int(x) for x in r.randint(1, 13, 9)]}
        passed.append(kw['time_region'])
    elif p['time'] == 'func':
        kw['time_subset_func'] = lambda value, bounds=None: [0]
    elif p['time'] == 'slice' and p['nogeom']:
        kw['slice'] = [None, [0, 1], None, list(span(s['ny'])), None]
        passed.append(kw['slice'])
    elif p['time'] == 'snippet':
        kw['snippet'] = True
    if p['level'] and s['nl']:
        a, b = span(s['nl'])
        kw['level_range'] = [s['le'][a], s['le'][b]]
        passed.append(kw['level_range'])
    kw['melted'] = p['melted']
    kw['abstraction'] = p['abstraction']
    before = [snap_any(x) for x in passed]
    ops = ocgis.OcgOperations(**kw)
    try:
        ret = ops.execute()
    finally:
        for a, x in zip(before, passed):
            d = diff_any(a, snap_any(x))
            check(d is None, 'executing {} changed an object given to it: {}', {k: v for k, v in kw.items() if isinstance(v, (str, bool))}, d)
    if p['fmt'] != 'ocgis':
        ret = None
    return ret, passed


def run(case):
    s = case['field']
    src = make(case)
    ref = G.snap_coll(make(case))
    done = []
    for n, p in enumerate(case['steps']):
        outs = []
        for rep in range(2 if case['repeat'] else 1):
            np.random.seed(n * 7 + rep)
            del GIVEN[:]
            try:
                ret, passed = do(src, s, p, n * 2 + rep)
                outs.append(snap_any(ret))
            except Violation:
                raise
            except Exception as e:
                outs.append(('obj', 'raised {}'.format(type(e).__name__)))
            for o, a in GIVEN:
                d = diff_any(a, snap_any(o))
                check(d is None, '{} changed an object given to it: {}', p['op'], d)
        what = p['op'] + ('' if p['op'] != 'copyops' else ' ' + p['what'])
        if len(outs) == 2:
            d = diff_any(outs[0], outs[1])
            check(d is None, 'the second run of {} differs from the first: {}', what, d)
        if outs[0][1] is None or not str(outs[0][1]).startswith('raised'):
            done.append(what)
        if case['each']:
            d = G.diff_coll(ref, G.snap_coll(src))
            check(d is None, 'the source changed by {}: {}', what, d)
    d = G.diff_coll(ref, G.snap_coll(src))
    check(d is None, 'the source changed by one of {}: {}', [p['op'] for p in case['steps']], d)
    if len(done) < (2 if len(case['steps']) > 1 else 1):
        return ''
    return '{} {}'.format(case['src'], ' '.join(sorted(set(done))[:2]))


# ------------------------------------------------------------------ deep copies
def gen_deep(draw):
    c = gen(draw)
    c['steps'] = []
    return dict(c, what=pick(draw, ['field', 'field', 'var', 'time', 'gvar', 'grid', 'pydeep']), mutate=pick(draw, ['copy', 'source']), slice_first=chance(draw, .3),
                how=[pick(draw, ['value', 'mask', 'attrs', 'bounds', 'structure', 'convert', 'geomvalue', 'name', 'dimname']) for _ in range(draw(I(1, 4)))])


def mutate(o, how):
    """In-place changes of everything reachable."""
    from ocgis.variable.base import VariableCollection
    from ocgis.variable.geom import GeometryVariable
    from ocgis.util.helpers import is_crs_variable
    vs = [v for v in o.values() if not is_crs_variable(v)] if isinstance(o, VariableCollection) else [o]
    for v in vs:
        if how == 'value':
            a = v.get_value()
            if a is not None and a.dtype.kind in 'fiu' and a.flags.writeable:
                a[...] = a + 1
        elif how == 'geomvalue' and isinstance(v, GeometryVariable):
            from shapely.geometry import Point
            for i in np.ndindex(v.shape):
                v.get_value()[i] = Point(99, 99)
        elif how == 'mask':
            m = v.get_mask()
            if m is not None and m.flags.writeable:
                m[...] = ~m
        elif how == 'attrs':
            v.attrs['changed'] = 1
            v.attrs.pop('long_name', None)
        elif how == 'bounds' and getattr(v, 'has_bounds', False) and v.bounds is not None:
            b = v.bounds.get_value()
            if b.flags.writeable:
                b[...] = b - 3
    if isinstance(o, VariableCollection):
        if how == 'attrs':
            o.attrs['changed'] = 1
        elif how == 'structure':
            for n in list(o.keys())[:2]:
                o.remove_variable(n)
        elif how == 'convert' and hasattr(o, 'grid') and o.grid is not None:
            o.update_crs(G.crs_obj('wgs84'))
        elif how == 'name':
            o.set_name('renamed')
        elif how == 'dimname':
            for d in list(o.dimensions)[:1]:
                o.rename_dimension(d, 'renamed_dim')
    else:
        if how == 'name':
            o.set_name('renamed')
        elif how == 'dimname' and o.ndim > 0:
            o.dimensions[0].set_name('renamed_dim')


def run_deep(case):
    import copy
    src = make(case)
    if case['slice_first']:
        src = src[{'x': slice(0, 1)}]
        G.touch(src)
    w = case['what']
    v0 = case['field']['vars'][0]['name']
    if w in ('field', 'pydeep', 'grid'):
        a = src
        if w == 'field':
            b = src.deepcopy()
        elif w == 'grid':
            b = src.grid.deepcopy().parent
        else:
            b = copy.deepcopy(src)
        G.touch(b)
        snap, diff = G.snap_coll, G.diff_coll
    else:
        a = {'var': src[v0], 'time': src.time, 'gvar': None}[w]
        if w == 'gvar':
            a = src.grid.get_abstraction_geometry()
        b = a.deepcopy()
        snap, diff = G.snap_var, G.diff_snap
        if b.has_bounds if hasattr(b, 'has_bounds') else False:
            pass
    d = diff(snap(a), snap(b))
    if w != 'grid':
        check(d is None, 'a deep copy ({}) differs from its source: {}', w, d)
    keep, change = (a, b) if case['mutate'] == 'copy' else (b, a)
    ref = snap(keep)
    kb = None
    if w in ('var', 'time') and getattr(keep, 'has_bounds', False) and keep.bounds is not None:
        kb = G.snap_var(keep.bounds)
    done = []
    for how in case['how']:
        try:
            mutate(change, how)
            done.append(how)
        except Violation:
            raise
        except Exception:
            # Not every change is possible after the ones before it.
            pass
        d = diff(ref, snap(keep))
        check(d is None, 'after {} of the {} of a {}, the other changed: {}', how, case['mutate'], w, d)
        if kb is not None:
            d = G.diff_snap(kb, G.snap_var(keep.bounds))
            check(d is None, 'after {} of the {} of a {}, the bounds of the other changed: {}', how, case['mutate'], w, d)
    return '' if not done else '{} {} {}'.format(w, case['mutate'], done[0])


TARGETS = [
    Target('history', gen, run, 480, 9000, 'at least two steps (one for a single step) ran without error'),
    Target('deepcopy', gen_deep, run_deep, 240, 4000, 'at least one in-place change was made'),
]
