"""Whole requests: one or two generated datasets (files or fields) with request- and operations-level subsets, slices, snippets, one to
three selections, clips, aggregation, unit conversion, renaming and calculations, to memory and netCDF. Oracle: the steps applied
one after another to plain arrays in the documented order. Non-trivial: at least two different kinds of steps take effect."""
import datetime
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st
from checks.p11_spatial_subset import wkt, keep_by_definition, bbox_slice, resolution
from checks.p12_aggregation import wmean, weights_of, want_var, same_union, UD

FUNC = {'mean': np.ma.mean, 'max': np.ma.max, 'min': np.ma.min, 'sum': np.ma.sum}
ALIGN = ('xe', 'ye')


def draw_ds(draw, k, nvars):
    s = G.draw_field(draw, nt=(1, 6), nl='maybe', nr='maybe', ny=(1, 4), nx=(1, 4), nvars=nvars, dtypes=('f8', 'f8', 'f4'), names=[['foo', 'bar'], ['tas', 'pr']][k],
                     x={'lo': -10, 'hi': 10, 'maxstep': 4}, y={'lo': -10, 'hi': 10, 'maxstep': 4}, t={'span': pick(draw, [10, 31, 100, 200])})
    s['crs'] = 'spherical'
    for v in s['vars']:
        v['units'] = 'm'
    d = {'field': s, 'rename': chance(draw, .25), 'fname': chance(draw), 'src': pick(draw, ['file', 'file', 'field', 'loaded', 'rdfield'])}
    e = G.time_vals(s['time'])
    lo, hi = sorted([draw(I(0, len(e) - 1)), draw(I(0, len(e) - 1))])
    d['rd_time'] = [float(s['time']['edges'][lo]) + .1, float(s['time']['edges'][hi + 1]) - .1] if chance(draw, .2) and d['src'] != 'field' else None
    d['rd_level'] = None
    if s['nl'] is not None and chance(draw, .3) and d['src'] != 'field':
        a, b = sorted([draw(I(0, s['nl'] - 1)), draw(I(0, s['nl'] - 1))])
        d['rd_level'] = [s['le'][a] + .1, s['le'][b + 1] - .1]
    return d


def gen(draw):
    nds = 2 if chance(draw, .25) else 1
    calc = pick(draw, [None, None, 'one', 'one', 'two', 'expr'])
    ds = [draw_ds(draw, k, (1, 2)) for k in range(nds)]
    if calc == 'expr' and nds > 1:
        calc = 'one'
    s = ds[0]['field']
    c = {'ds': ds, 'calc': calc, 'funcs': [pick(draw, sorted(FUNC)), pick(draw, sorted(FUNC))], 'group': pick(draw, [['year'], ['month'], ['year', 'month'], 'all', 'all']),
         'cform': pick(draw, ['list', 'list', 'str']), 'calc_raw': False}
    n = draw(I(0, 3))
    kinds = ('poly', 'poly', 'multi', 'hole')
    c['sels'] = []
    for _ in range(n):
        if chance(draw, .12):
            c['sels'].append('POLYGON ((100 50, 101 50, 101 51, 100 51, 100 50))')
        else:
            c['sels'].append(G.draw_sel(draw, pick(draw, ds)['field'], kinds, pad=1))
    ids = draw(st.permutations([1, 2, 3, 7, 12, 40]))
    c['ugid'] = list(ids[:n])
    c['op'] = pick(draw, ['intersects', 'clip'])
    c['agg'] = chance(draw, .35)
    c['allow_empty'] = chance(draw)
    c['agg_selection'] = n > 1 and chance(draw, .15)
    c['radius'] = None
    if n and chance(draw, .15) and all(d['field'][k] > 1 for d in ds for k in ('nx', 'ny')):
        # Everything within a radius around points, given in multiples of the resolution of each dataset.
        c['radius'] = pick(draw, [.4, .75, 1.1, 2.3])
        c['sels'] = [G.draw_sel(draw, pick(draw, ds)['field'], ('point', 'mpoint'), pad=1) for _ in range(n)]
        c['op'], c['agg_selection'] = 'intersects', False
    c['conform'] = chance(draw, .3)
    mode = pick(draw, [None, None, None, 'slice', 'snippet'])
    if mode == 'snippet' and (calc or any(d['field']['nt'] is None for d in ds)):
        mode = None
    c['mode'] = mode
    if mode == 'slice':
        c['sels'], c['ugid'], c['agg_selection'] = [], [], False
    if mode == 'slice':
        sl = []
        for k in ('nr', 'nt', 'nl', 'ny', 'nx'):
            m = min(d['field'][k] or 1 for d in ds)
            if chance(draw, .4) or any(d['field'][k] is None for d in ds):
                sl.append(None)
            else:
                a = draw(I(0, m - 1))
                b = draw(I(a + 1, m))
                sl.append(pick(draw, [[a, b], [a, b], [a, b, draw(I(1, 3))], [None, b, 2], [a, None], [a, None, draw(I(1, 2))], a, -1, [-draw(I(1, m)), None]]))
        c['slice'] = sl
    # Times and levels of the first dataset; all datasets must have the axis.
    t = s['time']
    i, j = sorted([draw(I(0, s['nt'] - 1)), draw(I(0, s['nt'] - 1))])
    c['time'] = pick(draw, [None, None, 'range', 'region', 'func'])
    if c['time'] == 'range':
        c['trange'] = [float(t['edges'][i]) + .1, float(t['edges'][j + 1]) - .1]
        if chance(draw, .1):
            c['trange'] = [99000.1, 99001.1]
    elif c['time'] == 'region':
        for d in ds:
            d['field']['time']['bounds'] = False
        dt = C.add_seconds('standard', [2000, 1, 1, 0, 0, 0], float(G.time_vals(t)[i]) * 86400)
        c['region'] = {'month': sorted({dt[1], draw(I(1, 12))})} if chance(draw) else {'year': [dt[0]]}
    elif c['time'] == 'func':
        c['step'] = draw(I(1, 3))
    c['level'] = None
    if all(d['field']['nl'] is not None for d in ds) and chance(draw, .4):
        a, b = sorted([draw(I(0, s['nl'] - 1)), draw(I(0, s['nl'] - 1))])
        c['level'] = [s['le'][a] + .1, s['le'][b + 1] - .1]
    c['out'] = pick(draw, ['ocgis', 'ocgis', 'ocgis', 'nc'])
    if nds > 1 or (n > 1 and not c['agg_selection']) or c['agg'] or c['op'] == 'clip':
        c['out'] = 'ocgis'
    c['twice'] = chance(draw, .25)
    c['abstraction'] = pick(draw, ['auto', 'auto', 'auto', 'point'])
    return c


def day(x):
    return datetime.datetime(2000, 1, 1) + datetime.timedelta(days=x)


class Empty(Exception):
    pass


class A(object):
    """A dataset as plain arrays."""

    def __init__(self, d):
        s = d['field']
        self.s = s
        self.vars = {v['name']: (v['dims'], G.varray(s, v), v['dtype']) for v in s['vars']}
        self.t = np.asarray(G.time_vals(s['time']))
        self.tb = np.asarray(G.ebounds(s['time']['edges'])) if s['time']['bounds'] else None
        self.l = None if s['nl'] is None else np.asarray(G.mids(s['le']))
        self.lb = np.asarray(G.ebounds(s['le'])) if s['nl'] is not None and s['lb'] else None
        self.r = None if s['nr'] is None else np.arange(1, s['nr'] + 1)
        self.X, self.Y = np.meshgrid(np.arange(s['nx']), np.arange(s['ny']))
        self.steps = set()

    def take(self, k, idx):
        idx = np.asarray(idx)
        if idx.size == 0:
            raise Empty
        for n, (dims, a, dt) in self.vars.items():
            if k in dims:
                self.vars[n] = (dims, a[(slice(None),) * dims.index(k) + (idx,)], dt)
        if k == 't':
            if len(idx) != len(self.t):
                self.steps.add('time')
            self.t = self.t[idx]
            self.tb = None if self.tb is None else self.tb[idx]
        elif k == 'l':
            if len(idx) != len(self.l):
                self.steps.add('level')
            self.l = self.l[idx]
            self.lb = None if self.lb is None else self.lb[idx]
        elif k == 'r':
            self.r = self.r[idx]
        elif k == 'x':
            self.X, self.Y = self.X[:, idx], self.Y[:, idx]
        elif k == 'y':
            self.X, self.Y = self.X[idx], self.Y[idx]

    def between(self, k, lo, hi):
        v, b = (self.t, self.tb) if k == 't' else (self.l, self.lb)
        if b is not None:
            self.take(k, np.where((b.min(axis=1) < hi) & (b.max(axis=1) > lo))[0])
        else:
            self.take(k, np.where((v >= lo) & (v <= hi))[0])


def source(case, k):
    import ocgis
    d = case['ds'][k]
    s = d['field']
    names = [v['name'] for v in s['vars']]
    if d['src'] == 'field':
        return G.build_field(s, name='ds%d' % k), ['ds%d' % k], names
    path = os.path.abspath('in%d.nc' % k)
    if not os.path.exists(path):
        G.write_nc(s, path)
    kw = {'variable': names if len(names) > 1 else names[0], 'crs': G.crs_obj('spherical')}
    new = list(names)
    if d['rename']:
        new = ['new_' + n for n in names]
        kw['rename_variable'] = new if len(new) > 1 else new[0]
    if d['fname'] or len(case['ds']) > 1:
        kw['field_name'] = 'ds%d' % k
    if d['rd_time']:
        kw['time_range'] = [day(x) for x in d['rd_time']]
    if d['rd_level']:
        kw['level_range'] = d['rd_level']
    rd = ocgis.RequestDataset(path, **kw)
    fn = ['ds%d' % k] if 'field_name' in kw else [new[0] if len(new) == 1 else 'ocgis_field']
    if d['src'] in ('rdfield', 'loaded'):
        f = rd.get()
        if d['src'] == 'loaded':
            f.load()
        return f, fn, new
    return rd, fn, new


def run(case):
    import ocgis
    from ocgis.exc import ExtentError
    from shapely.ops import unary_union
    sels = [wkt(w) for w in case['sels']]
    srcs, empt_rd = [], []
    fns, new = [], []
    arrs = []
    for k, d in enumerate(case['ds']):
        a = A(d)
        e = False
        try:
            if d['src'] != 'field':
                if d['rd_time']:
                    a.between('t', *d['rd_time'])
                if d['rd_level']:
                    a.between('l', *d['rd_level'])
        except Empty:
            e = True
        if e:
            raise Skip('the request dataset itself is empty')
        arrs.append(a)
        s_, fn, nn = source(case, k)
        srcs.append(s_)
        fns += fn
        new.append(nn)
    kw = {'dataset': srcs if len(srcs) > 1 else srcs[0], 'output_format': case['out'], 'allow_empty': case['allow_empty'], 'spatial_operation': case['op'],
          'aggregate': case['agg'], 'prefix': 'out', 'dir_output': os.getcwd()}
    if sels:
        kw['geom'] = [{'geom': g, 'properties': {'UGID': u, 'NAME': 'n%d' % u}, 'crs': G.crs_obj('spherical')} for g, u in zip(sels, case['ugid'])]
        kw['agg_selection'] = case['agg_selection']
    if case['conform']:
        kw['conform_units_to'] = 'km'
    if case['mode'] == 'snippet':
        kw['snippet'] = True
    elif case['mode'] == 'slice':
        kw['slice'] = case['slice']
    if case['time'] == 'range':
        kw['time_range'] = [day(x) for x in case['trange']]
    elif case['time'] == 'region':
        kw['time_region'] = case['region']
    elif case['time'] == 'func':
        step = case['step']
        kw['time_subset_func'] = lambda value, bounds=None: list(range(0, len(value), step))
    if case['level']:
        kw['level_range'] = case['level']
    point = case['abstraction'] == 'point'
    if point:
        kw['abstraction'] = 'point'
    if case.get('radius'):
        kw['search_radius_mult'] = case['radius']
    calc = case['calc']
    if calc:
        fs = [{'func': f, 'name': 'r%d' % i} for i, f in enumerate(case['funcs'][:2 if calc == 'two' else 1])]
        if calc == 'expr':
            kw['calc'] = 'res={}*2+1'.format(new[0][0])
        else:
            kw['calc'] = fs
            kw['calc_grouping'] = case['group']
    # The documented order on plain arrays.
    circles = {}
    want = []  # (container, field name, None for empty | A, keep, geometries, weights)
    must_raise = False
    for k, (d, a) in enumerate(zip(case['ds'], arrs)):
        s = d['field']
        try:
            if case['time'] == 'range':
                a.between('t', *case['trange'])
            elif case['time'] == 'region':
                dates = [C.add_seconds('standard', [2000, 1, 1, 0, 0, 0], float(x) * 86400) for x in a.t]
                r = case['region']
                a.take('t', np.array([i for i, x in enumerate(dates) if x[1] in r.get('month', range(1, 13)) and x[0] in r.get('year', [x[0]])], dtype=int))
            elif case['time'] == 'func':
                a.take('t', np.arange(0, len(a.t), case['step']))
            if case['level']:
                a.between('l', *case['level'])
        except Empty:
            if not case['allow_empty']:
                must_raise = True
            want.append((None, fns[k], None, None, None, None))
            continue
        if case['mode'] == 'snippet':
            for ax in 'rtl':
                if getattr(a, ax) is not None:
                    a.take(ax, [0])
            a.steps.add('snippet')
        elif case['mode'] == 'slice':
            for ax, x in zip('rtlyx', case['slice']):
                if x is not None:
                    n = {'r': lambda: len(a.r), 't': lambda: len(a.t), 'l': lambda: len(a.l), 'y': lambda: a.X.shape[0], 'x': lambda: a.X.shape[1]}[ax]()
                    idx = list(range(n))[slice(*x) if isinstance(x, list) else slice(x, x + 1 or None)]
                    if not idx:
                        raise Skip('a slice of nothing')
                    a.take(ax, idx)
            a.steps.add('slice')
        poly = s['bounds'] and not point
        full = G.cells(s) if poly else G.points(s)
        garr = np.empty(a.X.shape, dtype=object)
        for i in np.ndindex(garr.shape):
            garr[i] = full[a.Y[i], a.X[i]]
        units = [(None, None)]
        if sels and case['mode'] != 'slice':
            units = list(zip(case['ugid'], sels))
            if case.get('radius'):
                units = [(u, g.buffer(case['radius'] * resolution(s))) for u, g in units]
                for u, U in units:
                    circles.setdefault(u, []).append(U)
                    for g in garr.flat:
                        if g.distance(U.boundary) < 1e-9 and (g.area == 0 or g.intersection(U).area < 1e-9):
                            raise Skip
                a.steps.add('radius')
            if case['agg_selection']:
                U = unary_union(sels)
                units = [(1, U)]
                for g in garr.flat:
                    if g.distance(U.boundary) < 1e-9 and (g.area == 0 or g.intersection(U).area < 1e-9):
                        raise Skip
        for u, sel in units:
            keep = np.ones(garr.shape, bool) if sel is None else keep_by_definition(garr, sel, not poly)
            if not keep.any():
                if not case['allow_empty']:
                    must_raise = True
                want.append((u, fns[k], None, None, None, None))
                continue
            gg = garr
            if sel is not None and case['op'] == 'clip':
                gg = np.empty(garr.shape, dtype=object)
                for i in np.ndindex(gg.shape):
                    gg[i] = garr[i].intersection(sel) if keep[i] else garr[i]
            want.append((u, fns[k], a, keep, gg, sel))

    for rnd in range(2 if case['twice'] else 1):
        if rnd:
            kw['prefix'] = 'out2'
        try:
            ret = ocgis.OcgOperations(**kw).execute()
            raised = False
        except ExtentError:
            raised = True
        if must_raise:
            check(raised, 'a subset is empty and empty results are not allowed, but there was no error')
            return 'error'
        check(not raised, 'extent error though nothing is empty or empty results are allowed')
        if case['out'] == 'nc':
            if any(w[2] is None for w in want):
                raise Skip('no file for an empty result')
            fld = ocgis.RequestDataset(ret).create_field() if False else None
            judge_nc(case, ret, want[0], new[0])
            continue
        ids = []
        for w in want:
            if w[0] not in ids:
                ids.append(w[0])
        check(sorted(ret.children, key=str) == sorted(ids, key=str), 'containers {} expected {}', list(ret.children), ids)
        for u in ids:
            exp = [w for w in want if w[0] == u]
            got = ret.children[u]
            fields = list(got.children.values())
            check(len(fields) == len(exp), 'container {} has fields {}, expected {}', u, [f.name for f in fields], [w[1] for w in exp])
            if u is not None and not case['agg_selection']:
                sel = sels[case['ugid'].index(u)]
                if case.get('radius'):
                    check(any(ret.geoms[u].symmetric_difference(x).area < 1e-9 for x in circles[u]), 'geometry of container {} is {}', u, ret.geoms[u].wkt)
                else:
                    check(ret.geoms[u].equals(sel), 'geometry of container {} is {}', u, ret.geoms[u].wkt)
                check(ret.properties[u].get('NAME') == 'n%d' % u, 'properties of container {} are {}', u, dict(ret.properties[u]))
            for f, w in zip(fields, exp):
                k = fns.index(w[1])
                if w[2] is None:
                    check(f.is_empty, 'the field of {} in container {} is not empty', w[1], u)
                    continue
                check(f.name == w[1], 'field {} expected {}', f.name, w[1])
                check(not f.is_empty, 'the field of {} in container {} is empty', w[1], u)
                judge(case, f, w, case['ds'][k]['field'], new[k])
    kinds = set()
    for w in want:
        if w[2] is not None:
            kinds |= w[2].steps
            if w[3] is not None and not w[3].all():
                kinds.add(case['op'])
    for k in ('agg', 'conform', 'calc'):
        if case[k]:
            kinds.add(k)
    return '' if len(kinds) < 2 else '{}ds {}'.format(len(case['ds']), ' '.join(sorted(kinds)))


def groups_of(a, group):
    dates = [C.add_seconds('standard', [2000, 1, 1, 0, 0, 0], float(x) * 86400) for x in a.t]
    if group == 'all':
        return [list(range(len(dates)))]
    ix = {'year': 0, 'month': 1}
    keys = [tuple(d[ix[g]] for g in ('year', 'month') if g in group) for d in dates]
    return [[i for i, k in enumerate(keys) if k == kk] for kk in sorted(set(keys))]


def result(case, a, keep, gg, n, slc):
    """(dimension letters, expected array) of the result for variable n before calculations by name; dims end in 'g' if aggregated."""
    dims, x, dt = a.vars[n]
    if case['agg']:
        e = want_var(x, dims, ['y', 'x'], weights_of(gg, keep))
        d2 = [d for d in dims if d not in 'yx'] + ['g']
    else:
        e = x[tuple(slc['yx'.index(d)] if d in 'yx' else slice(None) for d in dims)]
        k = keep[slc]
        kk = k if dims.index('y') < dims.index('x') else k.T
        e = np.ma.array(e.data.astype('f8'), mask=np.ma.getmaskarray(e) | ~kk.reshape([e.shape[i] if d in 'yx' else 1 for i, d in enumerate(dims)]))
        d2 = list(dims)
    if case['conform']:
        e = np.ma.array(e.data / 1000., mask=np.ma.getmaskarray(e))
    return d2, e


def expected(case, a, keep, gg, names, new, slc):
    """name in the result -> candidates of (dims, array, tolerance)."""
    out = {}
    for v, nn in zip(names, new):
        dims, e = result(case, a, keep, gg, v, slc)
        f4 = a.vars[v][2] == 'f4'
        big = float(np.abs(e.compressed()).max()) if e.compressed().size else 0.
        tol = (3e-6 if f4 else 1e-10) * (big + 1e-3)
        if not case['calc']:
            out[nn] = (dims, e, tol)
        elif case['calc'] == 'expr':
            if nn == new[0]:
                out['res'] = (dims, np.ma.array(e.data * 2 + 1, mask=np.ma.getmaskarray(e)), tol * 2 + (1e-6 if f4 else 1e-12))
        else:
            ta = dims.index('t')
            for i, f in enumerate(case['funcs'][:2 if case['calc'] == 'two' else 1]):
                parts = []
                for g in groups_of(a, case['group']):
                    sub = np.ma.array(e.data, mask=np.ma.getmaskarray(e))[(slice(None),) * ta + (g,)]
                    r = np.ma.array(FUNC[f](sub, axis=ta))
                    parts.append(np.ma.array(np.where(np.ma.getmaskarray(r), 0, r.data), mask=np.ma.getmaskarray(r)))
                r = np.ma.stack(parts, axis=ta)
                out['r%d' % i if len(names) == 1 else 'r%d_%s' % (i, nn)] = (dims, r, tol * max(1, len(a.t)))
    return out


def compare(got, dims, e, tol, what):
    got = np.ma.asarray(got)
    check(got.shape == e.shape, '{}: shape {} expected {}', what, got.shape, e.shape)
    gm, em = np.ma.getmaskarray(got), np.ma.getmaskarray(e)
    check(np.array_equal(gm, em), '{}: mask {} expected {}', what, gm.tolist(), em.tolist())
    d = np.abs(got.data.astype('f8') - e.data)
    check(not (d > tol)[~em].any(), '{}: {} expected {}', what, got.tolist(), e.tolist())


def judge(case, f, w, s, new):
    u, fn, a, keep, gg, sel = w
    names = [v['name'] for v in s['vars']]
    slc = bbox_slice(keep)
    exp = expected(case, a, keep, gg, names, new, slc)
    have = sorted(v.name for v in f.data_variables)
    check(have == sorted(exp), 'data variables {} expected {}', have, sorted(exp))
    for n, (dims, e, tol) in exp.items():
        what = '{} of {} for {}'.format(n, fn, u)
        v = f[n]
        dn = [G.DIMN[d] if d != 'g' else UD for d in dims]
        check(list(v.dimension_names) == dn, '{}: dimensions {} expected {}', what, v.dimension_names, dn)
        compare(v.get_masked_value(), dims, e, tol, what)
        if not case['calc']:
            check(v.units == ('km' if case['conform'] else 'm'), '{}: units {}', what, v.units)
    # Axes.
    if case['calc'] in (None, 'expr'):
        dates = [C.parts(o) for o in np.ma.array(f.time.value_datetime).data.flat]
        wd = [C.add_seconds('standard', [2000, 1, 1, 0, 0, 0], float(x) * 86400) for x in a.t]
        check(len(dates) == len(wd) and all(abs(C.diff_seconds('standard', x, y)) <= 1 for x, y in zip(dates, wd)), 'dates {} expected {}', dates, wd)
        if a.tb is not None:
            check(f.time.has_bounds and np.abs(f.time.bounds.get_value() - a.tb).max() < 1e-9, 'time bounds differ from {}', a.tb.tolist())
    if a.l is not None:
        check(np.array_equal(f.level.get_value(), a.l), 'levels {} expected {}', f.level.get_value().tolist(), a.l.tolist())
    if a.r is not None:
        check(np.array_equal(f.realization.get_value(), a.r), 'realizations {} expected {}', f.realization.get_value().tolist(), a.r.tolist())
    if case['agg']:
        check(f.geom.shape == (1,), 'aggregated geometry has shape {}', f.geom.shape)
        same_union(f.geom.get_value()[0], gg[keep], 'union for {}'.format(u))
    else:
        X, Y = a.X[slc], a.Y[slc]
        if s['grid'] == '1d':
            wx, wy = np.asarray(G.mids(s['xe']))[X[0]], np.asarray(G.mids(s['ye']))[Y[:, 0]]
        else:
            cx, cy = G.centres(s)
            wx, wy = cx[Y, X], cy[Y, X]
        gx, gy = f.grid.x.get_masked_value().data, f.grid.y.get_masked_value().data
        if gx.shape == wx.shape:
            m = ~keep[slc] if wx.ndim == 2 else np.zeros(wx.shape, bool)
            check(np.array_equal(gx[~m], wx[~m]) and (np.array_equal(gy[~m], wy[~m]) if wx.ndim == 2 else np.array_equal(gy, wy)), 'coordinates {} {} expected {} {}', gx.tolist(), gy.tolist(), wx.tolist(), wy.tolist())
        else:
            check(gx.ndim == 2 and np.array_equal(gx[0], wx) if wx.ndim == 1 else False, 'coordinates {} expected {}', gx.tolist(), wx.tolist())


def judge_nc(case, path, w, new):
    import netCDF4 as nc
    u, fn, a, keep, gg, sel = w
    s = a.s
    names = [v['name'] for v in s['vars']]
    slc = bbox_slice(keep)
    exp = expected(case, a, keep, gg, names, new, slc)
    ds = nc.Dataset(path)
    for n, (dims, e, tol) in exp.items():
        check(n in ds.variables, '{} is not in the file with {}', n, list(ds.variables))
        v = ds[n]
        check(list(v.dimensions) == [G.DIMN[d] for d in dims], 'dimensions of {} in the file {}', n, v.dimensions)
        compare(v[:], dims, e, tol, '{} in the file'.format(n))
    if case['calc'] in (None, 'expr'):
        got = [C.parts(o) for o in nc.num2date(ds['time'][:], ds['time'].units, getattr(ds['time'], 'calendar', 'standard'))]
        wd = [C.add_seconds('standard', [2000, 1, 1, 0, 0, 0], float(x) * 86400) for x in a.t]
        check(len(got) == len(wd) and all(abs(C.diff_seconds('standard', x, y)) <= 1 for x, y in zip(got, wd)), 'dates in the file {} expected {}', got, wd)
    if a.l is not None:
        check(np.array_equal(ds['level'][:], a.l), 'levels in the file {}', ds['level'][:].tolist())
    ds.close()


TARGETS = [
    Target('combo', gen, run, 260, 5000, 'at least two kinds of steps take effect'),
]
