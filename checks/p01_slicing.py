"""Slicing against plain-array orthogonal indexing. A case is non-trivial when at least one index is not the full slice
(all cases of target "variable"; label names the form and the index kinds)."""
import numpy as np
from core import Target, Violation, check, arr_eq
import gens as G
from gens import I, pick, chance


# ------------------------------------------------------------------ variables and collections
def gen_variable(draw):
    ndim = draw(I(1, 3))
    shape = [draw(I(1, 6)) for _ in range(ndim)]
    dt = pick(draw, ['f8', 'f4', 'i4', 'i2', 'bool', 'str', 'obj'])
    case = {'shape': shape, 'dtype': dt, 'seed': draw(I(0, 500)), 'mask': G.draw_density(draw),
            'unlimited': draw(I(-1, ndim - 1)), 'bounds': chance(draw, .6) and ndim <= 2 and dt in ('f8', 'f4', 'i4'),
            'others': [[draw(st_perm(ndim)), draw(I(1, ndim)), G.draw_density(draw), draw(I(0, 500))] for _ in range(draw(I(0, 2)))],
            'scalar': chance(draw, .3), 'src': pick(draw, [None, 'auto']), 'steps': []}
    n = list(shape)
    for _ in range(draw(I(1, 3))):
        form = pick(draw, ['seq', 'dict', 'parent', 'single'] if ndim == 1 else ['seq', 'dict', 'parent'])
        kinds = ('int', 'npint', 'slice', 'list', 'arr', 'bool', 'tuple')
        idx = {}
        if form in ('seq', 'single'):
            for a in range(ndim):
                k = kinds + (('none',) if form == 'seq' else ())
                if form == 'seq' and ndim == 1:
                    k = tuple(x for x in k if x not in ('tuple', 'int', 'npint'))
                idx[str(a)] = G.draw_index(draw, n[a], k)
        else:
            axes = draw(st_subset(ndim))
            for a in axes:
                idx[str(a)] = G.draw_index(draw, n[a], kinds)
        for a, j in idx.items():
            n[int(a)] = len(G.index_positions(j, n[int(a)]))
        case['steps'].append([form, idx])
    return case


def st_perm(n):
    from hypothesis import strategies as st
    return st.permutations(list(range(n)))


def st_subset(n):
    from hypothesis import strategies as st
    return st.lists(I(0, n - 1), min_size=1, max_size=n, unique=True)


def _vals(shape, seed, dt):
    if dt == 'str':
        return np.array(['s{}'.format(i) for i in G.values(shape, seed, 'i4').flat], dtype='U8').reshape(shape)
    if dt == 'obj':
        r = np.empty(int(np.prod(shape)), dtype=object)
        for i, x in enumerate(G.values(shape, seed, 'i4').flat):
            r[i] = 'o{}'.format(x)
        return r.reshape(shape)
    if dt == 'bool':
        return G.values(shape, seed, 'i4') % 2 == 0
    return G.values(shape, seed, dt)


class Ref(object):
    def __init__(self, name, dims, value, mask, bname=None):
        self.name, self.dims, self.value, self.mask = name, dims, value, mask

    def sliced(self, pos):
        p = [pos.get(d) for d in self.dims]
        return Ref(self.name, self.dims, G.take(self.value, p), None if self.mask is None else G.take(self.mask, p))


def run_variable(case):
    from ocgis import Variable, Dimension, VariableCollection
    ndim = len(case['shape'])
    dn = ['d{}'.format(a) for a in range(ndim)]
    dims = []
    for a, n in enumerate(case['shape']):
        if a == case['unlimited']:
            dims.append(Dimension(dn[a], size_current=n))
        else:
            dims.append(Dimension(dn[a], size=n, src_idx=case['src']))
    vc = VariableCollection()
    refs = {}

    def add(name, axes, seed, dens, dt, bounds=False):
        shp = tuple(case['shape'][a] for a in axes)
        val, m = _vals(shp, seed, dt), G.mask(shp, seed, dens)
        v = Variable(name, val.copy(), [dims[a] for a in axes], mask=None if m is None else m.copy(), attrs={'a': name})
        refs[name] = Ref(name, [dn[a] for a in axes], val, m)
        if bounds:
            nb = 2 if len(shp) == 1 else 4
            bv = np.stack([val + (b if val.dtype.kind != 'f' else b * .25) for b in range(nb)], axis=-1)
            v.set_bounds(Variable(name + '_b', bv.copy(), [dims[a] for a in axes] + ['bnd{}'.format(nb)]))
            bm = None if m is None else np.repeat(m[..., None], nb, axis=-1)
            refs[name + '_b'] = Ref(name + '_b', [dn[a] for a in axes] + ['bnd{}'.format(nb)], bv, bm)
        vc.add_variable(v, force=True)
        return v

    add('v', list(range(ndim)), case['seed'], case['mask'], case['dtype'], case['bounds'])
    for i, (perm, k, dens, seed) in enumerate(case['others']):
        add('o{}'.format(i), perm[:k], seed, dens, 'f8')
    if case['scalar']:
        vc.add_variable(Variable('sc', attrs={'k': 5}))
        sv = Variable('far', [1., 2.], 'elsewhere', mask=[False, True])
        refs['far'] = Ref('far', ['elsewhere'], np.array([1., 2.]), np.array([False, True]))
        vc.add_variable(sv)
    cur, currefs = vc, refs
    kinds = set()
    for form, idx in case['steps']:
        v = cur['v']
        before = G.snap_coll(cur)
        pos = {dn[int(a)]: G.index_positions(j, len(currefs['v'].value.take(0, axis=0)) if False else currefs['v'].value.shape[int(a)])
               for a, j in idx.items()}
        kinds.update(j[0] for j in idx.values())
        objs = {int(a): G.index_obj(j) for a, j in idx.items()}
        if form == 'seq':
            seq = [objs[a] for a in range(ndim)]
            res = v[seq[0]] if ndim == 1 else v[tuple(seq)]
            new = res.parent
        elif form == 'single':
            res = v[objs[0]]
            new = res.parent
        elif form == 'dict':
            # A dictionary slice of a variable names all of its dimensions or some of them.
            res = v[{dn[a]: o for a, o in objs.items()}]
            new = res.parent
        else:
            new = cur[{dn[a]: o for a, o in objs.items()}]
            res = new['v']
        d = G.diff_coll(before, G.snap_coll(cur))
        check(d is None, 'source changed by slicing {} {}: {}', form, idx, d)
        newrefs = {k: r.sliced(pos) for k, r in currefs.items()}
        check(res.name == 'v' and new['v'] is res, 'sliced variable not in its collection')
        check(sorted(k for k in new.keys() if k != 'sc') == sorted(newrefs), 'variables {} expected {}', list(new.keys()), sorted(newrefs))
        for k, r in newrefs.items():
            x = new[k]
            check(tuple(x.dimension_names) == tuple(r.dims), '{} dimensions {}', k, x.dimension_names)
            arr_eq(x.get_value(), r.value, 'value of {} after {} {}'.format(k, form, idx))
            m = x.get_mask()
            arr_eq(np.zeros(r.value.shape, bool) if m is None else m, np.zeros(r.value.shape, bool) if r.mask is None else r.mask,
                   'mask of {} after {} {}'.format(k, form, idx))
            check(tuple(x.shape) == r.value.shape, 'shape of {} is {} expected {}', k, x.shape, r.value.shape)
            lens = tuple(len(dd) for dd in x.dimensions)
            check(lens == r.value.shape, 'dimension sizes of {} are {} expected {} after {} {}', k, lens, r.value.shape, form, idx)
            check(x.get_value().dtype == r.value.dtype, 'dtype of {} is {}', k, x.get_value().dtype)
            if not k.endswith('_b'):
                check(x.attrs.get('a', k) == k or k == 'far', 'attributes of {}: {}', k, x.attrs)
            for dd in x.dimensions:
                if dd.name.startswith('d'):
                    check(dd.is_unlimited == (dd.name == 'd{}'.format(case['unlimited'])), 'unlimited state of {}', dd)
                    if dd._src_idx is not None and False:
                        pass
        if case['bounds']:
            check(res.has_bounds and res.bounds.name == 'v_b', 'bounds lost')
        if case['scalar']:
            check('sc' in new and new['sc'].attrs['k'] == 5, 'dimensionless variable lost')
        # In-place change of the result does not change dimension bookkeeping of the source: sizes compared above.
        cur, currefs = new, newrefs
    return ['nd{}'.format(ndim)] + sorted(kinds) + [f for f, _ in case['steps']]


# ------------------------------------------------------------------ fields, grids, geometries
def gen_field(draw):
    s = G.draw_field(draw, nl='maybe', nr='maybe', order=pick(draw, [None, 'any']), nx=(1, 5), ny=(1, 5))
    case = {'f': s, 'how': pick(draw, ['field', 'axis', 'grid', 'geom', 'data']), 'steps': [], 'gmask': G.draw_density(draw),
            'geom': pick(draw, [None, 'point', 'polygon'])}
    size = {d: s[G.SIZEK[d]] for d in 'rtlyx'}
    for _ in range(draw(I(1, 2))):
        if case['how'] in ('grid', 'geom'):
            dd = ['y', 'x']
        elif case['how'] == 'data':
            dd = s['vars'][0]['dims']
        else:
            present = [d for d in 'rtlyx' if size[d] is not None]
            dd = [present[i] for i in draw(st_subset(len(present)))]
        idx = {}
        for d in dd:
            idx[d] = G.draw_index(draw, size[d], ('int', 'slice', 'list', 'arr', 'bool'))
            size[d] = len(G.index_positions(idx[d], size[d]))
        case['steps'].append(idx)
    return case


def _expect(s, pos):
    def sub(a, *axes):
        return G.take(np.ma.array(a), [pos.get(d) for d in axes])
    e = {}
    for v in s['vars']:
        e[v['name']] = G.take(G.varray(s, v), [pos.get(d) for d in v['dims']])
    X, Y = G.centres(s)
    VX, VY = G.vertices(s)
    e['X'], e['Y'] = sub(X, 'y', 'x'), sub(Y, 'y', 'x')
    if s['bounds']:
        e['CX'] = sub(G.corners_from_vertices(VX), 'y', 'x', '-')
        e['CY'] = sub(G.corners_from_vertices(VY), 'y', 'x', '-')
        e['xb'] = sub(G.ebounds(s['xe']), 'x', '-')
        e['yb'] = sub(G.ebounds(s['ye']), 'y', '-')
    if s['nt']:
        e['t'] = sub(G.time_vals(s['time']), 't')
        e['tb'] = sub(G.ebounds(s['time']['edges']), 't', '-')
    if s['nl']:
        e['l'] = sub(G.mids(s['le']), 'l')
        e['lb'] = sub(G.ebounds(s['le']), 'l', '-')
    if s['nr']:
        e['r'] = sub(np.arange(1, s['nr'] + 1), 'r')
    return e


def compose(p, positions, n):
    p = list(range(n)) if p is None else p
    return [p[i] for i in positions]


def run_field(case):
    s = case['f']
    field = G.build_field(s)
    gm = G.mask((s['ny'], s['nx']), 3, case['gmask'])
    if gm is not None:
        field.grid.set_mask(gm)
    if case['geom'] == 'polygon' and not s['bounds'] and False:
        pass
    if case['how'] == 'geom' or case['geom']:
        ab = case['geom'] or 'point'
        if ab == 'polygon' and (min(s['ny'], s['nx']) < 2 and not s['bounds']):
            ab = 'point'
        if ab == 'polygon' and not s['bounds']:
            ab = 'point'
        field.grid.abstraction = ab
        field.set_abstraction_geom(create_ugid=True)
    cur, pos = field, {}
    for idx in case['steps']:
        before = G.snap_coll(cur)
        size = {d: s[G.SIZEK[d]] if pos.get(d) is None else len(pos[d]) for d in 'rtlyx'}
        objs = {d: G.index_obj(j) for d, j in idx.items()}
        if case['how'] == 'field':
            new = cur[{G.DIMN[d]: o for d, o in objs.items()}]
        elif case['how'] == 'axis':
            new = cur.get_field_slice({G.DIMN[d]: o for d, o in objs.items()})
        elif case['how'] == 'grid':
            new = cur.grid[objs['y'], objs['x']].parent
        elif case['how'] == 'geom':
            new = cur.geom[objs['y'], objs['x']].parent
        else:
            v0 = s['vars'][0]
            new = cur[v0['name']][tuple(objs[d] for d in v0['dims'])].parent
        d = G.diff_coll(before, G.snap_coll(cur), order=False)
        check(d is None, 'source field changed by slicing: {}', d)
        for d, j in idx.items():
            pos[d] = compose(pos.get(d), G.index_positions(j, size[d]), s[G.SIZEK[d]])
        e = _expect(s, pos)
        mm = None if gm is None else G.take(gm, [pos.get('y'), pos.get('x')])
        for v in s['vars']:
            arr_eq(new[v['name']].get_masked_value(), e[v['name']], 'data {}'.format(v['name']))
            check(tuple(len(x) for x in new[v['name']].dimensions) == e[v['name']].shape, 'dimension sizes of {}', v['name'])
        g = new.grid
        check(tuple(g.shape) == e['X'].shape, 'grid shape {} expected {}', g.shape, e['X'].shape)
        if s['grid'] == '1d':
            arr_eq(g.x.get_value(), e['X'][0, :], 'x', mask=False)
            arr_eq(g.y.get_value(), e['Y'][:, 0], 'y', mask=False)
            if s['bounds']:
                arr_eq(g.x.bounds.get_value(), e['xb'], 'x bounds')
                arr_eq(g.y.bounds.get_value(), e['yb'], 'y bounds')
        else:
            arr_eq(g.x.get_value(), e['X'], 'x')
            arr_eq(g.y.get_value(), e['Y'], 'y')
            if s['bounds']:
                arr_eq(g.x.bounds.get_value(), e['CX'], 'x corners')
                arr_eq(g.y.bounds.get_value(), e['CY'], 'y corners')
        if mm is not None:
            got = g.get_mask()
            arr_eq(np.zeros(mm.shape, bool) if got is None else got, mm, 'grid mask')
        if s['nt']:
            arr_eq(new.time.get_value(), e['t'], 'time')
            if s['time']['bounds']:
                arr_eq(new.time.bounds.get_value(), e['tb'], 'time bounds')
        if s['nl']:
            arr_eq(new.level.get_value(), e['l'], 'level')
            if s['lb']:
                arr_eq(new.level.bounds.get_value(), e['lb'], 'level bounds')
        if s['nr']:
            arr_eq(new.realization.get_value(), e['r'], 'realization')
        if case['how'] == 'geom' or case['geom']:
            gv = new.geom.get_value()
            check(gv.shape == e['X'].shape, 'geometry shape {}', gv.shape)
            for ij in np.ndindex(*gv.shape):
                if mm is not None and mm[ij]:
                    continue
                c = gv[ij].centroid
                check(abs(c.x - e['X'].data[ij]) < 1e-6 and abs(c.y - e['Y'].data[ij]) < 1e-6, 'geometry at {} is {}', ij, gv[ij].wkt)
            ug = np.arange(1, s['ny'] * s['nx'] + 1).reshape(s['ny'], s['nx'])
            arr_eq(new.geom.ugid.get_value(), G.take(ug, [pos.get('y'), pos.get('x')]), 'geometry identifier', mask=False)
        cur = new
    return [case['how'], s['grid']] + sorted({j[0] for st in case['steps'] for j in st.values()})


# ------------------------------------------------------------------ time coordinates with their cached conversions
def gen_time(draw):
    n = draw(I(1, 8))
    steps, case = [], {'n': n, 'dates': chance(draw), 'bounds': chance(draw), 'owner': chance(draw), 'mask': G.draw_density(draw), 'seed': draw(I(0, 99)),
                       'cal': pick(draw, ['standard', 'noleap', '360_day']), 'unl': chance(draw)}
    for _ in range(draw(I(1, 3))):
        kinds = ('slice', 'list', 'arr', 'bool') + (('int',) if case['owner'] else ())
        j = G.draw_index(draw, n, kinds)
        steps.append([[x for x in ('value_datetime', 'value_numtime', 'extent_datetime') if chance(draw)], pick(draw, ['var', 'dict']), j])
        n = len(G.index_positions(j, n))
        if n == 0:
            break
    case['steps'] = steps
    return case


def run_time(case):
    from ocgis import TemporalVariable, Dimension, Field, Variable
    import cftime
    n = case['n']
    T = np.cumsum(np.random.RandomState(case['seed']).randint(1, 9, n)) / 4.
    B = np.stack([T - .125, T + .125], axis=-1)
    u = 'days since 2000-02-20'

    def when(a):
        return np.array([cftime.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second)
                         for x in cftime.num2date(a.flatten(), u, calendar=case['cal'])], dtype=object).reshape(a.shape)
    conv = when if case['dates'] else (lambda a: a.copy())
    m = G.mask((n,), case['seed'], case['mask'])
    dim = Dimension('time', size_current=n) if case['unl'] else Dimension('time', n)
    b = TemporalVariable(name='tb', value=conv(B), dimensions=[dim, 'bnds'], units=u, calendar=case['cal']) if case['bounds'] else None
    tv = TemporalVariable(name='time', value=conv(T), dimensions=dim, units=u, calendar=case['cal'], bounds=b, mask=m)
    other = np.arange(n) * 2
    cur = tv
    if case['owner']:
        f = Field(time=tv, variables=Variable('o', other.copy(), [dim]))
        cur = f.time
    pos = np.arange(n)

    def verify(v, when_):
        want = T[pos]
        mm = None if m is None else m[pos]
        for o, w in [(v, want)] + ([(v.bounds, B[pos])] if case['bounds'] else []):
            arr = np.ma.array(o.value_numtime).data.astype(float)
            check(arr.shape == w.shape and np.allclose(arr, w, atol=1e-6), '{}: numeric times of {} are {} expected {}', when_, o.name, arr.tolist(), w.tolist())
            d = np.ma.array(o.value_datetime).data
            wd = when(w)
            ok = d.shape == wd.shape and all((x.year, x.month, x.day, x.hour, x.minute, x.second) == (y.year, y.month, y.day, y.hour, y.minute, y.second)
                                             for x, y in zip(d.flat, wd.flat))
            check(ok, '{}: dates of {} are {} expected {}', when_, o.name, d.tolist(), wd.tolist())
        gm = v.get_mask()
        check(np.array_equal(np.zeros(len(pos), bool) if gm is None else gm, np.zeros(len(pos), bool) if mm is None else mm), '{}: time mask {}', when_, gm)
        check(v.shape == (len(pos),) and len(v.dimensions[0]) == len(pos) and v.dimensions[0].is_unlimited == case['unl'], '{}: {} {}', when_, v.shape, v.dimensions)
        check(v.units == u and v.calendar == case['cal'], '{}: units {} {}', when_, v.units, v.calendar)
        if case['owner']:
            arr_eq(v.parent['o'].get_value(), other[pos], when_ + ': companion variable')
    for touch, form, j in case['steps']:
        for a in touch:
            if a == 'extent_datetime' and m is not None and m[pos].all():
                continue  # nothing has an extent
            getattr(cur, a)
            if case['bounds'] and a != 'extent_datetime':
                getattr(cur.bounds, a)
        old, oldpos = cur, pos
        o = G.index_obj(j)
        if form == 'dict':
            cur = old.parent[{'time': o}]['time'] if case['owner'] else old[{'time': o}]
        else:
            cur = old[o]
        pos = oldpos[G.index_positions(j, len(oldpos))]
        verify(cur, 'slice {}'.format(j))
        new, pos = pos, oldpos
        verify(old, 'source after slice {}'.format(j))
        pos = new
    return ['dates' if case['dates'] else 'numeric', 'touched' if any(s[0] for s in case['steps']) else 'untouched']


TARGETS = [
    Target('variable', gen_variable, run_variable, quick=2400, thorough=60000, rule='1-3 successive slices of a collection of variables sharing dimensions'),
    Target('time', gen_time, run_time, quick=800, thorough=16000, rule='1-3 successive slices of a time coordinate with or without filled conversion caches'),
    Target('field', gen_field, run_field, quick=700, thorough=16000, rule='1-2 successive slices of a field by dimension names, axis names, grid, geometry or data variable'),
]
