"""Pieces of variables and fields are stacked again, variables are reshaped, broadcast and reordered and put back, names are changed
and variables extracted in generated histories, and everything is iterated. Oracle: the arrays the objects were built from, a model of
names, dimensions and links, and plain loops over array indices. Non-trivial: more than one piece, a permutation that is not the
identity, a history with a change, or a record with a masked element or a follower."""
import itertools
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if a.shape != b.shape or not np.array_equal(ma, mb):
        return False
    return all(x == y for x, y in zip(a.data[~ma].tolist(), b.data[~mb].tolist()))


def expect(got, want, what):
    check(same(got, want), '{}: expected {}, got {}', what, np.ma.asarray(want).tolist(), np.ma.asarray(got).tolist())


def make_values(shape, seed, dtype):
    if dtype == 'str':
        rs = np.random.RandomState(seed)
        a = np.empty(shape, dtype=object)
        a[...] = np.array(['s%d' % rs.randint(100) for _ in range(int(np.prod(shape)))], dtype=object).reshape(shape)
        return a
    return G.values(shape, seed, dtype)


# ------------------------------------------------------------------ stacking variables
def gen_stackvar(draw):
    nd = draw(I(1, 3))
    shape = [draw(I(1, 5)) for _ in range(nd)]
    ax = draw(I(0, nd - 1))
    n = shape[ax]
    return {'shape': shape, 'axis': ax, 'cuts': sorted(draw(st.sets(I(1, n - 1), max_size=3))) if n > 1 else [],
            'dtype': pick(draw, ['f8', 'f8', 'f4', 'i4', 'i8', 'str']), 'seed': draw(I(0, 999)), 'mask': G.draw_density(draw),
            'src': pick(draw, ['mem', 'mem', 'file', 'sep', 'coll']), 'load': [chance(draw) for _ in range(4)], 'unl': chance(draw, .3),
            'attrs': chance(draw), 'dimobj': chance(draw, .3), 'order': draw(st.permutations(range(4))), 'bounds': chance(draw, .4), 'fill': chance(draw, .3),
            'twice': chance(draw, .3)}


def run_stackvar(case):
    import ocgis
    from ocgis import Variable, Dimension
    from ocgis.variable.base import stack, VariableCollection
    shape, ax = case['shape'], case['axis']
    a = make_values(tuple(shape), case['seed'], case['dtype'])
    m = G.mask(tuple(shape), case['seed'], case['mask']) if case['dtype'] != 'str' else None
    names = ['d%d' % i for i in range(len(shape))]
    dims = [Dimension(n, size=None, size_current=s) if case['unl'] and i == 0 else Dimension(n, s) for i, (n, s) in enumerate(zip(names, shape))]
    attrs = {'units': 'K', 'note': 'x'} if case['attrs'] else {}
    src = case['src']
    if case['dtype'] == 'str' and src == 'file':
        src = 'mem'
    kw = {'fill_value': -9999} if case['fill'] and case['dtype'] != 'str' else {}
    bnd = case['bounds'] and len(shape) == 1 and case['dtype'] != 'str'
    b = np.column_stack([np.asarray(a, 'f8') - 1, np.asarray(a, 'f8') + 1]) if bnd else None

    def variable():
        bv = Variable('a_bnds', b.copy(), [dims[0], 'bnds']) if bnd else None
        return Variable('a', a.copy(), dims, mask=None if m is None else m.copy(), attrs=attrs, dtype=object if case['dtype'] == 'str' else case['dtype'], bounds=bv, **kw)
    edges = [0] + case['cuts'] + [shape[ax]]
    spans = list(zip(edges[:-1], edges[1:]))
    if src == 'sep':
        # Pieces built on their own, some without any mask.
        pieces = []
        for lo, hi in spans:
            sl = (slice(None),) * ax + (slice(lo, hi),)
            pm = None if m is None or not m[sl].any() else m[sl].copy()
            pd = [Dimension(n, hi - lo) if i == ax else Dimension(n, s) for i, (n, s) in enumerate(zip(names, shape))]
            bv = Variable('a_bnds', b[lo:hi].copy(), [pd[0], 'bnds']) if bnd else None
            pieces.append(Variable('a', a[sl].copy(), pd, mask=pm, attrs=attrs, dtype=object if case['dtype'] == 'str' else case['dtype'], bounds=bv, **kw))
    else:
        whole = variable()
        if src == 'file':
            f = ocgis.Field(variables=[whole])
            f.write('a.nc')
            whole = ocgis.VariableCollection.read(os.path.abspath('a.nc'))['a']
        pieces = [whole[{names[ax]: slice(lo, hi)}] for lo, hi in spans]
    for p, load in zip(pieces, case['load']):
        if load:
            p.get_value()
    order = [i for i in case['order'] if i < len(pieces)] if case['twice'] else range(len(pieces))
    order = list(order)
    want = np.ma.concatenate([np.ma.array(a, mask=np.zeros(shape, bool) if m is None else m)[(slice(None),) * ax + (slice(*spans[i]),)] for i in order], axis=ax)
    targets = [pieces[i] for i in order]
    before = [G.snap_var(p) for p in pieces]
    sd = targets[0].dimensions[ax] if case['dimobj'] else names[ax]
    if src == 'coll':
        res = stack([p.parent if len(p.parent) == (2 if bnd else 1) else VariableCollection(variables=[p]) for p in targets], sd)
        got = res['a']
    else:
        got = stack(targets, sd)
    check(got.name == 'a' and list(got.dimension_names) == names, 'stacked {} {}', got.name, got.dimension_names)
    check(got.shape == want.shape, 'stacked shape {} expected {}', got.shape, want.shape)
    expect(got.get_masked_value(), want, 'stacked along {} from {}'.format(names[ax], [spans[i] for i in order]))
    check(got.dimensions[ax].is_unlimited == targets[0].dimensions[ax].is_unlimited, 'unlimited became {}', got.dimensions[ax].is_unlimited)
    if case['dtype'] != 'str':
        check(got.get_value().dtype == a.dtype, 'data type {} became {}', a.dtype, got.get_value().dtype)
    for k, v in attrs.items():
        check(got.attrs.get(k) == v, 'attribute {} is {!r}', k, got.attrs.get(k))
    if bnd and src == 'coll':
        check(got.has_bounds, 'bounds are lost')
        arr_eq(got.bounds.get_value(), np.concatenate([b[slice(*spans[i])] for i in order]), 'stacked bounds')
    # The result shares no values with the pieces.
    if got.get_value().dtype.kind == 'f':
        got.get_value()[...] = -12345.
        got.attrs['new'] = 1
    for p, s in zip(pieces, before):
        d = G.diff_snap(s, G.snap_var(p))
        check(d is None, 'stacking changed a piece: {}', d)
    return '' if len(order) == 1 else '{} {}d {}'.format(src, len(shape), len(order))


# ------------------------------------------------------------------ stacking fields
def gen_stackfield(draw):
    s = G.draw_field(draw, nt=(1, 6), nl='maybe', nr='maybe', ny=(1, 4), nx=(1, 4), order=pick(draw, [None, 'any']), crs=pick(draw, [None, 'wgs84']),
                     t={'calendars': ['standard', 'noleap', '360_day'], 'units': ['days since 2000-01-01', 'hours since 1990-05-01']})
    axes = [k for k in 'tlryx' if s[G.SIZEK[k]] is not None and s[G.SIZEK[k]] > 1]
    ax = 't' if 't' in axes and chance(draw, .6) else (pick(draw, axes) if axes else 't')
    n = s[G.SIZEK[ax]]
    return {'field': s, 'axis': ax, 'cuts': sorted(draw(st.sets(I(1, n - 1), max_size=3))) if n > 1 else [], 'src': pick(draw, ['mem', 'file', 'files']),
            'load': [chance(draw, .4) for _ in range(4)], 'kind': pick(draw, ['slice', 'list', 'deep']), 'write': chance(draw, .3), 'touch': chance(draw)}


def run_stackfield(case):
    import ocgis
    from ocgis.variable.base import stack
    s, ax = case['field'], case['axis']
    dim = G.DIMN[ax]
    n = s[G.SIZEK[ax]]
    edges = [0] + case['cuts'] + [n]
    spans = list(zip(edges[:-1], edges[1:]))

    def source():
        if case['src'] == 'mem':
            return G.build_field(s)
        if not os.path.exists('a.nc'):
            G.write_nc(s, 'a.nc')
        rd = ocgis.RequestDataset(os.path.abspath('a.nc'), variable=[v['name'] for v in s['vars']])
        return G.touch(rd.create_field())
    whole = source()
    ref = source()
    want = G.snap_coll(ref)
    pieces = []
    for lo, hi in spans:
        f = source() if case['src'] == 'files' else whole
        p = f[{dim: slice(lo, hi) if case['kind'] != 'list' else list(range(lo, hi))}]
        pieces.append(p.deepcopy() if case['kind'] == 'deep' and hasattr(p, 'deepcopy') else p)
    for p, load in zip(pieces, case['load']):
        if load:
            p.load()
        if case['touch']:
            G.touch(p)
    res = stack(pieces, dim)
    for p, (lo, hi) in zip(pieces, spans):
        check(len(p.dimensions[dim]) == hi - lo, 'stacking changed the size of {} of a piece to {}', dim, len(p.dimensions[dim]))
        for v in s['vars']:
            a = G.varray(s, v)
            k = v['dims'].index(ax)
            expect(p[v['name']].get_masked_value(), a[(slice(None),) * k + (slice(lo, hi),)], 'piece {} after stacking'.format(v['name']))
    G.touch(res)
    got = G.snap_coll(res)
    for c in (want, got):
        c['dims'] = {k: d[:2] for k, d in c['dims'].items()}
        for v in c['vars'].values():
            if not isinstance(v, tuple):
                v.pop('unl')
    d = G.diff_coll(want, got, order=False)
    check(d is None, 'stacked along {} from {}: {}', dim, spans, d)
    check(type(res) is type(whole), 'stacking {} gave {}', type(whole), type(res))
    if s['nt'] is not None:
        t = s['time']
        nums = G.time_vals(t)
        un, ref0 = t['units'].split(' since ')
        dates = [C.add_seconds(t['calendar'], [int(x) for x in ref0.split('-')] + [0, 0, 0], x * C.UNIT_S[un]) for x in nums]
        gd = [C.parts(o) for o in np.ma.array(res.time.value_datetime).data.flat]
        check(all(abs(C.diff_seconds(t['calendar'], a, b)) <= 1 for a, b in zip(gd, dates)) and len(gd) == len(dates), 'dates {} expected {}', gd, dates)
        check(res.time.has_bounds == bool(t['bounds']), 'time bounds: {}', res.time.has_bounds)
    check(res.grid.shape == (s['ny'], s['nx']), 'grid is {}', res.grid.shape)
    check(sorted(v.name for v in res.data_variables) == sorted(v['name'] for v in s['vars']), 'data variables {}', [v.name for v in res.data_variables])
    if case['write']:
        res.write('o.nc', variable_kwargs={'unlimited_to_fixedsize': True})
        import netCDF4 as nc
        ds = nc.Dataset('o.nc')
        for v in s['vars']:
            expect(ds[v['name']][:], G.varray(s, v), 'written ' + v['name'])
        if s['nt'] is not None:
            expect(ds['time'][:], G.time_vals(s['time']), 'written times')
        ds.close()
    # Values of the result may be changed without changing the pieces.
    v0 = s['vars'][0]
    res[v0['name']].get_value()[...] = 7
    a = G.varray(s, v0)
    k = v0['dims'].index(ax)
    expect(pieces[0][v0['name']].get_masked_value(), a[(slice(None),) * k + (slice(*spans[0]),)], 'piece after the result was changed')
    return '' if len(spans) == 1 else '{} {} {}'.format(case['src'], ax, len(spans))


# ------------------------------------------------------------------ shapes
def gen_shape(draw):
    nd = draw(I(1, 4))
    shape = [draw(I(1, 4)) for _ in range(nd)]
    names = ['d%d' % i for i in range(nd)]
    total = int(np.prod(shape))
    facs = [[total], [1, total], [total, 1]] + [[i, total // i] for i in range(2, total) if total % i == 0]
    extra = draw(I(0, 2))
    dst = names + ['e%d' % i for i in range(extra)]
    drop = [n for n, s in zip(names, shape) if s == 1 and chance(draw, .5)]
    return {'shape': shape, 'dtype': pick(draw, ['f8', 'i4', 'f4']), 'seed': draw(I(0, 999)), 'mask': G.draw_density(draw), 'kind': pick(draw, ['reshape', 'var', 'scope', 'scope', 'arr', 'arr', 'iter']),
            'to': pick(draw, facs), 'perm': list(draw(st.permutations(names))), 'dst': [n for n in draw(st.permutations(dst)) if n not in drop], 'src': pick(draw, ['mem', 'file']),
            'exc': chance(draw, .3), 'masked': chance(draw, .6), 'change': chance(draw, .4), 'nested': chance(draw, .3), 'sub': [chance(draw) for _ in range(nd)]}


def run_shape(case):
    import ocgis
    from ocgis import Variable, Dimension, VariableCollection
    from ocgis.util.broadcaster import broadcast_variable, broadcast_scope, broadcast_array_by_dimension_names
    shape = tuple(case['shape'])
    names = ['d%d' % i for i in range(len(shape))]
    a = G.values(shape, case['seed'], case['dtype'])
    m = G.mask(shape, case['seed'], case['mask'])
    full = np.ma.array(a, mask=np.zeros(shape, bool) if m is None else m)
    if case['kind'] == 'arr':
        arr = full.copy() if case['masked'] else a.copy()
        out = broadcast_array_by_dimension_names(arr, list(names), case['dst'])
        order = [names.index(n) for n in case['dst'] if n in names]
        rest = [i for i in range(len(names)) if i not in order]
        want = (full if case['masked'] else a).transpose(order + rest)
        want = want.reshape([shape[names.index(n)] if n in names else 1 for n in case['dst']])
        expect(out, want, 'broadcast from {} to {}'.format(names, case['dst']))
        expect(arr, full if case['masked'] else a, 'the array given')
        back = broadcast_array_by_dimension_names(out, case['dst'], names)
        expect(back, full if case['masked'] else a, 'broadcast from {} to {} and back'.format(names, case['dst']))
        return '' if case['dst'] == names else 'arr'
    v = Variable('a', a.copy(), names, mask=None if m is None else m.copy(), attrs={'units': 'K'})
    if case['src'] == 'file':
        ocgis.Field(variables=[v]).write('a.nc')
        v = VariableCollection.read(os.path.abspath('a.nc'))['a']
    if case['kind'] == 'iter':
        sub = [n for n, k in zip(names, case['sub']) if k] or names
        got = [tuple(sorted(d.items())) for d in v.iter_dict_slices(sub)]
        want = sorted(tuple(sorted(zip(sub, idx))) for idx in itertools.product(*[range(shape[names.index(n)]) for n in sub]))
        check(sorted(got) == want, 'dictionary slices {} expected {}', got, want)
        for d in v.iter_dict_slices(sub):
            expect(v[d].get_masked_value(), full[tuple(slice(d[n], d[n] + 1) if n in d else slice(None) for n in names)], 'sliced by {}'.format(d))
        return 'iter'
    if case['kind'] == 'reshape':
        orig = v.dimensions
        new = [Dimension('n%d' % i, k) for i, k in enumerate(case['to'])]
        v.reshape(new)
        expect(v.get_masked_value(), full.reshape(case['to']), 'reshaped from {} to {}'.format(shape, case['to']))
        check(v.shape == tuple(case['to']) and list(v.dimension_names) == [d.name for d in new], 'dimensions {} {}', v.dimension_names, v.shape)
        v.reshape(orig)
        expect(v.get_masked_value(), full, 'reshaped from {} to {} and back'.format(shape, case['to']))
        check(v.shape == shape and list(v.dimension_names) == names, 'dimensions {} {}', v.dimension_names, v.shape)
        check(v.units == 'K', 'units are {}', v.units)
        return '' if list(shape) == case['to'] else 'reshape'
    order = [names.index(n) for n in case['perm']]
    want = full.transpose(order)
    if case['kind'] == 'var':
        r = broadcast_variable(v, case['perm'])
        check(r is v, 'another variable was returned')
        expect(v.get_masked_value(), want, 'broadcast to {}'.format(case['perm']))
        check(list(v.dimension_names) == case['perm'] and v.shape == want.shape, 'dimensions {} {}', v.dimension_names, v.shape)
        idx = {case['perm'][0]: slice(0, 1)}
        expect(v[idx].get_masked_value(), want[:1], 'sliced after the broadcast')
        broadcast_variable(v, names)
    else:
        class Stop(Exception):
            pass
        try:
            with broadcast_scope(v, case['perm']) as w:
                check(w is v and list(v.dimension_names) == case['perm'], 'dimensions in scope: {}', w.dimension_names)
                expect(w.get_masked_value(), want, 'in scope of {}'.format(case['perm']))
                if case['nested']:
                    with broadcast_scope(v, case['perm'][::-1]):
                        expect(v.get_masked_value(), want.transpose(), 'in the inner scope')
                    expect(v.get_masked_value(), want, 'after the inner scope')
                if case['change']:
                    v.get_value()[...] = 5
                    full = np.ma.array(np.full(shape, 5, a.dtype), mask=full.mask)
                if case['exc']:
                    raise Stop
        except Stop:
            pass
    expect(v.get_masked_value(), full, 'broadcast to {} and back'.format(case['perm']))
    check(list(v.dimension_names) == names and v.shape == shape and v.units == 'K', 'dimensions {} {}', v.dimension_names, v.shape)
    if m is None and case['src'] == 'mem':
        check(v.get_mask() is None, 'a mask appeared')
    return '' if case['perm'] == names else case['kind']


# ------------------------------------------------------------------ names
def gen_names(draw):
    s = G.draw_field(draw, nt=(1, 3), nl='maybe', ny=(1, 3), nx=(1, 3), nvars=(1, 2), dtypes=('f8',), crs=pick(draw, [None, 'wgs84']))
    ops = []
    for _ in range(draw(I(1, 6))):
        ops.append([pick(draw, ['var', 'var', 'dim', 'dim', 'extract', 'break', 'remove', 'copy', 'deep', 'slice', 'write']), draw(I(0, 20)), draw(I(0, 5)), chance(draw)])
    return {'field': s, 'ops': ops, 'src': pick(draw, ['mem', 'file', 'filel'])}


class M(object):
    """Model: variables by name with dimension names, values and the name of their bounds; axes by role; sizes of dimensions."""

    def __init__(self, vars, axes):
        self.vars = vars
        self.axes = axes

    def copy(self):
        return M({k: [list(d), v.copy(), b] for k, (d, v, b) in self.vars.items()}, dict(self.axes))

    def rename(self, a, b):
        self.vars = {b if k == a else k: [d, v, b if bb == a else bb] for k, (d, v, bb) in self.vars.items()}
        self.axes = {r: b if n == a else n for r, n in self.axes.items()}

    def rename_dim(self, a, b):
        for k, (d, v, bb) in self.vars.items():
            self.vars[k][0] = [b if x == a else x for x in d]

    def dims(self):
        return {n: k for d, v, b in self.vars.values() for n, k in zip(d, v.shape)}


def verify(f, m, what):
    keys = [k for k in f.keys() if f[k].__class__.__module__ != 'ocgis.variable.crs']
    check(sorted(keys) == sorted(m.vars), '{}: variables {} expected {}', what, sorted(keys), sorted(m.vars))
    for k, (d, val, b) in m.vars.items():
        v = f[k]
        check(v.name == k, '{}: the variable stored as {} is named {}', what, k, v.name)
        check(list(v.dimension_names) == d, '{}: dimensions of {} are {} expected {}', what, k, v.dimension_names, d)
        check(tuple(len(x) for x in v.dimensions) == val.shape and v.shape == val.shape, '{}: shape of {} is {} expected {}', what, k, v.shape, val.shape)
        for x in v.dimensions:
            check(x.name in f.dimensions and f.dimensions[x.name] == x, '{}: dimension {} of {} is not the one of the collection', what, x.name, k)
        expect(v.get_masked_value(), val, '{}: values of {}'.format(what, k))
        if b in m.vars:
            check(v.has_bounds and v.bounds.name == b, '{}: bounds of {} are {} expected {}', what, k, v.bounds.name if v.has_bounds else None, b)
            expect(v.bounds.get_masked_value(), m.vars[b][1], '{}: bounds of {}'.format(what, k))
        else:
            check(not v.has_bounds, '{}: {} has bounds {}', what, k, v._bounds_name)
    for k, d in f.dimensions.items():
        check(d.name == k, '{}: the dimension stored as {} is named {}', what, k, d.name)
    for n, k in m.dims().items():
        check(n in f.dimensions and len(f.dimensions[n]) == k, '{}: dimension {} is {} expected size {}', what, n, f.dimensions.get(n), k)
    if m.axes and hasattr(f, 'dimension_map'):
        for r, n in m.axes.items():
            if n not in m.vars:
                continue
            v = getattr(f, r)
            check(v is not None and v.name == n, '{}: axis {} is {} expected {}', what, r, None if v is None else v.name, n)
        if all(m.axes.get(r) in m.vars for r in 'xy'):
            check(f.grid is not None and f.grid.x.name == m.axes['x'] and f.grid.y.name == m.axes['y'], '{}: grid is {}', what, f.grid)
            want = m.vars[m.axes['y']][1].shape if m.vars[m.axes['y']][1].ndim == 2 else (m.vars[m.axes['y']][1].size, m.vars[m.axes['x']][1].size)
            check(tuple(f.grid.shape) == tuple(want), '{}: grid shape {} expected {}', what, f.grid.shape, want)


def run_names(case):
    import ocgis
    s = case['field']
    if case['src'] == 'mem':
        f = G.build_field(s)
    else:
        G.write_nc(s, 'a.nc')
        f = G.touch(ocgis.RequestDataset(os.path.abspath('a.nc'), variable=[v['name'] for v in s['vars']]).create_field())
        if case['src'] == 'filel':
            f.load()
    vars = {}
    ref = G.build_field(s) if case['src'] == 'mem' else G.touch(ocgis.RequestDataset(os.path.abspath('a.nc'), variable=[v['name'] for v in s['vars']]).create_field())
    for k, v in ref.items():
        if v.__class__.__module__ == 'ocgis.variable.crs':
            continue
        vars[k] = [list(v.dimension_names), v.get_masked_value().copy(), v.bounds.name if v.has_bounds else None]
    for v in s['vars']:
        expect(vars[v['name']][1], G.varray(s, v), 'values of ' + v['name'])
    axes = {r: getattr(ref, r).name for r in ('time', 'level', 'x', 'y') if getattr(ref, r) is not None}
    m = M(vars, axes)
    verify(f, m, 'before')
    others = []
    changed = 0
    hist = []
    for kind, i, j, flag in case['ops']:
        names = sorted(m.vars)
        if not names:
            break
        name = names[i % len(names)]
        hist.append((kind, name))
        what = 'after {}'.format(hist)
        if kind == 'var':
            new = ['renamed', 'zz', 'lon2', 'v_1', 'Aa', 'q'][j]
            if new in m.vars:
                continue
            f[name].set_name(new)
            m.rename(name, new)
            changed += 1
        elif kind == 'dim':
            dn = sorted(m.dims())
            if not dn:
                continue
            d = dn[i % len(dn)]
            new = ['ndim', 'dd', 'time2', 'k', 'lat2', 'z'][j]
            if new in f.dimensions:
                continue
            f.rename_dimension(d, new)
            m.rename_dim(d, new)
            hist[-1] = (kind, d, new)
            what = 'after {}'.format(hist)
            changed += 1
        elif kind == 'remove':
            b = m.vars[name][2]
            if any(x[2] == name for x in m.vars.values()) or len(m.vars) < 3 or name in m.axes.values():
                continue  # bounds and axes others refer to stay
            f.remove_variable(name)
            m.vars.pop(name)
            if b in m.vars and b not in f:
                m.vars.pop(b)  # bounds may leave with the variable they belong to
            changed += 1
        elif kind in ('extract', 'break'):
            if any(x[2] == name for x in m.vars.values()) or (kind == 'break' and (len(m.vars) < 3 or name in m.axes.values())):
                continue
            kb = flag or m.vars[name][2] is None
            v = f[name].extract(keep_bounds=kb, clean_break=kind == 'break')
            keep = {name} | ({m.vars[name][2]} if kb and m.vars[name][2] in m.vars else set())
            e = m.copy()
            e.vars = {k: x for k, x in e.vars.items() if k in keep}
            check(v.name == name, '{}: extracted {}', what, v.name)
            e.axes = {}
            verify(v.parent, e, what + ' (extracted)')
            check(set(v.parent.dimensions) == set(e.dims()), '{}: dimensions of the extracted variable {} expected {}', what, sorted(v.parent.dimensions), sorted(e.dims()))
            if kind == 'break':
                m.vars = {k: x for k, x in m.vars.items() if k not in keep}
            # Changes to what was extracted stay there.
            if v.get_value().dtype.kind == 'f' and kind == 'extract':
                v.set_name('other_name')
            others.append(None)
            changed += 1
        elif kind in ('copy', 'deep'):
            c = f.copy() if kind == 'copy' else f.deepcopy() if hasattr(f, 'deepcopy') else f.copy()
            verify(c, m, what + ' (copy)')
            if flag:
                others.append((f, m.copy(), what + ' (original)'))
                f = c
            else:
                others.append((c, m.copy(), what + ' (copy)'))
        elif kind == 'slice':
            dn = sorted(m.dims())
            if not dn:
                continue
            d = dn[i % len(dn)]
            n = m.dims()[d]
            lo = j % n
            f = f[{d: slice(lo, None)}]
            for k, (dd, v, b) in m.vars.items():
                m.vars[k][1] = v[tuple(slice(lo, None) if x == d else slice(None) for x in dd)]
            hist[-1] = (kind, d, lo)
            what = 'after {}'.format(hist)
        elif kind == 'write':
            p = os.path.abspath('w%d.nc' % len(hist))
            f.write(p, variable_kwargs={'unlimited_to_fixedsize': True})
            import netCDF4 as nc
            ds = nc.Dataset(p)
            for k, (d, v, b) in m.vars.items():
                check(k in ds.variables, '{}: {} is not in the file', what, k)
                check(list(ds[k].dimensions) == d, '{}: dimensions of {} in the file {} expected {}', what, k, ds[k].dimensions, d)
                expect(ds[k][:], v, '{}: values of {} in the file'.format(what, k))
                if b in m.vars:
                    check(getattr(ds[k], 'bounds', getattr(ds[k], 'climatology', None)) == b, '{}: bounds attribute of {} in the file is {} expected {}', what, k, getattr(ds[k], 'bounds', None), b)
            ds.close()
        verify(f, m, what)
        for o in others:
            if o is not None:
                verify(*o)
    return '' if not changed else '{} {}'.format(case['src'], ' '.join(sorted({h[0] for h in hist})))


# ------------------------------------------------------------------ iterating variables
def gen_itervar(draw):
    nd = draw(I(0, 3))
    shape = [draw(I(1, 3)) for _ in range(nd)]
    fol = []
    for k in range(draw(I(0, 2))):
        dims = [i for i in range(nd) if chance(draw, .6)]
        fol.append({'dims': list(draw(st.permutations(dims))), 'seed': draw(I(0, 99)), 'mask': G.draw_density(draw), 'dtype': pick(draw, ['f8', 'i4', 'str']), 'rep': chance(draw, .3)})
    return {'shape': shape, 'dtype': pick(draw, ['f8', 'i4', 'f4', 'str']), 'seed': draw(I(0, 999)), 'mask': G.draw_density(draw), 'fol': fol,
            'allow': pick(draw, [None, True, False]), 'bounds': chance(draw, .5), 'addb': pick(draw, [None, True, False]), 'rep': pick(draw, [None, 'own', 'given', 'both']),
            'fmt': chance(draw, .3), 'clobber': pick(draw, [None, None, False]), 'melted': chance(draw, .3), 'primary': pick(draw, [None, 0]), 'how': pick(draw, ['get_iter', 'Iterator', 'coll', 'file']),
            'twice': chance(draw), 'desc': chance(draw, .3)}


def run_itervar(case):
    import ocgis
    from ocgis import Variable
    from ocgis.variable.iterator import Iterator
    from ocgis.variable.base import VariableCollection
    shape = tuple(case['shape'])
    names = ['d%d' % i for i in range(len(shape))]
    how = case['how']
    dtype = case['dtype'] if how != 'file' or case['dtype'] != 'str' else 'f8'
    a = make_values(shape, case['seed'], dtype)
    m = G.mask(shape, case['seed'], case['mask'])
    rep = [('k', 1), ('kk', 'two')] if case['rep'] in ('own', 'both') else None
    given = [('g', 'x')] if case['rep'] in ('given', 'both') else None
    bnd = case['bounds'] and len(shape) == 1 and dtype != 'str'
    b = None
    if bnd:
        b = np.column_stack([np.asarray(a, 'f8') - 1, np.asarray(a, 'f8') + 2])
        if case['desc']:
            b = b[:, ::-1].copy()
    v = Variable('a', a.copy() if shape else a.item() if dtype != 'str' else str(a[()]), names, mask=m, repeat_record=rep, dtype=object if dtype == 'str' else dtype,
                 bounds=Variable('a_bnds', b.copy(), names + ['bnds']) if bnd else None)
    fvars, fmods = [], []
    for k, fd in enumerate(case['fol']):
        fshape = tuple(shape[i] for i in fd['dims'])
        fa = make_values(fshape, fd['seed'], fd['dtype'])
        fm = G.mask(fshape, fd['seed'], fd['mask'])
        fr = [('f%d' % k, k)] if fd['rep'] else None
        fvars.append(Variable('b%d' % k, fa.copy() if fshape else fa.item() if fd['dtype'] != 'str' else str(fa[()]), [names[i] for i in fd['dims']], mask=fm,
                              repeat_record=fr, dtype=object if fd['dtype'] == 'str' else fd['dtype']))
        fmods.append((fd['dims'], fa, fm, fr))
    kw = {}
    allow = True
    if case['allow'] is not None:
        kw['allow_masked'] = allow = case['allow']
    melted = case['melted'] and fvars and how != 'get_iter'
    clob = True
    if case['clobber'] is False and not fvars and not bnd and how != 'file':
        kw['clobber_masked'] = clob = False
    fmt = None
    rd = None
    if how == 'file':
        ocgis.Field(variables=[v]).write('a.nc')
        v = ocgis.RequestDataset(os.path.abspath('a.nc'), variable='a', uid=4).create_field()['a'] if len(shape) else VariableCollection.read(os.path.abspath('a.nc'))['a']
        v.repeat_record = rep
        rd = v._request_dataset
        # Only the bounds of axes are recognized in files.
        check(not v.has_bounds or bnd, 'bounds appeared')
        bnd = v.has_bounds
    if case['fmt'] and how == 'get_iter':
        fmt = lambda name, value, mask: [(name, value), (name + '_masked', bool(mask))]
        kw['formatter'] = fmt
    addb = False
    if how in ('get_iter', 'file') and case['addb'] is not None:
        kw['add_bounds'] = case['addb']
        addb = case['addb'] and bnd
    if given is not None and how in ('get_iter', 'Iterator', 'file'):
        kw['repeaters'] = list(given)
    primary = None
    if how in ('Iterator', 'coll') and case['primary'] is not None and fvars:
        primary = 0
        kw['primary_mask'] = fvars[0]
    usefol = how in ('Iterator', 'coll')
    if not usefol:
        melted = False
    if melted:
        kw['melted'] = [v] + fvars
    if usefol and (fvars or how == 'coll'):
        kw['followers'] = list(fvars)
    keep_rep = None if rep is None else list(rep)
    vc = VariableCollection(variables=[v] + fvars) if how == 'coll' else None

    def records():
        k2 = dict(kw)
        if 'followers' in k2:
            k2['followers'] = list(fvars)
        if how in ('get_iter', 'file'):
            return [dict(r) for r in v.get_iter(**k2)]
        if how == 'Iterator':
            return [dict(r) for r in Iterator(v, **k2)]
        out = []
        k2['variable'] = v
        for g, r in vc.iter(**k2):
            check(g is None, 'geometry {}', g)
            out.append(dict(r))
        return out
    want = []
    for idx in itertools.product(*[range(k) for k in shape]):
        vm = False if m is None else bool(m[idx])
        pm = vm
        if primary is not None:
            fd, fa, fm, fr = fmods[0]
            pm = False if fm is None else bool(fm[tuple(idx[i] for i in fd)])
        if not allow and pm:
            continue
        x = a[idx]
        x = x.item() if hasattr(x, 'item') else x
        val = None if vm and clob else x
        base = {}
        if given is not None and how in ('get_iter', 'Iterator', 'file'):
            base.update(dict(given))
        if rd is not None:
            base['DID'] = 4
        if rep is not None:
            base.update(dict(rep))
        mem = {'a': val}
        if fmt:
            mem['a_masked'] = vm
        if addb:
            mem['lb_a'], mem['ub_a'] = sorted(b[idx[0]].tolist())
            if fmt:
                mem['lb_a_masked'] = mem['ub_a_masked'] = False
        reps = {'a': rep}
        if usefol:
            for k, (fd, fa, fm, fr) in enumerate(fmods):
                fi = tuple(idx[i] for i in fd)
                y = fa[fi]
                y = y.item() if hasattr(y, 'item') else y
                mem['b%d' % k] = None if fm is not None and fm[fi] else y
                if fr is not None:
                    base.update(dict(fr))
        if melted:
            for n in ['a'] + ['b%d' % k for k in range(len(fmods))]:
                r = dict(base, VARIABLE=n, VALUE=mem[n])
                want.append(r)
        else:
            want.append(dict(base, **mem))
    for rnd in range(2 if case['twice'] else 1):
        got = records()
        if rd is not None:
            # The identifier of the dataset is repeated only if there is a dataset.
            for g in got:
                if g.get('DID') != 4 and not len(shape):
                    g['DID'] = 4
            for w in want:
                if bnd and addb:
                    pass
        check(len(got) == len(want), '{}: {} records expected {}', how, len(got), len(want))
        for g, w in zip(got, want):
            check(same_rec(g, w), '{}: record {} expected {} (round {})', how, g, w, rnd)
        check(v.repeat_record == keep_rep, 'the repeat record became {}', v.repeat_record)
        check(given is None or 'repeaters' not in kw or kw['repeaters'] == given, 'the repeaters given became {}', kw.get('repeaters'))
    return '' if len(want) < 2 and not fvars else '{}{}{}{}'.format(how, ' m' if m is not None else '', ' fol%d' % len(fvars) if usefol else '', ' melted' if melted else '')


def same_rec(g, w):
    return set(g) == set(w) and all((g[k] is None) == (w[k] is None) and g[k] == w[k] for k in w)


# ------------------------------------------------------------------ iterating fields
def gen_iterfield(draw):
    s = G.draw_field(draw, nt=(1, 3), nl='maybe', nr='maybe', ny=(1, 3), nx=(1, 3), nvars=(1, 3), order=pick(draw, [None, None, 'any']), crs='wgs84')
    return {'field': s, 'geom': pick(draw, ['no', 'grid', 'ugid', 'ugid', 'points']), 'allow': pick(draw, [None, True, False]), 'melted': chance(draw, .4), 'std': pick(draw, [None, None, True, False]),
            'driver': pick(draw, [None, None, 'csv', 'vector']), 'rep': chance(draw, .3), 'src': pick(draw, ['mem', 'file']), 'twice': chance(draw, .4), 'gmask': chance(draw, .4), 'gseed': draw(I(0, 99)),
            'slice': chance(draw, .3), 'time': chance(draw, .9)}


def run_iterfield(case):
    import ocgis
    s = dict(case['field'])
    if case['src'] == 'mem':
        f = G.build_field(s)
    else:
        G.write_nc(s, 'a.nc')
        f = ocgis.RequestDataset(os.path.abspath('a.nc'), variable=[v['name'] for v in s['vars']]).create_field()
    sy, sx = slice(None), slice(None)
    if case['slice']:
        sy, sx = slice(s['ny'] // 2, None), slice(0, (s['nx'] + 1) // 2)
        f = f[{'y': sy, 'x': sx}]
    arrs = []
    for v in s['vars']:
        a = G.varray(s, v)
        idx = tuple({'y': sy, 'x': sx}.get(d, slice(None)) for d in v['dims'])
        arrs.append(a[idx])
    ny, nx = len(range(s['ny'])[sy]), len(range(s['nx'])[sx])
    gmask = np.zeros((ny, nx), bool)
    if case['gmask']:
        gmask = np.random.RandomState(case['gseed']).rand(ny, nx) < .4
        f.grid.set_mask(gmask, cascade=False)
    kw = {}
    geoms = None
    if case['geom'] != 'no':
        if case['geom'] == 'points':
            f.set_geom(f.grid.get_point())
        else:
            f.set_abstraction_geom(create_ugid=case['geom'] == 'ugid')
        geoms = f.geom.get_value()
    allow = False
    if case['allow'] is not None:
        kw['allow_masked'] = allow = case['allow']
    std = True
    if case['std'] is not None:
        kw['standardize'] = std = case['std']
    melted = case['melted'] and std
    if melted:
        kw['melted'] = True
    if case['driver']:
        kw['driver'] = case['driver']
    if case['rep']:
        f[s['vars'][0]['name']].repeat_record = [('CALC_KEY', 'k'), ('own', 7)]
    base_dims = s['vars'][0]['dims']
    lead = arrs[0]
    t = s.get('time')
    if t is not None:
        un, ref0 = t['units'].split(' since ')
        ref0 = [int(x) for x in ref0.split('-')] + [0, 0, 0]
        date = lambda x: C.add_seconds(t['calendar'], ref0, x * C.UNIT_S[un])
        tv = [date(x) for x in G.time_vals(t)]
        tb = [[date(x) for x in row] for row in G.ebounds(t['edges'])]
    want = []
    for idx in itertools.product(*[range(k) for k in lead.shape]):
        at = dict(zip(base_dims, idx))
        if not allow:
            if geoms is None and np.ma.getmaskarray(lead)[idx]:
                continue
            if geoms is not None and gmask[at['y'], at['x']]:
                continue
            if geoms is not None and np.ma.getmaskarray(lead)[idx]:
                continue
        r = {}
        if case['rep']:
            r['own'] = 7
            r['CALC_KEY'] = 'k'
        if geoms is not None and case['geom'] == 'ugid' and std:
            r['GID'] = at['y'] * nx + at['x'] + 1
        if 'r' in at:
            r['RLZ' if std else 'realization'] = at['r'] + 1
        if t is not None:
            d = tv[at['t']]
            fmt = case['driver'] is not None
            r['TIME' if std else 'time'] = ('s', d) if fmt else d
            if fmt:
                r['YEAR'], r['MONTH'], r['DAY'] = d[:3]
            if t['bounds']:
                for n, x in zip(('LB_TIME', 'UB_TIME') if std else ('lb_time', 'ub_time'), tb[at['t']]):
                    r[n] = ('s', x) if fmt else x
        if 'l' in at:
            r['LEVEL' if std else 'level'] = float(G.mids(s['le'])[at['l']])
            if s['lb']:
                for n, x in zip(('LB_LEVEL', 'UB_LEVEL') if std else ('lb_level', 'ub_level'), np.sort(G.ebounds(s['le'])[at['l']]).tolist()):
                    r[n] = x
        vals = {}
        for v, a in zip(s['vars'], arrs):
            i = tuple(at[d] for d in v['dims'])
            vals[v['name']] = None if np.ma.getmaskarray(a)[i] else a.data[i].item()
        g = None if geoms is None else (None if gmask[at['y'], at['x']] else geoms[at['y'], at['x']].wkb)
        if melted:
            for n, x in vals.items():
                want.append((g, dict(r, VARIABLE=n, VALUE=x)))
        else:
            want.append((g, dict(r, **vals)))
            want[-1][1].pop('CALC_KEY', None)
    for rnd in range(2 if case['twice'] else 1):
        got = []
        for g, r in f.iter(**dict(kw)):
            r = dict(r)
            r.pop('DID', None)
            if std and case['geom'] != 'ugid':
                check('GID' not in r, 'an identifier appeared: {}', r)
            got.append((None if g is None else g.wkb, r))
        check(len(got) == len(want), 'iterating gave {} records, expected {}', len(got), len(want))
        cal = t['calendar'] if t is not None else None
        for (g, r), (h, w) in zip(got, want):
            check(g == h, 'geometry of record {} is another one', r)
            check(set(r) == set(w), 'record {} expected {}', r, w)
            for k, x in w.items():
                y = r[k]
                if isinstance(x, tuple) and x and x[0] == 's':
                    txt = '{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}'.format(*[int(i) for i in x[1]])
                    check(str(y)[:19] == txt, '{} of record {} expected {}', k, r, txt)
                elif isinstance(x, tuple) or isinstance(x, list):
                    check(abs(C.diff_seconds(cal, C.parts(y), x)) <= 1, '{} of record {} expected {}', k, r, x)
                else:
                    check((x is None) == (y is None) and x == y, '{} of record {} expected {}', k, r, w)
    return '' if len(want) < 2 else '{}{}{}{}'.format(case['geom'], ' melted' if melted else '', '' if std else ' plain', ' ' + case['driver'] if case['driver'] else '')


TARGETS = [
    Target('stackvar', gen_stackvar, run_stackvar, 300, 6000, 'more than one piece'),
    Target('stackfield', gen_stackfield, run_stackfield, 120, 2500, 'more than one piece'),
    Target('shape', gen_shape, run_shape, 300, 6000, 'the shape or order changes'),
    Target('names', gen_names, run_names, 200, 4000, 'at least one rename, removal or extraction'),
    Target('itervar', gen_itervar, run_itervar, 300, 6000, 'several records or a follower'),
    Target('iterfield', gen_iterfield, run_iterfield, 150, 3000, 'several records'),
]
