"""Lazily read netCDF variables against arrays read in full by netCDF4 without any automatic conversion and sliced in
memory. Non-trivial: at least one slice or user mask happens before some value is loaded."""
import hashlib, os
import numpy as np
from core import Target, Violation, check, arr_eq
import gens as G
from gens import I, pick, chance
from hypothesis import strategies as st

DIMS = ['t', 'z', 'y', 'x']


def gen(draw):
    nd = draw(I(1, 4))
    size = {d: draw(I(1, 5)) for d in DIMS[:nd]}
    case = {'size': size, 'unlimited': chance(draw), 'fmt': pick(draw, ['NETCDF4', 'NETCDF3_CLASSIC', 'NETCDF4_CLASSIC']),
            'vars': [], 'steps': [], 'how': pick(draw, ['raw', 'field'])}
    for i in range(draw(I(1, 3))):
        dd = draw(st.permutations(DIMS[:nd]))[:draw(I(1, nd))]
        if 't' in dd and case['fmt'] == 'NETCDF3_CLASSIC':
            dd = ['t'] + [d for d in dd if d != 't']  # record dimension comes first in classic files
        pack = pick(draw, ['none', 'none', 'both', 'scale', 'offset'])
        case['vars'].append({'dims': list(dd), 'seed': draw(I(0, 500)), 'dens': pick(draw, [None, 0, 30, 80, 100]), 'pack': pack,
                             'dtype': pick(draw, ['i2', 'i4'] + (['u1'] if case['fmt'] == 'NETCDF4' else []) if pack != 'none' else ['f8', 'f4', 'i4', 'i2']),
                             'scale': pick(draw, [0.5, 2., 0.01, -1.5]), 'offset': pick(draw, [0.5, 100., -273.15]),
                             'fill': pick(draw, ['_FillValue', 'missing_value', 'both'])})
    case['group'] = chance(draw, .3) and case['fmt'] == 'NETCDF4'
    n = dict(size)
    for _ in range(draw(I(1, 6))):
        k = pick(draw, ['slice', 'slice', 'access', 'access', 'mask', 'vslice'])
        if k == 'slice':
            dd = draw(st.lists(st.sampled_from(DIMS[:nd]), min_size=1, max_size=nd, unique=True))
            idx = {d: G.draw_index(draw, n[d], ('int', 'slice', 'list', 'arr', 'bool')) for d in dd}
            for d in dd:
                n[d] = len(G.index_positions(idx[d], n[d]))
            case['steps'].append(['slice', idx])
        elif k == 'vslice':
            vi = draw(I(0, len(case['vars']) - 1))
            dd = case['vars'][vi]['dims']
            if len(dd) == 1:
                idx = {d: G.draw_index(draw, n[d], ('slice', 'list', 'bool')) for d in dd}
            else:
                idx = {d: G.draw_index(draw, n[d], ('int', 'slice', 'list', 'bool', 'none')) for d in dd}
            for d in dd:
                n[d] = len(G.index_positions(idx[d], n[d]))
            case['steps'].append(['vslice', vi, idx])
        elif k == 'access':
            names = ['v{}'.format(i) for i in range(len(case['vars']))] + DIMS[:nd] + ['gv', 'all']
            case['steps'].append(['access', pick(draw, names), pick(draw, ['value', 'mask', 'masked', 'bounds', 'bmask', 'load', 'shape', 'copy'])])
        else:
            case['steps'].append(['mask', draw(I(0, len(case['vars']) - 1)), draw(I(0, 99))])
    return case


def write(case, path):
    import netCDF4 as nc
    ds = nc.Dataset(path, 'w', format=case['fmt'])
    ref = {}
    for d, n in case['size'].items():
        ds.createDimension(d, None if (d == 't' and case['unlimited']) else n)
    ds.createDimension('nb', 2)
    for d, n in case['size'].items():
        v = ds.createVariable(d, 'f8', (d,))
        v.axis = {'t': 'T', 'z': 'Z', 'y': 'Y', 'x': 'X'}[d]
        if d == 't':
            v.units, v.calendar = 'days since 2000-01-01', 'noleap'
        v.bounds = d + '_b'
        val = np.arange(n) * 2. + 3
        v[:] = val
        b = ds.createVariable(d + '_b', 'f8', (d, 'nb'))
        bv = np.column_stack([val - 1, val + 1])
        b[:] = bv
        ref[d] = [(d,), np.ma.array(val)]
        ref[d + '_b'] = [(d, 'nb'), np.ma.array(bv)]
    for i, s in enumerate(case['vars']):
        shp = tuple(case['size'][d] for d in s['dims'])
        raw = G.values(shp, s['seed'], s['dtype'])
        m = G.mask(shp, s['seed'], s['dens'])
        fill = {'i2': -999, 'i4': -9999, 'u1': 255, 'f8': 1e20, 'f4': np.float32(1e20)}[s['dtype']]
        kw = {'fill_value': fill} if s['fill'] in ('_FillValue', 'both') else {}
        v = ds.createVariable('v{}'.format(i), s['dtype'], s['dims'], **kw)
        if s['fill'] in ('missing_value', 'both'):
            v.missing_value = np.array(fill, dtype=s['dtype'])[()]
        want = raw.astype('f8')
        if s['pack'] in ('both', 'scale'):
            v.scale_factor = s['scale']
            want = want * s['scale']
        if s['pack'] in ('both', 'offset'):
            v.add_offset = s['offset']
            want = want + s['offset']
        v.set_auto_maskandscale(False)
        if m is not None:
            raw = np.where(m, np.array(fill, dtype=s['dtype']), raw)
        v[:] = raw
        # Elements equal to the fill value are masked by definition.
        em = raw == np.array(fill, dtype=s['dtype'])
        if s['pack'] == 'none':
            want = raw
        ref['v{}'.format(i)] = [tuple(s['dims']), np.ma.array(want, mask=em)]
    if case['group']:
        g = ds.createGroup('grp')
        g.createDimension('gd', 3)
        gv = g.createVariable('gv', 'f8', ('gd',), fill_value=-1.)
        gv[:] = np.ma.array([5., 6., 7.], mask=[False, True, False])
        ref['gv'] = [('gd',), np.ma.array([5., 6., 7.], mask=[False, True, False])]
    ds.close()
    return ref


def run(case):
    import ocgis
    from ocgis import RequestDataset
    path = os.path.abspath('in.nc')
    ref = write(case, path)
    h0 = hashlib.sha1(open(path, 'rb').read()).hexdigest()
    if case['how'] == 'raw':
        cur = ocgis.VariableCollection.read(path)
    else:
        cur = RequestDataset(path, variable=['v{}'.format(i) for i in range(len(case['vars']))]).create_field()
        G.touch(cur)
    ref = {k: list(v) for k, v in ref.items()}

    def getv(name):
        if name == 'gv':
            return cur.children['grp']['gv'] if case['group'] and 'grp' in cur.children else None
        return cur[name]

    def verify(name, how='masked'):
        v = getv(name)
        if v is None:
            return
        want = ref[name][1]
        tol = {} if name[0] != 'v' or case['vars'][int(name[1:])]['pack'] == 'none' else dict(rtol=1e-5, atol=1e-4)
        if how == 'shape':
            check(tuple(v.shape) == want.shape, 'shape of {} is {} expected {}', name, v.shape, want.shape)
        elif how == 'value':
            g = v.get_value()
            check(g.shape == want.shape, 'value shape of {} is {} expected {}', name, g.shape, want.shape)
            arr_eq(np.ma.array(g, mask=np.ma.getmaskarray(want)), want, 'value of ' + name, **tol)
        elif how == 'mask':
            m = v.get_mask()
            arr_eq(np.zeros(want.shape, bool) if m is None else m, np.ma.getmaskarray(want), 'mask of ' + name)
        elif how in ('bounds', 'bmask'):
            if name in case['size']:
                # Bounds are only linked to their variable by the interpreted field.
                check(case['how'] == 'raw' or v.has_bounds, 'bounds of {} lost', name)
                b = cur[name + '_b'] if case['how'] == 'raw' else v.bounds
                if how == 'bmask':
                    bm = b.get_mask()
                    check(bm is None or not bm.any(), 'bounds of {} are masked: {}', name, bm)
                arr_eq(b.get_masked_value(), ref[name + '_b'][1], 'bounds of ' + name)
        elif how == 'load':
            v.load()
        elif how == 'copy':
            c = v.copy()
            arr_eq(c.get_masked_value(), want, 'copy of ' + name, **tol)
        else:
            arr_eq(v.get_masked_value(), want, 'masked value of ' + name, **tol)

    sliced = False
    labels = set()
    for step in case['steps']:
        if step[0] in ('slice', 'vslice'):
            idx = step[-1]
            objs = {d: G.index_obj(j) for d, j in idx.items()}
            if step[0] == 'slice':
                new = cur[objs]
            else:
                vs = case['vars'][step[1]]
                tup = tuple(objs[d] for d in vs['dims'])
                v = cur['v{}'.format(step[1])]
                new = (v[tup] if len(tup) > 1 else v[tup[0]]).parent
            for k, (dd, a) in ref.items():
                pos = [G.index_positions(idx[d], a.shape[i]) if d in idx else None for i, d in enumerate(dd)]
                ref[k] = [dd, G.take(a, pos)]
            cur = new
            sliced = True
            labels.update(j[0] for j in idx.values())
        elif step[0] == 'access':
            names = [k for k in ref if not k.endswith('_b')] if step[1] == 'all' else [step[1]]
            for n in names:
                verify(n, step[2])
            labels.add('access-' + step[2])
        else:
            n = 'v{}'.format(step[1])
            a = ref[n][1]
            m = G.mask(a.shape, step[2], 40)
            # A mask set by the user on a variable is combined with the mask stored in the file.
            cur[n].set_mask(m, update=True)
            ref[n][1] = np.ma.array(a.data, mask=np.ma.getmaskarray(a) | m)
            sliced = True
            labels.add('usermask')
    for n in list(ref):
        if n in ('gv',):
            verify(n)
        elif n.endswith('_b'):
            verify(n[:-2], 'bounds')
        else:
            verify(n, 'shape')
            verify(n)
            verify(n, 'mask')
            v = cur[n]
            check(tuple(len(d) for d in v.dimensions) == ref[n][1].shape, 'dimension sizes of {}', n)
            if n[0] == 'v' and case['vars'][int(n[1:])]['pack'] != 'none':
                for a in ('scale_factor', 'add_offset'):
                    check(a not in v.attrs, 'unpacked variable still carries attribute {}', a)
    check(hashlib.sha1(open(path, 'rb').read()).hexdigest() == h0, 'reading changed the file')
    return sorted(labels) + [case['how']] + sorted({v['pack'] for v in case['vars']}) if sliced else None


# Tables --------------------------------------------------------------------------------------------------------------------------------------
WORDS = ['a', 'bb', 'c,d', 'e"f', "g'h", ' i ', 'k\nl', '1', '-2.5', 'None', '\u00e9', '']


def gen_table(draw):
    n, m = draw(I(1, 7)), draw(I(1, 4))
    c = {'rows': [[pick(draw, WORDS) for _ in range(m)] for _ in range(n)], 'steps': [], 'wrap': chance(draw, .3)}
    k = n
    for _ in range(draw(I(1, 6))):
        w = pick(draw, ['slice', 'slice', 'read', 'read', 'set', 'rename', 'vslice', 'copy'])
        if w in ('slice', 'vslice'):
            idx = G.draw_index(draw, k, ('slice', 'list', 'arr', 'bool'))
            k = len(G.index_positions(idx, k))
            c['steps'].append([w, idx, draw(I(0, m - 1))])
        else:
            c['steps'].append([w, draw(I(0, m - 1)), draw(I(0, 99))])
    return c


def run_table(case):
    """Columns of a table of text are read when needed, whatever was sliced, renamed or changed before."""
    import csv, ocgis
    names = ['c{}'.format(i) for i in range(len(case['rows'][0]))]
    with open('t.csv', 'w', newline='') as f:
        w = csv.writer(f, quoting=csv.QUOTE_ALL if case['wrap'] else csv.QUOTE_MINIMAL)
        w.writerow(names)
        w.writerows(case['rows'])
    fld = ocgis.RequestDataset(os.path.abspath('t.csv')).get()
    check(list(fld.keys()) == names, 'columns {} expected {}', list(fld.keys()), names)
    check(fld[names[0]].shape == (len(case['rows']),), 'table of {} records has the shape {}', len(case['rows']), fld[names[0]].shape)
    ref = {q: [r[i] for r in case['rows']] for i, q in enumerate(names)}
    alias = dict(zip(range(len(names)), names))
    early = [(fld, {k: list(v) for k, v in ref.items()}, dict(alias))]
    for step in case['steps']:
        if step[0] in ('slice', 'vslice'):
            pos = G.index_positions(step[1], len(ref[names[0]]))
            obj = G.index_obj(step[1])
            if step[0] == 'slice':
                fld = fld[{'n_records': obj}]
            else:
                fld = fld[alias[step[2]]][obj].parent
            ref = {k: [v[i] for i in pos] for k, v in ref.items()}
        elif step[0] == 'copy':
            fld = fld.copy()
        else:
            i = step[1]
            if step[0] == 'read':
                v = fld[alias[i]]
                check([str(q) for q in v.get_value().tolist()] == ref[names[i]], '{} after {} is {} expected {}', alias[i], case['steps'], v.get_value().tolist(), ref[names[i]])
                check(v.get_mask() is None or not v.get_mask().any(), 'masked text')
            elif step[0] == 'set':
                new = ['n{}'.format(step[2])] * len(ref[names[i]])
                fld = fld.copy()
                v = fld[alias[i]].copy()
                v.set_value(np.array(new, dtype=object))
                fld.add_variable(v, force=True)
                ref[names[i]] = new
            else:
                alias[i] = 'r{}_{}'.format(i, step[2])
                if alias[i] not in fld:
                    fld = fld.copy()
                    fld[[k for k in fld.keys() if k.split('_')[0] in ('c{}'.format(i), 'r{}'.format(i))][0]].set_name(alias[i])
        early.append((fld, {k: list(v) for k, v in ref.items()}, dict(alias)))
    for f, r, a in ([early[-1]] if case['wrap'] else early[-1:] + early[:-1]):
        for i, q in enumerate(names):
            if a[i] in f:
                check([str(z) for z in f[a[i]].get_value().tolist()] == r[q], '{} at the end of {} is {} expected {}', a[i], case['steps'], f[a[i]].get_value().tolist(), r[q])
    return '{} steps'.format(len(case['steps'])) if any(k[0] in ('slice', 'vslice', 'set', 'rename') for k in case['steps']) else ''


TARGETS = [Target('lazy', gen, run, quick=1600, thorough=40000, rule='1-6 steps of slicing, masking and partial access over a generated file'),
           Target('table', gen_table, run_table, quick=500, thorough=20000, rule='a slice, change or new name before a column is read')]
