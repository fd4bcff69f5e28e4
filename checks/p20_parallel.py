"""Distributed execution. Local ranges and slices are compared with whole arrays for all ranks; data and requests run in a simulated world
of two to four interpreters (harness/simmpi.py: a stand-in mpi4py, one rank at a time, the generated seed decides which one continues after
every communication call) and are compared with a run on one process. Mismatched collectives and deadlocks are reported by the hub.
Non-trivial: more than one rank holds data."""
import atexit
import os
from collections import Counter
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from checks.jobs20 import values
from gens import I, pick, chance
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORLDS = {}


def world_run(size, func, args, seed):
    import simmpi
    w = WORLDS.get(size)
    if w is None or w.broken:
        if w is not None:
            w.close()
        else:
            atexit.register(lambda: WORLDS[size].close())
        import ocgis
        src = os.path.dirname(os.path.dirname(os.path.realpath(ocgis.__file__)))
        w = WORLDS[size] = simmpi.World(size, [src, HERE, os.path.join(HERE, 'harness')])
    return w.run('checks.jobs20', func, args, seed)


def explain(e):
    return '{} {}'.format(e, ' | '.join('rank {}: {}'.format(k, v[-900:]) for k, v in sorted(e.errors.items())[:2]))


# Arithmetic ------------------------------------------------------------------------------------------------------------------------------

def gen_ranges(draw):
    n = draw(I(1, 40))
    a = draw(I(0, n - 1))
    c = {'n': n, 'size': draw(I(1, 9)), 'slice': [a, draw(I(a + 1, n))], 'min': draw(I(1, 4)),
         'dims': [[draw(I(1, 12)), chance(draw, .6), pick(draw, [None, 'auto', 'fancy'])] for _ in range(draw(I(1, 4)))],
         'src': pick(draw, [None, 'auto', 'auto', 'fancy']), 'group': chance(draw, .2)}
    m, steps = n, []
    for _ in range(draw(I(1, 4))):
        k = pick(draw, ['slice', 'slice', 'bool', 'index', 'int', 'step'])
        if k == 'slice':
            i = draw(I(0, m - 1))
            j = draw(I(i + 1, m))
            steps.append([k, pick(draw, [i, i, i - m, None if i == 0 else i]), pick(draw, [j, j, None if j == m else j, j - m if j < m else j])])
            m = j - i
        elif k == 'step':
            i, s = draw(I(0, m - 1)), draw(I(2, 3))
            steps.append([k, i, m, s])
            m = len(range(i, m, s))
        elif k == 'bool':
            b = draw(st.lists(st.booleans(), min_size=m, max_size=m))
            if not any(b):
                b[draw(I(0, m - 1))] = True
            steps.append([k, b])
            m = sum(b)
        elif k == 'index':
            q = draw(st.lists(I(0, m - 1), min_size=1, max_size=m, unique=True))
            q = sorted(q) if chance(draw, .5) else q
            steps.append([k, q])
            m = len(q)
        else:
            steps.append([k, draw(I(0, m - 1))])
            m = 1
    c['steps'] = steps
    return c


def partition(bounds, n, what):
    """The local ranges are consecutive and cover 0..n."""
    at = 0
    for b in bounds:
        if b is None:
            continue
        check(b[0] == at and b[1] > b[0], '{}: local ranges {} of {} elements', what, bounds, n)
        at = b[1]
    check(at == n, '{}: local ranges {} of {} elements', what, bounds, n)


def run_ranges(case):
    import ocgis
    from ocgis.vmachine.mpi import get_rank_bounds, get_global_to_local_slice, create_slices, create_nd_slices, OcgDist, hgather, vgather, get_optimal_splits
    from ocgis.variable.dimension import Dimension
    n, size = case['n'], case['size']
    b = [get_rank_bounds(n, size, r) for r in range(size)]
    partition(b, n, 'get_rank_bounds')
    lens = [q[1] - q[0] for q in b if q is not None]
    check(max(lens) - min(lens) <= 1 and len(lens) == min(n, size) and all(q is not None for q in b[:len(lens)]), 'ranges {} of {} elements on {} ranks are not balanced', b, n, size)
    check(get_rank_bounds(n, size, size) is None and get_rank_bounds(0, size, 0) is None, 'range of a rank outside the world')
    start, stop = case['slice']
    got = []
    for q in b:
        if q is not None:
            loc = get_global_to_local_slice((start, stop), q)
            if loc is not None:
                check(0 <= loc[0] < loc[1] <= q[1] - q[0], 'local slice {} on {}', loc, q)
                got += list(range(q[0] + loc[0], q[0] + loc[1]))
    check(got == list(range(start, stop)), 'slice {}:{} covers {} on {}', start, stop, got, b)
    k = min(size, n)
    s = create_slices(n, k)
    check([i for q in s for i in range(n)[q]] == list(range(n)) and len(s) == k, 'create_slices({}, {}) = {}', n, k, s)
    shape = [d[0] for d in case['dims']][:2]
    splits = get_optimal_splits(size, shape)
    check(len(splits) == len(shape) and all(1 <= i <= j for i, j in zip(splits, shape)) and np.prod(splits) <= max(size, np.prod(shape)) and (np.prod(splits) <= size),
          'splits {} of {} on {} ranks', splits, shape, size)
    cover = np.zeros(shape, dtype=int)
    for q in create_nd_slices(splits, shape):
        cover[q] += 1
    check((cover == 1).all(), 'create_nd_slices({}, {}) covers {}', splits, shape, cover.tolist())
    e = [np.arange(q[0], q[1]) for q in b if q is not None]
    check(hgather(e).tolist() == list(range(n)), 'hgather')
    check(vgather([np.stack([q, q + 1], axis=1) for q in e]).tolist() == [[i, i + 1] for i in range(n)], 'vgather')
    # A distribution of several dimensions.
    dims = case['dims']
    grp = 'g' if case['group'] else None
    d = OcgDist(size=size)
    for i, (m, dist, src) in enumerate(dims):
        d.add_dimension(Dimension('d{}'.format(i), m, dist=dist, src_idx=src if src != 'fancy' else np.arange(m) * 3), group=[grp] if grp else None)
    d.update_dimension_bounds(min_elements=case['min'])
    longest = max([m for m, dist, _ in dims if dist] or [0])
    split = None
    for i, (m, dist, src) in enumerate(dims):
        ds = [d.get_dimension('d{}'.format(i), rank=r, group=[grp] if grp else None) for r in range(size)]
        ranks = [None if q.is_empty else tuple(q.bounds_local) for q in ds]
        for q, rb in zip(ds, ranks):
            if rb is not None:
                check(len(q) == rb[1] - rb[0] and tuple(q.bounds_global) == (0, m), 'dimension {} local {} global {} size {}', i, rb, q.bounds_global, len(q))
                want = np.arange(m) * (3 if src == 'fancy' else 1)
                have = q._src_idx
                check((have is None) == (src is None), 'source index {}', have)
                if have is not None:
                    have = np.arange(*have) if isinstance(have, tuple) else have
                    check(have.tolist() == want[rb[0]:rb[1]].tolist(), 'source index {} of {} expected {}', have.tolist(), rb, want[rb[0]:rb[1]].tolist())
        if any(q.dist for q in ds):
            check(split is None and dist and m == longest, 'dimension {} of {} is distributed', i, dims)
            split = i
            partition(ranks, m, 'distribution of {}'.format(dims))
            live = [q for q in ranks if q is not None]
            check(len(live) == 1 or min(q[1] - q[0] for q in live) >= case['min'] or size == 1, 'local ranges {} with at least {} elements', ranks, case['min'])
            check(list(d.get_empty_ranks(group=[grp] if grp else None)) == [r for r in range(size) if ranks[r] is None], 'empty ranks {}', ranks)
        else:
            check(all(q == (0, m) for q in ranks), 'ranges {} of the dimension {} which is not distributed', ranks, dims[i])
    check((split is None) == (longest == 0), 'no dimension of {} is distributed', dims)
    # Source indices follow slices of dimensions.
    src = case['src']
    dim = Dimension('x', n, src_idx=src if src != 'fancy' else np.arange(n) * 2 + 1)
    want = np.arange(n) * 2 + 1 if src == 'fancy' else np.arange(n)
    for step in case['steps']:
        kind = step[0]
        if kind == 'slice':
            sl = slice(step[1], step[2])
        elif kind == 'step':
            sl = slice(*step[1:])
        elif kind == 'int':
            sl = step[1]
        else:
            sl = np.array(step[1])
        before = len(dim), repr(dim._src_idx)
        new = dim[sl]
        check((len(dim), repr(dim._src_idx)) == before, 'slicing changes the dimension')
        dim, want = new, np.atleast_1d(want[sl])
        check(len(dim) == len(want) and dim.size == len(want), 'size {} after {} expected {}', len(dim), step, len(want))
        have = dim._src_idx
        if src is None:
            check(have is None, 'source index {}', have)
        else:
            have = np.arange(*have) if isinstance(have, tuple) else np.asarray(have)
            check(have.tolist() == want.tolist(), 'source index {} after {} expected {}', have.tolist(), case['steps'], want.tolist())
    return 'many' if len(lens) > 1 else ''


# Data ------------------------------------------------------------------------------------------------------------------------------------

def gen_data(draw):
    ny, nx = draw(I(1, 6)), draw(I(1, 9))
    c = {'size': draw(I(2, 4)), 'seed': draw(I(0, 10 ** 6)), 'shape': [draw(I(1, 3)), ny, nx], 'dist': pick(draw, [['x'], ['y'], ['y', 'x'], ['x', 'y'], ['t', 'y', 'x']]),
         'min': draw(I(1, 2)), 'dtype': pick(draw, ['f8', 'f4', 'i4', 'S']), 'bounds': chance(draw, .5), 'second': chance(draw, .6), 'src': pick(draw, [None, 'auto', 'fancy'])}
    c['mask'] = draw(st.lists(st.booleans(), min_size=c['shape'][0] * ny * nx, max_size=c['shape'][0] * ny * nx)) if chance(draw, .4) else None
    c['slice'] = None
    if chance(draw, .7):
        c['slice'] = []
        for m in c['shape']:
            a = draw(I(0, m - 1))
            c['slice'].append(None if chance(draw, .4) else any_slice(draw, a, draw(I(a + 1, m)), m))
    return c


def run_data(case):
    import simmpi
    try:
        res = world_run(case['size'], 'data', {'case': case}, case['seed'])
    except simmpi.Failed as e:
        raise Violation(explain(e))
    shape, val = case['shape'], values(case)
    dims = ['t', 'y', 'x']
    live = [r for r in res if r['local'] is not None]
    # The local parts put together are the data.
    fill, cover = np.zeros(shape, dtype=val.dtype), np.zeros(shape, dtype=int)
    mask = np.zeros(shape, dtype=bool)
    for r in live:
        sl = tuple(slice(*b) for b in r['local']['bounds'])
        cover[sl] += 1
        fill[sl], mask[sl] = r['local']['value'], r['local']['mask']
    check((cover == 1).all(), 'scattered parts cover the data {}', cover.tolist())
    arr_eq(np.ma.array(fill, mask=mask), val, 'scattered data')
    root = res[0]
    arr_eq(np.ma.array(root['gathered']['value'], mask=root['gathered']['mask']), val, 'gathered data')
    if root['gathered']['second'] is not None:
        check(root['gathered']['second'] == list(range(shape[2])), 'gathered coordinate {}', root['gathered']['second'])
    check(all(r['gathered'] is None for r in res[1:]), 'data gathered on other ranks')
    if case['slice'] is not None:
        sl = tuple(slice(None) if s is None else slice(*s) for s in case['slice'])
        want = val[sl]
        parts = [r['slice'] for r in live if r['slice'] is not None]
        cover, fill, mask = np.zeros(want.shape, dtype=int), np.zeros(want.shape, dtype=val.dtype), np.zeros(want.shape, dtype=bool)
        for p in parts:
            q = tuple(slice(*b) for b in p['bounds'])
            cover[q] += 1
            check(fill[q].shape == p['value'].shape, 'shape {} of the local slice at {}', p['value'].shape, p['bounds'])
            fill[q], mask[q] = p['value'], p['mask']
            check(p['global'] == [[0, m] for m in want.shape], 'global bounds {} of a slice with shape {}', p['global'], want.shape)
        check((cover == 1).all(), 'local slices cover {} of {}', cover.tolist(), case['slice'])
        arr_eq(np.ma.array(fill, mask=mask), want, 'distributed slice')
    ids = [i for r in live for i in r['ids']]
    check(sorted(ids) == list(range(1, len(ids) + 1)) and len(ids) == shape['tyx'.index(root['dist'])], 'identifiers {}', ids)
    return 'many' if len(live) > 1 else ''


# Requests --------------------------------------------------------------------------------------------------------------------------------

def any_slice(draw, a, b, m):
    """A slice with at least one element of m."""
    return pick(draw, [[a, b], [a, b], [a, b, draw(I(1, 3))], [None, b], [a, None, draw(I(1, 2))], [-draw(I(1, m)), None], [None, None, 2]])


def gen_request(draw):
    lo = pick(draw, [-20, -20, -20, 175, 340])
    s = G.draw_field(draw, nt=(1, 4), nl=(1, 2) if chance(draw, .2) else None, ny=(1, 6), nx=(1, 6), nvars=(1, 2), dtypes=('f8', 'f4', 'i4'), names=['foo', 'bar'], x={'lo': lo, 'hi': lo + 30, 'maxstep': 4},
                     y={'lo': -20, 'hi': 10, 'maxstep': 4}, t={'calendars': ('standard',), 'units': ('days since 2000-01-01',)})
    s['crs'] = 'wgs84'
    fmt = pick(draw, ['nc', 'nc', 'nc', 'csv', 'shp', 'csv-shp', 'geojson'])
    n = pick(draw, [0, 0, 1, 1, 2])
    c = {'field': s, 'size': draw(I(2, 4)), 'seed': draw(I(0, 10 ** 6)), 'fmt': fmt, 'sels': [G.draw_sel(draw, s, ('poly', 'multi', 'hole'), pad=1) for _ in range(n)],
         'clip': False, 'agg': False, 'agg_sel': False, 'calc': None, 'slice': None, 'time': None, 'optimized': chance(draw, .15), 'crs': pick(draw, [None] * 5 + ['spherical', 'utm']), 'shift': chance(draw, .3)}
    if n and chance(draw, .2) and s.get('xe') and s.get('ye'):
        # Pieces at both ends, so that there may be nothing for the ranks between them.
        xs, ys = s['xe'], s['ye']
        m = min(draw(I(1, 2)), max(len(xs), len(ys)) - 1)
        parts = [(xs[0], ys[0], xs[m], ys[-1]), (xs[-1 - m], ys[0], xs[-1], ys[-1])] if len(xs) >= len(ys) else [(xs[0], ys[0], xs[-1], ys[m]), (xs[0], ys[-1 - m], xs[-1], ys[-1])] if len(ys) > m else []
        parts = [tuple(a[k] + (.25 if k < 2 else -.25) for k in range(4)) for a in parts]
        if len(parts) == 2 and all(a[0] < a[2] and a[1] < a[3] for a in parts) and (parts[0][2] < parts[1][0] or parts[0][3] < parts[1][1]):
            from shapely.geometry import MultiPolygon, box
            c['sels'][0] = MultiPolygon([box(*a) for a in parts]).wkt
    if n:
        c['agg'] = chance(draw, .3)
        c['agg_sel'] = chance(draw, .2)
        c['clip'] = (fmt != 'nc' or c['agg']) and chance(draw, .4)
        c['optimized'] = c['optimized'] and not c['clip']
        if fmt == 'nc' and n > 1 and not c['agg']:
            c['agg_sel'] = True
    elif chance(draw, .3):
        c['slice'] = []
        for m in (None, s['nt'], None, s['ny'], s['nx']):
            if m is None or chance(draw, .3):
                c['slice'].append(None)
            else:
                a = draw(I(0, m - 1))
                c['slice'].append(any_slice(draw, a, draw(I(a + 1, m)), m))
    if chance(draw, .3):
        c['calc'] = pick(draw, ['mean', 'max', 'std', 'expr', 'duration'])
    if c['slice'] is None and chance(draw, .25):
        c['time'] = draw(I(1, 7))
    return c


def run_request(case):
    import simmpi, shutil
    from checks import jobs20
    s = case['field']
    if s.get('nt') is None and (case['calc'] or case['time']):
        raise Skip('no time')
    G.write_nc(s, 'in.nc')
    for d in ('one', 'many'):
        os.mkdir(d)
    here = os.getcwd()
    want = jobs20.outcome(case, here, 'one')
    try:
        res = world_run(case['size'], 'request', {'case': case, 'here': here}, case['seed'])
    except simmpi.Failed as e:
        # An error of one rank ends the program. Other ranks may wait for it.
        if want[0] == 'error':
            return 'error'
        raise Violation('serial: {} parallel: {}'.format(want, explain(e)))
    check(want[0] == 'ok', 'the request fails on one process only: {}', want)
    for r in res:
        check(r['comm'] is None and not r['subs'], 'communicators {} {} remain', r['comm'], r['subs'])
    files = [{os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs} for d in ('one', 'many')]
    check(files[0] == files[1], 'files {} expected {}', sorted(files[1]), sorted(files[0]))
    for f in sorted(files[0]):
        same(os.path.join('many', f), os.path.join('one', f), f)
    return case['fmt'] if max(s['ny'], s['nx']) > 1 else ''


def same(p, q, what):
    ext = os.path.splitext(p)[1]
    if ext == '.nc':
        import netCDF4 as nc
        with nc.Dataset(p) as a, nc.Dataset(q) as b:
            check(sorted(a.variables) == sorted(b.variables), '{}: variables {} expected {}', what, sorted(a.variables), sorted(b.variables))
            check({k: (len(d), d.isunlimited()) for k, d in a.dimensions.items()} == {k: (len(d), d.isunlimited()) for k, d in b.dimensions.items()}, '{}: dimensions {} expected {}', what, a.dimensions, b.dimensions)
            check({k: str(a.getncattr(k)) for k in a.ncattrs() if k != 'history'} == {k: str(b.getncattr(k)) for k in b.ncattrs() if k != 'history'}, '{}: attributes', what)
            for k in a.variables:
                v, w = a.variables[k], b.variables[k]
                check(v.dimensions == w.dimensions and v.dtype == w.dtype, '{}: {} {} expected {} {}', k, v.dimensions, v.dtype, w.dimensions, w.dtype)
                check({n: str(v.getncattr(n)) for n in v.ncattrs()} == {n: str(w.getncattr(n)) for n in w.ncattrs()}, '{}: attributes {} expected {}', k, {n: str(v.getncattr(n)) for n in v.ncattrs()}, {n: str(w.getncattr(n)) for n in w.ncattrs()})
                arr_eq(v[...], w[...], '{} {}'.format(what, k), rtol=1e-6, atol=1e-9)
    elif ext == '.csv':
        import csv
        a, b = [list(csv.DictReader(open(f))) for f in (p, q)]
        records([list(r.items()) for r in a], [list(r.items()) for r in b], what)
    elif ext in ('.shp', '.json'):
        import fiona
        a, b = [[list(r['properties'].items()) + [('geom', r['geometry'])] for r in fiona.open(f)] for f in (p, q)]
        records(a, b, what)


def norm(v):
    from shapely.geometry import shape
    if hasattr(v, 'keys') or hasattr(v, '__geo_interface__'):
        g = shape(v).normalize()
        return tuple(round(q, 5) for q in g.bounds) + (round(g.area, 5),)
    try:
        return float('%.5g' % float(v))
    except (TypeError, ValueError):
        return str(v)


def records(a, b, what):
    """Records are the same up to their order and the numbering of the geometries."""
    check(len(a) == len(b), '{}: {} records expected {}', what, len(a), len(b))
    if a:
        check([k for k, _ in a[0]] == [k for k, _ in b[0]], '{}: columns {} expected {}', what, [k for k, _ in a[0]], [k for k, _ in b[0]])
    x, y = [sorted((tuple((k, norm(v)) for k, v in r if k != 'GID') for r in t), key=lambda r: [(type(v).__name__, v) for _, v in r]) for t in (a, b)]
    check(len(x) == len(y) and all(len(r) == len(q) and all(close(u, v) for (_, u), (_, v) in zip(r, q)) for r, q in zip(x, y)), '{}: records {} expected {}', what, x[:4], y[:4])
    if a and 'GID' in dict(a[0]):
        # Ranks number their geometries one after the other.
        g = [sorted(Counter((str(dict(r).get('UGID')), str(dict(r)['GID'])) for r in t).values()) for t in (a, b)]
        check(g[0] == g[1], '{}: records of every geometry identifier {} expected {}', what, g[0], g[1])


def close(u, v):
    if isinstance(u, tuple) and isinstance(v, tuple):
        return np.allclose(u, v, atol=1e-4)
    if isinstance(u, float) and isinstance(v, float):
        return np.isclose(u, v, rtol=1e-4)
    return u == v


TARGETS = [Target('ranges', gen_ranges, run_ranges, 400, 20000, 'more than one rank holds elements'),
           Target('data', gen_data, run_data, 160, 4000, 'more than one rank holds data'),
           Target('request', gen_request, run_request, 160, 4000, 'a grid that can be distributed')]
