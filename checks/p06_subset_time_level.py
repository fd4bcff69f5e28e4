"""Time range, month/year region, user function and level range subsets of fields (in memory, through RequestDataset, through
OcgOperations) and value-range subsets of coordinate variables; oracle: the predicate evaluated step by step on plain numbers and
calendar tuples (harness/cal.py). Non-trivial: something but not everything is selected, or the empty error is due."""
import os
import datetime
import numpy as np
from core import Target, Violation, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st

CALS = ('standard', 'gregorian', 'noleap', '360_day', 'proleptic_gregorian', 'all_leap')


# ------------------------------------------------------------------ coordinate variables
def gen_between(draw):
    n = draw(I(1, 6))
    kind = pick(draw, ['contig', 'gaps', 'overlap', 'none', 'mixed'])
    desc = chance(draw, .35)
    lo, b = draw(I(-20, 20)), []
    for i in range(n):
        w = draw(I(1, 4)) * 2
        g = {'contig': 0, 'gaps': draw(I(1, 3)), 'overlap': -1, 'none': draw(I(0, 2)), 'mixed': draw(I(0, 2))}[kind]
        b.append([lo, lo + w])
        lo = lo + w + g
    flip = chance(draw, .3)
    if desc:
        b = b[::-1]
    ends = sorted({x for r in b for x in r} | {sum(r) / 2. for r in b})
    pool = ends + [x + .5 for x in ends] + [ends[0] - 3, ends[-1] + 3]
    l, u = sorted([pick(draw, pool), pick(draw, pool)])
    if n > 2 and chance(draw, .25):
        # coordinates need not be monotonic
        b = [list(r) for r in draw(st.permutations(b))]
        kind = 'none' if kind == 'none' or chance(draw) else 'mixed'
    return {'b': [r[::-1] for r in b] if flip else b, 'kind': kind, 'lower': l, 'upper': u, 'closed': chance(draw, .3), 'use_bounds': chance(draw, .8),
            'dtype': pick(draw, ['f8', 'f4'])}


def cells_between(b, lo, hi, closed, contiguous):
    """Selected rows by definition. closed=True is the open interval (package terminology)."""
    mn, mx = b.min(axis=1), b.max(axis=1)
    if closed:
        return (mx > lo) & (mn < hi)
    if contiguous:
        return ((mx > lo) | (mn >= lo)) & (mn <= hi)
    return (mx >= lo) & (mn <= hi)


def run_between(case):
    from ocgis import Variable, VariableCollection
    from ocgis.exc import EmptySubsetError
    b = np.array(case['b'], dtype=case['dtype'])
    n = len(b)
    val = b.mean(axis=1)
    has = case['kind'] != 'none'
    v = Variable('lev', val.copy(), 'lev', bounds=Variable('lev_b', b.copy(), ['lev', 'bnds']) if has else None)
    d = Variable('data', np.arange(n * 2.).reshape(2, n), ['q', 'lev'])
    o = Variable('other', np.arange(3), 'oo')
    VariableCollection(variables=[v, d, o])
    lo, hi = case['lower'], case['upper']
    if has and case['use_bounds']:
        s1 = cells_between(b, lo, hi, case['closed'], True)
        s2 = cells_between(b, lo, hi, case['closed'], False)
        must, may = (s1, s1) if case['kind'] == 'contig' and n > 1 else (s2, s2) if case['kind'] in ('gaps', 'overlap') and n > 1 else (s1, s2)
    else:
        must = may = ((val > lo) & (val < hi)) if case['closed'] else ((val >= lo) & (val <= hi))
    try:
        sub, idx = v.get_between(lo, hi, return_indices=True, closed=case['closed'], use_bounds=case['use_bounds'])
    except EmptySubsetError:
        check(not must.any(), 'empty subset reported, but rows {} of {} meet [{}, {}]', np.where(must)[0].tolist(), b.tolist(), lo, hi)
        return 'empty'
    idx = np.atleast_1d(np.array(idx)).tolist()
    ok = set(np.where(must)[0]) <= set(idx) <= set(np.where(may)[0])
    check(ok and idx == sorted(idx), 'selected rows {} expected {} (at most {}) of {} for [{}, {}]', idx, np.where(must)[0].tolist(), np.where(may)[0].tolist(), b.tolist(), lo, hi)
    arr_eq(sub.get_value(), val[idx], 'subset values')
    if has:
        arr_eq(sub.bounds.get_value(), b[idx], 'subset bounds')
    arr_eq(sub.parent['data'].get_value(), np.arange(n * 2.).reshape(2, n)[:, idx], 'data of the same dimension')
    arr_eq(sub.parent['other'].get_value(), np.arange(3), 'unrelated variable')
    arr_eq(v.get_value(), val, 'source')
    return [case['kind'], 'open' if case['closed'] else 'closed'] if 0 < len(idx) < n else None


# ------------------------------------------------------------------ fields
def gen_field(draw):
    cal = pick(draw, CALS)
    span = pick(draw, ['sub', 'month', 'rand', 'month'])
    n = draw(I(1, 9))
    s = G.draw_field(draw, nt=(1, 1), nl='maybe', nr='maybe', ny=(1, 2), nx=(1, 2), grid=('1d',), nvars=(1, 2), order=pick(draw, [None, 'any']),
                     dtypes=('f4',), t=dict(calendars=(cal,), bounds=True))
    s['nt'] = n
    if n > 1 and s['nl'] is None and chance(draw, .3):
        s['nl'], s['le'] = 3, [0., 1., 4., 5.]
        for v in s['vars']:
            v['dims'] = v['dims'][:1] + ['l'] + v['dims'][1:]
    if span == 'month':
        y, m = draw(I(1999, 2003)), draw(I(1, 12))
        step = pick(draw, [1, 1, 2, 3, 12])
        dates = []
        for i in range(n + 1):
            a, b = divmod(m - 1 + i * step, 12)
            dates.append((y + a, b + 1, 1, 0, 0, 0))
        e = [C.daynum(cal, *d[:3]) - C.daynum(cal, 2000, 1, 1) for d in dates]
    else:
        q = 0.25 if span == 'sub' else 1.
        e = [draw(I(-800, 1200))]
        for i in range(n):
            e.append(e[-1] + draw(I(1, 8 if span == 'sub' else 40)) * q)
    s['time'] = {'units': 'days since 2000-01-01', 'calendar': cal, 'edges': [float(x) for x in e], 'bounds': chance(draw, .6)}
    def when(k):
        return list(C.add_seconds(cal, (2000, 1, 1, 0, 0, 0), int(k * 86400)))
    mids = [(a + b) / 2. for a, b in zip(e[:-1], e[1:])]
    pool = e + [int(x * 8) / 8. for x in mids] + [x + .125 for x in e] + [e[0] - 5, e[-1] + 5]
    case = {'f': s, 'how': pick(draw, ['method', 'rd', 'ops']), 'src': pick(draw, ['mem', 'file'])}
    todo = draw(st.lists(st.sampled_from(['range', 'region', 'func', 'level', 'region']), min_size=1, max_size=3, unique=True))
    if 'range' in todo:
        a, b = sorted([pick(draw, pool), pick(draw, pool)])
        A, B = when(a), when(b)
        for d in (A, B):
            d[2] = min(d[2], 28)
        if tuple(A) > tuple(B):
            A = B
        case['range'] = [A, B]
    if 'region' in todo:
        r = {}
        kind = pick(draw, ['m', 'y', 'my'])
        yy = sorted({when(x)[0] for x in e})
        if 'range' in case:  # the request is only valid when the region lies in the range
            A, B = case['range']
            ms = []
            a = A[:2]
            while tuple(a) <= tuple(B[:2]) and len(ms) < 13:
                ms.append(a[1])
                a = [a[0] + a[1] // 12, a[1] % 12 + 1]
            r['month'] = sorted(set(draw(st.lists(st.sampled_from(sorted(set(ms))), min_size=1, max_size=4))))
            r['year'] = sorted(set(draw(st.lists(I(A[0], B[0]), min_size=1, max_size=2))))
        else:
            r['month'] = draw(st.lists(I(1, 12), min_size=1, max_size=5, unique=True))
            r['year'] = draw(st.lists(st.sampled_from(yy + [yy[-1] + 1]), min_size=1, max_size=3, unique=True))
        if kind == 'm':
            r.pop('year')
        if kind == 'y':
            r.pop('month')
        case['region'] = r
    if 'func' in todo:
        case['func'] = draw(st.lists(st.booleans(), min_size=n, max_size=n)) if not ('range' in case or 'region' in case) else ['day', draw(I(1, 15))]
    if 'level' in todo and s['nl']:
        le = s['le']
        pool = le + [x + .25 for x in le] + [le[0] - 2, le[-1] + 2]
        case['level'] = sorted([pick(draw, pool), pick(draw, pool)])
    return case


def func_for(spec):
    if spec and spec[0] == 'day':
        k = spec[1]

        def f(value, bounds=None):
            return [i for i, v in enumerate(value) if v.day >= k]
    else:
        def f(value, bounds=None):
            return [i for i in range(len(value)) if spec[i]]
    return f


def region_sets(case, T, E):
    """(must, may) for the region, row by row."""
    r = case['region']
    months, years = r.get('month'), r.get('year')

    def hit(y, m):
        return (months is None or m in months) and (years is None or y in years)
    must, may = [], []
    for i in range(len(T)):
        if case['f']['time']['bounds']:
            a, b = E[i], E[i + 1]
            pairs, (y, m) = [], a[:2]
            while (y, m) < tuple(b[:2]):
                pairs.append((y, m))
                y, m = (y + m // 12, m % 12 + 1)
            full_end = tuple(b[2:]) == (1, 0, 0, 0)
            allp = pairs + ([] if full_end and pairs else [tuple(b[:2])])
            simple = all(p[0] == a[0] for p in pairs) and (full_end or b[0] == a[0]) and len(pairs) < 12
            lower = hit(*a[:2])
            # Intervals of a full year or beyond the year of their lower bound, and a last incomplete month, are left open.
            if simple:
                must.append(lower or (months is not None and years is None and any(hit(*p) for p in pairs)) or any(hit(*p) for p in pairs))
                may.append(any(hit(*p) for p in allp))
            else:
                must.append(lower)
                may.append(True)
        else:
            must.append(hit(*T[i][:2]))
            may.append(must[-1])
    return np.array(must), np.array(may)


def run_field(case):
    import ocgis
    from ocgis import RequestDataset, OcgOperations
    from ocgis.exc import EmptySubsetError, ExtentError
    s = case['f']
    t = s['time']
    cal = t['calendar']
    e = np.array(t['edges'])
    n = len(e) - 1
    mid = G.mids(e)

    def when(k):
        return C.add_seconds(cal, (2000, 1, 1, 0, 0, 0), int(round(k * 86400)))
    T, E = [when(x) for x in mid], [when(x) for x in e]
    must, may = np.ones(n, bool), np.ones(n, bool)
    if 'range' in case:
        ln, un = [C.diff_seconds(cal, tuple(x), (2000, 1, 1, 0, 0, 0)) / 86400. for x in case['range']]
        if t['bounds']:
            a = cells_between(np.column_stack([e[:-1], e[1:]]), ln, un, False, True)
            b = a if n > 1 else cells_between(np.column_stack([e[:-1], e[1:]]), ln, un, False, False)
        else:
            a = b = (mid >= ln) & (mid <= un)
        must, may = must & a, may & b
    if 'region' in case:
        a, b = region_sets(case, T, E)
        must, may = must & a, may & b
    if 'func' in case:
        if case['func'][0] == 'day':
            a = np.array([x[2] >= case['func'][1] for x in T])
        else:
            a = np.array(case['func'])
        if not a.any():
            a = None
            case = {k: v for k, v in case.items() if k != 'func'}  # an empty index list is the user's mistake
        else:
            must, may = must & a, may & a
    lm = None
    if 'level' in case:
        le, (lo, hi) = np.array(s['le']), case['level']
        if s['lb']:
            B = np.column_stack([le[:-1], le[1:]])
            lm = [cells_between(B, lo, hi, False, True), cells_between(B, lo, hi, False, s['nl'] > 1)]
        else:
            lm = [(G.mids(le) >= lo) & (G.mids(le) <= hi)] * 2
    rng = [datetime.datetime(*x) for x in case['range']] if 'range' in case else None
    reg = {k: list(v) for k, v in case['region'].items()} if 'region' in case else None
    fn = func_for(case['func']) if 'func' in case else None
    if fn is not None and case['func'][0] == 'day' and not must.any():
        if may.any() or ('range' in case or 'region' in case):
            return None  # the function might be handed a list from which it selects nothing
    names = [v['name'] for v in s['vars']]
    kw = dict(time_range=rng, time_region=reg, time_subset_func=fn, level_range=case.get('level'))
    kw = {k: v for k, v in kw.items() if v is not None}
    expect_empty = None if may.any() and not must.any() else not may.any()
    if lm is not None:
        if not lm[1].any():
            expect_empty = True
        elif not lm[0].any() and expect_empty is False:
            expect_empty = None
    if case['src'] == 'file' or case['how'] == 'rd':
        G.write_nc(s, 'a.nc')
        mk = lambda **k: RequestDataset(os.path.abspath('a.nc'), variable=names, **k)
    else:
        mk = lambda **k: G.build_field(s)
    got, err = None, None
    try:
        if case['how'] == 'rd':
            got = mk(**kw).get()
        elif case['how'] == 'ops':
            got = OcgOperations(dataset=mk(), **kw).execute().get_element()
        else:
            f = mk()
            if not hasattr(f, 'data_variables'):
                f = f.get()
            if rng:
                f = f.time.get_between(*rng).parent
            if reg:
                f = f.time.get_time_region(reg).parent
            if fn:
                f = f.time.get_subset_by_function(fn).parent
            if 'level' in case:
                f = f.level.get_between(*case['level']).parent
            got = f
    except (EmptySubsetError, ExtentError) as ex:
        err = ex
    if err is not None:
        check(expect_empty is not False, 'empty error although steps {} qualify: {!r}', np.where(must)[0].tolist(), err)
        return 'empty'
    check(expect_empty is not True, 'no empty error although nothing qualifies; got {} steps', got.time.shape)
    gt = np.array(got.time.value_numtime)
    sel = [int(np.argmin(abs(mid - x))) for x in gt]
    arr_eq(gt, mid[sel], 'selected times', atol=1e-6)
    check(set(np.where(must)[0]) <= set(sel) <= set(np.where(may)[0]) and sel == sorted(set(sel)),
          'steps {} selected, expected {} (at most {})', sel, np.where(must)[0].tolist(), np.where(may)[0].tolist())
    if t['bounds']:
        arr_eq(got.time.bounds.value_numtime, np.column_stack([e[:-1], e[1:]])[sel], 'time bounds', atol=1e-6)
    lsel = None
    if lm is not None:
        gl = np.atleast_1d(got.level.get_value())
        lsel = [int(np.argmin(abs(G.mids(s['le']) - x))) for x in gl]
        check(set(np.where(lm[0])[0]) <= set(lsel) <= set(np.where(lm[1])[0]) and lsel == sorted(set(lsel)), 'levels {} selected, expected {}', lsel, np.where(lm[0])[0].tolist())
        if s['lb']:
            arr_eq(got.level.bounds.get_value(), G.ebounds(s['le'])[lsel], 'level bounds')
    for v in s['vars']:
        want = G.take(G.varray(s, v), [sel if d == 't' else lsel if d == 'l' else None for d in v['dims']])
        arr_eq(got[v['name']].get_masked_value(), want, v['name'])
    return [case['how']] + sorted(k for k in case if k in ('range', 'region', 'func', 'level')) if len(sel) < n or lsel is not None else None


TARGETS = [
    Target('between', gen_between, run_between, quick=1500, thorough=40000, rule='contiguous, separated, overlapping and descending bounds'),
    Target('field', gen_field, run_field, quick=1200, thorough=26000, rule='combinations of range, region, function and level'),
]
