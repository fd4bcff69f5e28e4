"""Time axes of several calendars and spacings are grouped by date parts, 'all', seasons, seasons with year, and unique seasons;
oracle: a dictionary keyed by the calendar tuples of each step (harness/cal.py). Non-trivial: at least two groups or a step left out."""
import numpy as np
from collections import OrderedDict
from core import Target, Violation, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st

CALS = ('standard', 'gregorian', 'noleap', '360_day', 'proleptic_gregorian', 'all_leap', 'julian')
PARTS = [['month'], ['year'], ['day'], ['month', 'year'], ['year', 'month'], ['day', 'month'], ['month', 'day'], ['day', 'year'], ['day', 'month', 'year'],
         ['year', 'day', 'month']]


def draw_times(draw, cal, mode=None, nmin=1, nmax=30):
    """list of (value, lower, upper) day numbers relative to 2000-01-01; multiples of 1/8."""
    mode = mode or pick(draw, ['monthly', 'daily', 'sub', 'rand', 'yearly', 'gaps'])
    y, m = draw(I(1998, 2003)), draw(I(1, 12))
    base = C.daynum(cal, 2000, 1, 1)
    out = []
    if mode in ('monthly', 'gaps'):
        k = 0
        for i in range(draw(I(nmin, nmax))):
            a, b = divmod(m - 1 + k, 12)
            lo = C.daynum(cal, y + a, b + 1, 1) - base
            hi = lo + C.month_len(cal, y + a, b + 1)
            mid = lo + pick(draw, [14, 14.5, 0, 15])
            out.append([mid, lo, hi])
            k += 1 if mode == 'monthly' else pick(draw, [1, 1, 1, 2, 5, 13, 25])
    else:
        d = C.daynum(cal, y, m, draw(I(1, 28))) - base
        q = {'daily': [1], 'sub': [.25, .5, .125], 'rand': [1, 7, 20, 45, 400], 'yearly': [365, 366, 360]}[mode]
        n = draw(I(1, 40 if mode in ('daily', 'sub') else 14))
        for i in range(n):
            w = pick(draw, q)
            f = 0.5 if w <= 1 else pick(draw, [0., .5])
            out.append([d + w * f if w > 1 else d + w / 2. if chance(draw, .0) else d + (w * .5 if mode == 'daily' else 0), d, d + w])
            d += w
    return out


def gen(draw, uniq=False):
    cal = pick(draw, CALS)
    t = draw_times(draw, cal, pick(draw, ['monthly', 'monthly', 'gaps', 'rand']) if uniq else None, *((12, 40) if uniq else (1, 30)))
    if uniq:
        kind = 'unique'
    else:
        kind = pick(draw, ['parts', 'parts', 'parts', 'all', 'season', 'season', 'seasonyear'])
    case = {'cal': cal, 't': t, 'bounds': chance(draw), 'kind': kind, 'dates': chance(draw, .3), 'unl': chance(draw),
            'units': pick(draw, ['days since 2000-01-01', 'hours since 2000-01-01 00:00:00'])}
    if not case['bounds'] and chance(draw, .2) and not uniq:
        case['t'] = list(draw(st.permutations(t)))
    if kind == 'parts':
        case['g'] = pick(draw, PARTS)
    elif kind != 'all':
        pos, cuts = draw(I(0, 11)), []
        months = [(pos + i) % 12 + 1 for i in range(12)]
        seasons = []
        i = 0
        while i < 12:
            ln = draw(I(1, 4))
            if chance(draw, .7) or (not seasons and i + ln >= 12):
                seasons.append(months[i:i + ln])
            i += ln
        seasons = draw(st.permutations(seasons))
        if pick(draw, [0, 1, 1]) == 0:
            seasons = [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]][:draw(I(1, 4))]
        if chance(draw, .4):
            # a long season across the end of the year: what is missing matters in both years
            a, ln = draw(I(9, 12)), draw(I(2, 8))
            long_ = [(a - 1 + i) % 12 + 1 for i in range(ln + 13 - a - 1)]
            seasons = [long_] + [s for s in seasons if chance(draw) and not set(s) & set(long_)]
        if chance(draw, .15):
            # seasons may overlap
            a, ln = draw(I(1, 12)), draw(I(1, 5))
            x = [(a - 1 + i) % 12 + 1 for i in range(ln)]
            if x not in [list(s) for s in seasons]:
                seasons = list(seasons) + [x]
        case['g'] = [list(s) for s in seasons]
    if uniq and len(case['t']) > 3 and chance(draw, .5):
        gone = set(draw(st.lists(I(0, len(case['t']) - 1), min_size=1, max_size=3)))
        case['t'] = [x for i, x in enumerate(case['t']) if i not in gone] or case['t']
    return case


def run(case):
    from ocgis import TemporalVariable, Dimension
    cal, g = case['cal'], case.get('g')
    T = np.array(case['t'], dtype=float)
    n = len(T)
    day0 = (2000, 1, 1, 0, 0, 0)

    def when(x):
        return C.add_seconds(cal, day0, int(round(x * 86400)))
    D = [[when(x) for x in r] for r in T]
    f = 24. if case['units'].startswith('hours') else 1.
    dim = Dimension('time', size_current=n) if case['unl'] else Dimension('time', n)
    b = None
    if case['bounds']:
        b = TemporalVariable(name='time_bnds', value=T[:, 1:] * f, dimensions=[dim, 'bnds'], units=case['units'], calendar=cal)
    tv = TemporalVariable(name='time', value=T[:, 0] * f, dimensions=dim, units=case['units'], calendar=cal, bounds=b)
    if case['dates']:
        b2 = None
        if b is not None:
            b2 = TemporalVariable(name='time_bnds', value=np.array(np.ma.array(tv.bounds.value_datetime).data), dimensions=[dim, 'bnds'], units=case['units'], calendar=cal)
        tv = TemporalVariable(name='time', value=np.array(np.ma.array(tv.value_datetime).data), dimensions=dim, units=case['units'], calendar=cal, bounds=b2)
    kind = case['kind']
    # ---- reference groups: key -> members, in the order of the keys
    groups = OrderedDict()
    idx = {'year': 0, 'month': 1, 'day': 2}
    if kind == 'all':
        groups[()] = list(range(n))
        arg = 'all'
    elif kind == 'parts':
        for i in range(n):
            groups.setdefault(tuple(D[i][0][idx[p]] for p in ('year', 'month', 'day') if p in g), []).append(i)
        groups = OrderedDict(sorted(groups.items()))
        arg = list(g)
    elif kind in ('season', 'seasonyear'):
        order = sorted(g, key=min)
        for i in range(n):
            for k, s in enumerate(order):
                if D[i][0][1] in s:
                    # (a step belongs to each season that has its month)
                    groups.setdefault(((D[i][0][0],) if kind == 'seasonyear' else ()) + (k,), []).append(i)
        groups = OrderedDict(sorted(groups.items()))
        arg = [list(s) for s in g] + (['year'] if kind == 'seasonyear' else [])
    else:
        # A unique season belongs to the year of its first month; only complete ones count.
        years = {d[0][0] for d in D}
        if any(12 in s and 1 in s for s in g) and len(years) < 2:
            return None  # seasons across the year end need two years of data by the documentation
        for i in range(n):
            y, m = D[i][0][:2]
            for s in g:
                if m in s:
                    groups.setdefault((y - (1 if s.index(m) > 0 and m < s[0] else 0), s[0], tuple(s)), []).append(i)
        groups = OrderedDict((k, v) for k, v in sorted(groups.items()) if {D[i][0][1] for i in v} == set(k[2]))
        arg = [list(s) for s in g] + ['unique']
        if case['bounds'] and not all(r[1][:2] == r[0][:2] and r[2] <= nextmonth(r[0]) for r in D):
            return None  # region subsets of intervals that span months are judged by P06
        if not groups:
            return None
    if not groups:
        return None  # no step in any requested season
    arg0 = [list(x) if isinstance(x, list) else x for x in arg] if arg != 'all' else 'all'
    tg = tv.get_grouping(arg)
    check(arg == arg0, 'the grouping argument was changed to {}', arg)
    got = []
    for d in tg.dgroups:
        got.append(list(range(n))[d] if isinstance(d, slice) else np.where(d)[0].tolist())
    want = list(groups.values())
    if kind == 'unique':
        check(sorted(map(tuple, got)) == sorted(map(tuple, want)), 'groups {} expected {} for {}', got, want, [d[0][:3] for d in D])
        if len(sum(g, [])) == len(set(sum(g, []))):
            check([min(T[x, 0]) for x in got] == sorted(min(T[x, 0]) for x in got), 'groups not in time order: {}', got)
        keys = [list(groups)[want.index(x)] for x in got]
        want = got
    else:
        check(got == want, 'groups {} expected {} for {} by {}', got, want, [d[0][:3] for d in D], arg)
        keys = list(groups)
    check(tg.shape == (len(want),) and len(tg.dimensions[0]) == len(want), 'shape of the group variable {}', tg.shape)
    check(tg.dimensions[0].is_unlimited == case['unl'] and tg.dimensions[0].name == 'time', 'group dimension {}', tg.dimensions[0])
    check(tg.units == case['units'] and tg.calendar == cal, 'units/calendar of the groups {} {}', tg.units, tg.calendar)
    gb = np.ma.array(tg.bounds.value_datetime).data
    for i, m in enumerate(want):
        lo = min(D[k][1 if case['bounds'] else 0] for k in m)
        hi = max(D[k][2 if case['bounds'] else 0] for k in m)
        check([C.parts(x) for x in gb[i]] == [lo, hi], 'bounds of group {}: {} expected {}', i, [C.parts(x) for x in gb[i]], [lo, hi])
    # the representative time lies in the period of the group when the bounds of every step stay in its period
    rep = [C.parts(x) for x in np.ma.array(tg.value_datetime).data]
    tidy = not case['bounds'] or all(r[1][:2] == r[0][:2] and r[2] <= nextmonth(r[0]) for r in D)
    if kind == 'parts' and 'day' in g:
        tidy = not case['bounds'] or all(r[1][:3] == r[0][:3] for r in D)
    if tidy:
        for i, m in enumerate(want):
            r = rep[i]
            if kind == 'all':
                ok = r in [D[k][0] for k in m]
            elif kind == 'parts':
                ok = tuple(r[idx[p]] for p in ('year', 'month', 'day') if p in g) == keys[i]
            elif kind == 'seasonyear':
                ok = r[1] in sorted(g, key=min)[keys[i][1]] and r[0] == keys[i][0]
            elif kind == 'season':
                ok = r[1] in sorted(g, key=min)[keys[i][0]]
            else:
                ok = r in [D[k][0] for k in m]
            check(ok, 'representative time {} of group {} ({}) lies outside its period', r, i, [D[k][0][:3] for k in m])
    arr_eq(tv.value_numtime, T[:, 0] * f, 'source times', atol=1e-6)
    return [kind, 'bounds' if case['bounds'] else 'nobounds'] if len(want) > 1 or sum(map(len, want)) < n or kind == 'all' else None


def nextmonth(d):
    return (d[0] + d[1] // 12, d[1] % 12 + 1, 1, 0, 0, 0)


TARGETS = [
    Target('group', gen, run, quick=1500, thorough=40000, rule='date parts, all, seasons with and without year'),
    Target('unique', lambda draw: gen(draw, True), run, quick=900, thorough=20000, rule='unique seasons over complete and incomplete years'),
]
