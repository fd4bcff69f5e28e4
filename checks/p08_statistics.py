"""Every registered statistic, threshold, duration, freeze-thaw, moving window, convolution and daily percentile function over temporal
groups of fields with masks, levels, realizations and permuted dimensions (in memory and from files); oracle: plain Python over the
unmasked values of each group and cell. Non-trivial: a group has several members and some value is masked, or several groups."""
import os
import math
import numpy as np
from core import Target, Violation, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st

CALS = ('standard', 'noleap', '360_day', 'proleptic_gregorian')
SETF = ['mean', 'min', 'max', 'median', 'std', 'sum', 'threshold', 'between', 'freq_perc', 'duration']
ELEM = ['ln', 'convolve_1d', 'moving_window']


def draw_axis(draw, s, n, mode=None):
    mode = mode or pick(draw, ['daily', 'daily', 'monthly', 'rand'])
    e = [draw(I(-40, 900))]
    for i in range(n):
        e.append(e[-1] + {'daily': 1, 'monthly': 30, 'rand': 0}[mode] + (draw(I(1, 60)) if mode == 'rand' else 0))
    s['nt'] = n
    s['time'] = {'units': 'days since 2000-01-01', 'calendar': pick(draw, CALS), 'edges': [float(x) for x in e], 'bounds': chance(draw)}


def draw_group(draw):
    g = pick(draw, ['all', ['month'], ['year'], ['month', 'year'], ['year', 'month'], ['day', 'month', 'year'], 'season', 'seasonyear', ['day']])
    if isinstance(g, str) and g != 'all':
        s = pick(draw, [[[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]], [[1, 2, 3, 4, 5, 6], [7, 8, 9, 10, 11, 12]], [[3, 4], [11, 12, 1]]])
        g = s + (['year'] if g == 'seasonyear' else [])
    return g


def gen(draw, funcs=SETF, group=True):
    s = G.draw_field(draw, nt=(1, 1), nl='maybe', nr='maybe', ny=(1, 3), nx=(1, 3), grid=('1d',), nvars=(1, 2), order=pick(draw, [None, 'any']),
                     dtypes=('f8', 'f4', 'f4', 'i4'))
    draw_axis(draw, s, draw(I(1, 14)))
    case = {'f': s, 'src': pick(draw, ['mem', 'mem', 'file']), 'g': draw_group(draw) if group else None}
    calc = []
    for i in range(draw(I(1, 3))):
        f = pick(draw, funcs)
        k = {}
        if f == 'threshold':
            k = {'threshold': draw(I(-10, 20)) * .5, 'operation': pick(draw, ['gt', 'lt', 'gte', 'lte'])}
        elif f == 'between':
            a, b = sorted([draw(I(-10, 20)) * .5, draw(I(-10, 20)) * .5])
            k = {'lower': a, 'upper': b}
        elif f == 'freq_perc':
            k = {'percentile': float(pick(draw, [0, 10, 25, 50, 90, 95, 100]))}
        elif f == 'duration':
            k = {'threshold': draw(I(-4, 12)) * .5, 'operation': pick(draw, ['gt', 'lt', 'gte', 'lte']),
                 'summary': pick(draw, ['mean', 'median', 'std', 'max', 'min'])}
        elif f == 'convolve_1d':
            k = {'v': [float(draw(I(-2, 3))) for _ in range(draw(I(1, max(1, min(4, s['nt'])))))], 'mode': pick(draw, ['same', 'valid'])}
        elif f == 'moving_window':
            k = {'k': pick(draw, [3, 5]), 'mode': pick(draw, ['same', 'valid']), 'operation': pick(draw, ['mean', 'min', 'max', 'median', 'var', 'std'])}
            if s['nt'] < k['k'] and k['mode'] == 'valid':
                k['mode'] = 'same'
        calc.append({'func': f, 'name': 'c%d' % i, 'kwds': k})
    case['calc'] = calc
    case['seq'] = pick(draw, ['perm', 'small', 'small'])  # value field: few distinct values make runs and ties
    case['ss'] = group and chance(draw, .4)
    if any(c['func'] == 'convolve_1d' for c in calc):
        case['tmask'] = True  # convolution is defined for masks that do not change in time
    if group and funcs is not SETF:
        case['ss'] = False
    return case


def data_of(case, v):
    s = case['f']
    a = G.varray(s, v)
    val, m = a.data.copy(), np.ma.getmaskarray(a).copy()
    if case['seq'] == 'small':
        val = (np.random.RandomState(v['seed'] + 3).randint(-3, 6, size=val.shape)).astype(val.dtype)
        if v['dtype'] != 'i4':
            val = val * val.dtype.type(.5)
    if case.get('tmask'):
        k = v['dims'].index('t')
        first = np.take(m, [0], axis=k)
        if any(c['kwds'].get('mode') == 'valid' and c['func'] == 'convolve_1d' for c in case['calc']):
            # spatial mask only
            for ax, d in enumerate(v['dims']):
                if d not in 'xy':
                    first = np.take(first, [0] * first.shape[ax], axis=ax)
        m = np.broadcast_to(first, m.shape).copy()
    return np.ma.array(val, mask=m)


def build(case, tmp, var_data):
    s = case['f']
    if case['src'] == 'file':
        from ocgis import RequestDataset
        p = os.path.join(tmp, 'in.nc')

        def extra(ds):
            for v in s['vars']:
                ds.variables[v['name']][:] = var_data[v['name']]
        G.write_nc(s, p, extra=extra)
        return RequestDataset(p, variable=[v['name'] for v in s['vars']])
    f = G.build_field(s)
    for v in s['vars']:
        f[v['name']].set_value(np.array(var_data[v['name']].data))
        f[v['name']].set_mask(np.ma.getmaskarray(var_data[v['name']]).copy())
    return f


def perc(x, q):
    x = sorted(float(a) for a in x)
    p = (len(x) - 1) * q / 100.
    i = int(math.floor(p))
    j = min(i + 1, len(x) - 1)
    return x[i] + (x[j] - x[i]) * (p - i)


def med(x):
    return perc(x, 50.)


OPS = {'gt': lambda a, b: a > b, 'lt': lambda a, b: a < b, 'gte': lambda a, b: a >= b, 'lte': lambda a, b: a <= b}


def var_of(x):
    m = math.fsum(x) / len(x)
    return math.fsum((a - m) ** 2 for a in x) / len(x)


SUMM = {'mean': lambda x: math.fsum(x) / len(x), 'min': min, 'max': max, 'median': med, 'var': var_of, 'std': lambda x: math.sqrt(var_of(x)), 'sum': math.fsum}


def runs(flags):
    out, k = [], 0
    for f in list(flags) + [False]:
        if f:
            k += 1
        elif k:
            out.append(k)
            k = 0
    return out


def stat(f, k, vals, msk):
    """Value of a set function over one series; None: masked."""
    x = [float(a) for a, m in zip(vals, msk) if not m]
    if not x:
        return None
    if f in SUMM and f != 'var':
        return SUMM[f](x)
    if f == 'threshold':
        return sum(OPS[k['operation']](a, k['threshold']) for a in x)
    if f == 'between':
        return sum(k['lower'] <= a <= k['upper'] for a in x)
    if f == 'freq_perc':
        return perc(x, k['percentile'])
    if f == 'duration':
        r = runs([(not m) and OPS[k['operation']](float(a), k['threshold']) for a, m in zip(vals, msk)])
        return SUMM[k['summary']](r) if r else 0.
    raise NotImplementedError(f)


def elem(f, k, vals, msk):
    """Series in, series out (None: masked)."""
    n = len(vals)
    if f == 'ln':
        return [None if m or a <= 0 else math.log(a) for a, m in zip(vals, msk)]
    if f == 'moving_window':
        h, out = (k['k'] - 1) // 2, []
        for i in range(n):
            if k['mode'] == 'valid' and (i - h < 0 or i + h >= n):
                out.append(None)
                continue
            x = [float(vals[j]) for j in range(max(0, i - h), min(n, i + h + 1)) if not msk[j]]
            out.append(SUMM[k['operation']](x) if x else None)
        return out
    if f == 'convolve_1d':
        if msk[0]:
            return [None] * n
        v = k['v']
        full = [math.fsum(float(vals[j]) * v[i - j] for j in range(n) if 0 <= i - j < len(v)) for i in range(n + len(v) - 1)]
        if k['mode'] == 'same':
            o = (len(v) - 1) // 2
            return full[o:o + n]
        return full[len(v) - 1:n] + [None] * (len(v) - 1)
    raise NotImplementedError(f)


def expected(case, v, data, c, groups):
    """Masked array in the dimension order of the variable; time replaced by groups."""
    k = v['dims'].index('t')
    d = np.moveaxis(data, k, 0)
    f, kw = c['func'], c['kwds']
    if f in SETF:
        out = np.ma.masked_all((len(groups),) + d.shape[1:], dtype=float)
        for idx in np.ndindex(*d.shape[1:]):
            col = d[(slice(None),) + idx]
            cd, cm = col.data, np.ma.getmaskarray(col)
            for i, m in enumerate(groups):
                r = stat(f, kw, cd[m], cm[m])
                if r is not None:
                    out[(i,) + idx] = r
    else:
        full = np.ma.masked_all(d.shape, dtype=float)
        for idx in np.ndindex(*d.shape[1:]):
            col = d[(slice(None),) + idx]
            for i, r in enumerate(elem(f, kw, col.data, np.ma.getmaskarray(col))):
                if r is not None:
                    full[(i,) + idx] = r
        out = full
        if groups is not None:
            out = np.ma.masked_all((len(groups),) + d.shape[1:], dtype=float)
            for i, m in enumerate(groups):
                for idx in np.ndindex(*d.shape[1:]):
                    x = full[m][(slice(None),) + idx].compressed()
                    if len(x):
                        out[(i,) + idx] = math.fsum(x) / len(x)
    return np.moveaxis(out, 0, k)


def times_of(t):
    return [C.add_seconds(t['calendar'], (2000, 1, 1, 0, 0, 0), int(round(x * 86400))) for x in G.time_vals(t)]


def run(case):
    import ocgis
    s = case['f']
    tmp = os.getcwd()
    names = [v['name'] for v in s['vars']]
    data = {v['name']: data_of(case, v) for v in s['vars']}
    src = build(case, tmp, data)
    snap = G.snap_coll(src) if case['src'] == 'mem' else None
    dates = times_of(s['time'])
    groups = None if case['g'] is None else C.group(dates, case['g'])
    if groups is not None and not groups:
        return None
    calc = []
    for c in case['calc']:
        kw = dict(c['kwds'])
        if 'v' in kw:
            kw['v'] = np.array(kw['v'])
        calc.append({'func': c['func'], 'name': c['name'], 'kwds': kw})
    kw = {}
    if case['g'] is not None:
        kw['calc_grouping'] = [list(x) if isinstance(x, list) else x for x in case['g']] if case['g'] != 'all' else 'all'
    if any(c['func'] == 'duration' for c in calc) and (case['g'] == 'all' or 'year' not in case['g']):
        return run_direct(case, src, data, groups)
    ops = ocgis.OcgOperations(dataset=src, calc=calc, calc_sample_size=case['ss'], **kw)
    out = ops.execute().get_element()
    return judge(case, out, data, groups, snap, src)


def run_direct(case, src, data, groups):
    """Function objects applied to a field (no request validation)."""
    import ocgis
    from ocgis.calc.library.register import FunctionRegistry
    field = src if case['src'] == 'mem' else src.get()
    snap = G.snap_coll(field)
    reg = FunctionRegistry()
    g = case['g']
    tgd = field.time.get_grouping([list(x) if isinstance(x, list) else x for x in g] if g != 'all' else 'all')
    vc = None
    for c in case['calc']:
        vc = reg[c['func']](alias=c['name'], field=field, tgd=tgd, vc=vc, parms=dict(c['kwds']), calc_sample_size=case['ss']).execute()
    return judge(case, vc, data, groups, None, None)


def judge(case, out, data, groups, snap, src):
    s = case['f']
    multi = len(s['vars']) > 1
    label = [sorted({c['func'] for c in case['calc']})[0], case['src'], 'masked' if any(np.ma.getmaskarray(d).any() for d in data.values()) else 'nomask']
    for c in case['calc']:
        for v in s['vars']:
            nm = '{}_{}'.format(c['name'], v['name']) if multi else c['name']
            check(nm in out, 'result {} missing: {}', nm, list(out.keys()))
            o = out[nm]
            want = expected(case, v, data[v['name']], c, groups)
            wd = [G.DIMN[d] for d in v['dims']]
            check(list(o.dimension_names) == wd, 'dimensions of {}: {} expected {}', nm, o.dimension_names, wd)
            got = o.get_masked_value()
            if v['dtype'] == 'i4':
                # results keep the data type of the input
                want = np.ma.array(np.trunc(want.data), mask=want.mask)
                near = np.abs(got.data - want.data) <= 1
                if c['func'] in ('std', 'moving_window', 'duration', 'freq_perc', 'mean', 'median', 'ln', 'convolve_1d'):
                    arr_eq(np.ma.array(near, mask=got.mask), np.ma.array(np.ones(want.shape, bool), mask=want.mask), '{} ({} of {})'.format(nm, c['func'], v['name']))
                    continue
            arr_eq(got, want, '{} ({} {} of {})'.format(nm, c['func'], c['kwds'], v['name']), rtol=3e-5 if v['dtype'] == 'f4' else 1e-9, atol=2e-5 if v['dtype'] == 'f4' else 1e-9)
            check(o.dtype == np.dtype(v['dtype']), 'data type of {}: {}', nm, o.dtype)
        if case['ss'] and c['func'] in SETF:
            for v in s['vars']:
                nm = '{}_{}'.format(c['name'], v['name']) if multi else c['name']
                o = out['n_' + nm]
                k = v['dims'].index('t')
                m = np.moveaxis(np.ma.getmaskarray(data[v['name']]), k, 0)
                cnt = np.stack([(~m[g]).sum(axis=0) for g in groups])
                arr_eq(o.get_masked_value(), np.moveaxis(np.ma.array(cnt, mask=cnt == 0), 0, k), 'sample size of ' + nm)
    if snap is not None:
        d = G.diff_coll(snap, G.snap_coll(src))
        check(d is None, 'source field changed: {}', d)
        fld = out
        check(sorted(v.name for v in fld.data_variables) == sorted([n for n in out.keys() if n.startswith('c') and n[1].isdigit()] + [n for n in out.keys() if n.startswith('n_c')]),
              'data variables of the result: {}', [v.name for v in fld.data_variables])
        check(not set(v['name'] for v in s['vars']) & set(out.keys()), 'input variables left in the result')
        arr_eq(fld.grid.x.get_value(), src.grid.x.get_value(), 'x')
        if s['nl'] is not None:
            arr_eq(fld.level.get_value(), src.level.get_value(), 'level')
    if groups is None:
        return label if s['nt'] > 2 else None
    return label if len(groups) > 1 or max(map(len, groups)) > 1 else None


# ------------------------------------------------------------------ daily percentile, freeze-thaw, frequency of durations
def gen_daily(draw):
    s = G.draw_field(draw, nt=(1, 1), ny=(1, 2), nx=(1, 2), grid=('1d',), nvars=(1, 1), dtypes=('f8', 'f4'))
    n = pick(draw, [5, 20, 70, 400, 800])
    s['nt'] = n
    e0 = draw(I(-800, 800))
    s['time'] = {'units': 'days since 2000-01-01', 'calendar': pick(draw, ['standard', 'proleptic_gregorian']), 'edges': [float(e0 + i) for i in range(n + 1)], 'bounds': chance(draw)}
    return {'f': s, 'src': 'mem', 'g': None, 'seq': 'perm', 'tmask': True, 'calc': [],
            'p': float(pick(draw, [0, 10, 50, 90, 100])), 'w': pick(draw, [1, 3, 5, 7]), 'leap': chance(draw)}


def run_daily(case):
    import ocgis
    s = case['f']
    v = s['vars'][0]
    data = {v['name']: data_of(case, v)}
    src = build(case, None, data)
    cal = s['time']['calendar']
    D = times_of(s['time'])
    days = [C.daynum(cal, *d[:3]) for d in D]
    ops = ocgis.OcgOperations(dataset=src, calc=[{'func': 'daily_perc', 'name': 'dp', 'kwds': {'percentile': case['p'], 'window_width': case['w'], 'only_leap_years': case['leap']}}])
    out = ops.execute().get_element()
    got = out['dp'].get_masked_value()
    arr = data[v['name']]
    half = case['w'] // 2
    keys = sorted({d[1:3] for d in D})
    check(got.shape == (len(keys), s['ny'], s['nx']), 'shape {}', got.shape)
    for i, (m, dd) in enumerate(keys):
        if s['nt'] > 100 and i % 7 and (m, dd) not in ((2, 28), (2, 29), (3, 1), (1, 1), (12, 31)):
            continue
        sel = []
        for j, d in enumerate(D):
            y = d[0]
            if (m, dd) == (2, 29):
                if C.leap(cal, y):
                    ok = abs(days[j] - C.daynum(cal, y, 2, 29)) <= half
                elif case['leap']:
                    ok = False
                else:
                    # the 28th stands in; the day that would be missing is taken from the other side
                    k = days[j] - C.daynum(cal, y, 2, 28)
                    ok = -half < k + .25 + (0 if case['w'] > 1 else .5) and k <= half and k >= -(case['w'] / 2.) + 1
            else:
                ok = min(abs(days[j] - C.daynum(cal, yy, m, dd)) for yy in (y - 1, y, y + 1)) <= half
            if ok:
                sel.append(j)
        if not sel:
            continue
        want = np.ma.masked_all((s['ny'], s['nx']))
        for idx in np.ndindex(s['ny'], s['nx']):
            if not np.ma.getmaskarray(arr)[(0,) + idx]:
                want[idx] = perc(arr.data[(sel,) + idx], case['p'])
        arr_eq(got[i], want, 'daily percentile of {}-{} over {}'.format(m, dd, [D[j][:3] for j in sel]), rtol=1e-5, atol=1e-5)
    return ['leapday' if (2, 29) in keys else 'plain', case['w']] if len(keys) > 3 else None


def gen_ft(draw):
    s = G.draw_field(draw, nt=(1, 1), nl='maybe', ny=(1, 2), nx=(1, 2), grid=('1d',), nvars=(1, 1), dtypes=('f8',), order=pick(draw, [None, 'any']))
    draw_axis(draw, s, draw(I(2, 60)), 'daily')
    s['vars'][0]['units'] = pick(draw, ['C', 'K', 'kelvin'])
    return {'f': s, 'src': pick(draw, ['mem', 'file']), 'g': pick(draw, ['all', ['year'], ['month', 'year']]), 'seq': 'perm', 'calc': [],
            'th': float(pick(draw, [1, 3, 5, 8, 15])), 'scale': pick(draw, [1, 4]), 'block': pick(draw, [1, 3, 7])}


def freezethaw(x, th):
    """Events: after each crossing of the freezing point the degree days are summed anew; an event takes place when they reach the
    threshold and differs in kind from the last one."""
    x = [0.] + x
    cross = [0] + [i for i in range(len(x) - 1) if (x[i] >= 0) != (x[i + 1] >= 0)]
    events, last_at, last_kind = [], 0, 0
    for c in cross:
        if c < last_at:
            continue
        tot = 0.
        for j in range(c + 1, len(x)):
            tot += x[j]
            if abs(tot) >= th:
                kind = 1 if tot > 0 else -1
                if kind != last_kind:
                    events.append(kind)
                    last_at, last_kind = j, kind
                break
    return float(len(events) - 1)


def run_ft(case):
    import ocgis
    s = case['f']
    v = s['vars'][0]
    a = data_of(case, v)
    k = v['dims'].index('t')
    r = np.random.RandomState(v['seed'])
    n = s['nt']
    sign = np.repeat(r.choice([-1, 1], size=n // case['block'] + 1), case['block'])[:n]
    amp = r.randint(0, 9, size=a.shape) * .5 * case['scale']
    val = amp * sign.reshape([n if d == 't' else 1 for d in v['dims']])
    kelvin = v['units'] in ('K', 'kelvin')
    raw = val + 273.15 if kelvin else val
    data = np.ma.array(raw, mask=np.ma.getmaskarray(a))
    src = build(case, os.getcwd(), {v['name']: data})
    groups = C.group(times_of(s['time']), case['g'])
    g = case['g']
    out = ocgis.OcgOperations(dataset=src, calc=[{'func': 'freezethaw', 'name': 'ft', 'kwds': {'threshold': case['th']}}], calc_grouping=g).execute().get_element()
    got = np.moveaxis(out['ft'].get_masked_value(), k, 0)
    d = np.moveaxis(data, k, 0)
    want = np.ma.masked_all(got.shape)
    for idx in np.ndindex(*d.shape[1:]):
        for i, m in enumerate(groups):
            x = d[(m,) + idx].compressed()
            if len(x):
                want[(i,) + idx] = freezethaw([float(b - 273.15) if kelvin else float(b) for b in x], case['th'])
    arr_eq(got, want, 'freeze-thaw events', atol=1e-9)
    return ['K' if kelvin else 'C'] if want.count() and want.max() > 0 else None


def gen_fd(draw):
    c = gen(draw)
    c['calc'] = [{'func': 'freq_duration', 'name': 'fd', 'kwds': {'threshold': draw(I(-4, 8)) * .5, 'operation': pick(draw, ['gt', 'lt', 'gte', 'lte'])}}]
    c['seq'], c['ss'] = 'small', False
    c['f']['vars'] = c['f']['vars'][:1]
    return c


def run_fd(case):
    import ocgis
    from ocgis.calc.library.index.duration import FrequencyDuration
    s = case['f']
    v = s['vars'][0]
    data = data_of(case, v)
    src = build(case, os.getcwd(), {v['name']: data})
    field = src if case['src'] == 'mem' else src.get()
    groups = C.group(times_of(s['time']), case['g'])
    if not groups:
        return None
    g = case['g']
    tgd = field.time.get_grouping([list(x) if isinstance(x, list) else x for x in g] if g != 'all' else 'all')
    c = case['calc'][0]
    o = FrequencyDuration(alias='fd', field=field, tgd=tgd, parms=dict(c['kwds']), dtype=object).execute()['fd']
    k = v['dims'].index('t')
    d = np.moveaxis(data, k, 0)
    got = np.moveaxis(o.get_value(), k, 0)
    gm = np.moveaxis(o.get_mask(create=True), k, 0)
    some = False
    for idx in np.ndindex(*d.shape[1:]):
        for i, m in enumerate(groups):
            col = d[(m,) + idx]
            cm = np.ma.getmaskarray(col)
            check(bool(gm[(i,) + idx]) == bool(cm.all()), 'mask of group {} cell {}', i, idx)
            if cm.all():
                continue
            r = runs([(not b) and OPS[c['kwds']['operation']](float(a), c['kwds']['threshold']) for a, b in zip(col.data, cm)])
            want = sorted((x, r.count(x)) for x in set(r)) or [(0, 1)]
            have = sorted((int(e['duration']), int(e['count'])) for e in got[(i,) + idx])
            check(have == want, 'durations {} expected {} of {}', have, want, col.tolist())
            some = some or len(r) > 1
    return [case['src']] if some else None


TARGETS = [
    Target('set', gen, run, quick=500, thorough=12000, rule='set functions over temporal groups'),
    Target('element', lambda d: gen(d, ELEM, False), run, quick=250, thorough=6000, rule='element-wise and windowed functions'),
    Target('element_grouped', lambda d: gen(d, ['ln', 'convolve_1d'], True), run, quick=120, thorough=3000, rule='element-wise functions averaged over groups'),
    Target('daily_perc', gen_daily, run_daily, quick=40, thorough=800, rule='daily percentiles'),
    Target('freezethaw', gen_ft, run_ft, quick=100, thorough=3000, rule='freeze-thaw events'),
    Target('freq_duration', gen_fd, run_fd, quick=150, thorough=3000, rule='frequency of durations'),
]
