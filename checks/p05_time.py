"""Numeric times in every calendar and unit (vectors, bounds, masks, months units, template units) are converted to dates and
back; oracle: calendar arithmetic written from the CF definitions (harness/cal.py). Non-trivial: at least one unmasked time."""
import os
import numpy as np
from core import Target, Violation, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st

CALS = sorted(C.CAL)


def draw_epoch(draw, cal):
    y = draw(I(1600, 2150)) if chance(draw, .5) else pick(draw, [1850, 1900, 1970, 2000, 2001])
    m = draw(I(1, 12))
    d = draw(I(1, C.month_len(cal, y, m)))
    t = pick(draw, [(0, 0, 0), (0, 0, 0), (12, 0, 0), (6, 30, 0), (23, 59, 59)])
    return [y, m, d] + list(t)


def epoch_text(e, style):
    if style == 0 and e[3:] == [0, 0, 0]:
        return '{}-{}-{}'.format(*e[:3])
    if style == 1:
        return '{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}'.format(*e)
    return '{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}'.format(*e)


def gen_num(draw):
    cal = pick(draw, CALS)
    unit = pick(draw, sorted(C.UNIT_S))
    e = draw_epoch(draw, cal)
    n = draw(I(1, 8))
    # steps in seconds: whole numbers of 15 minutes for days and hours, of 15 seconds for minutes (binary fractions)
    q = {'days': 10800, 'hours': 900, 'minutes': 15, 'seconds': 1}[unit]
    maxd = pick(draw, [2, 40, 800, 40000])
    lo = -maxd if e[0] > 1720 else 0
    secs = [draw(I(lo * 86400 // q, maxd * 86400 // q)) * q for _ in range(n + 1)]
    if chance(draw, .8):
        secs.sort()
    return {'cal': cal, 'unit': unit, 'epoch': e, 'style': draw(I(0, 2)), 'secs': secs, 'bounds': chance(draw),
            'mask': G.draw_density(draw), 'seed': draw(I(0, 99)), 'dtype': pick(draw, ['f8', 'f8', 'i8', 'i4']), 'from_file': chance(draw, .3),
            'cal_attr': chance(draw)}


def tv_from(value, case, units, name='time', bounds=None, mask=None):
    from ocgis import TemporalVariable
    return TemporalVariable(name=name, value=value, dimensions='time' if np.ndim(value) == 1 else ['time', 'bnds'], units=units,
                            calendar=case['cal'], bounds=bounds, mask=mask)


def date_tuples(a, what):
    """object array -> list of tuples or None (masked)"""
    a = np.ma.array(a)
    return [None if m else C.parts(o) for o, m in zip(a.data.flat, np.ma.getmaskarray(a).flat)]


def run_num(case):
    import ocgis
    u = C.UNIT_S[case['unit']]
    units = '{} since {}'.format(case['unit'], epoch_text(case['epoch'], case['style']))
    s = np.array(case['secs'], dtype=float)
    n = len(s) - 1
    val = s[:-1] / u
    bnd = np.column_stack([s[:-1], s[1:]]) / u
    integral = all(x % u == 0 for x in case['secs']) and abs(s / u).max() < 2 ** 31
    dt = case['dtype'] if integral else 'f8'
    val, bnd = val.astype(dt), bnd.astype(dt)
    m = G.mask((n,), case['seed'], case['mask'])
    want = [C.add_seconds(case['cal'], case['epoch'], x) for x in case['secs']]
    wv = [None if m is not None and m[i] else want[i] for i in range(n)]
    wb = [x for i in range(n) for x in ((None, None) if m is not None and m[i] else (want[i], want[i + 1]))]
    if case['from_file'] and (m is None or not m.any()):
        import netCDF4 as nc
        ds = nc.Dataset('t.nc', 'w')
        ds.createDimension('time', n)
        ds.createDimension('bnds', 2)
        v = ds.createVariable('time', dt, ('time',))
        v.units, v.calendar, v.axis = units, case['cal'], 'T'
        v[:] = val
        if case['bounds']:
            v.bounds = 'tb'
            b = ds.createVariable('tb', dt, ('time', 'bnds'))
            if case['cal_attr']:
                b.units, b.calendar = units, case['cal']
            b[:] = bnd
        w = ds.createVariable('foo', 'f4', ('time',))
        w[:] = 1.
        ds.close()
        tv = ocgis.RequestDataset(os.path.abspath('t.nc'), variable='foo').get().time
    else:
        b = tv_from(bnd.copy(), case, units, 'tb') if case['bounds'] else None
        tv = tv_from(val.copy(), case, units, bounds=b, mask=None if m is None else m.copy())
    check(tv.units == units and tv.calendar == case['cal'], 'units {} calendar {}', tv.units, tv.calendar)
    got = date_tuples(tv.value_datetime, 'dates')
    check(got == wv, 'dates {} expected {} for {} {} ({})', got, wv, val.tolist(), units, case['cal'])
    arr_eq(tv.value_numtime, np.ma.array(val, mask=m if m is not None else False), 'numeric times')
    if case['bounds']:
        g = date_tuples(tv.bounds.value_datetime, 'bounds')
        check(g == wb, 'bounds dates {} expected {}', g, wb)
        check(tv.bounds.calendar == case['cal'], 'bounds calendar {}', tv.bounds.calendar)
    keep = [i for i in range(n) if wv[i] is not None]
    if keep:
        pool = [want[i] for i in keep] + ([want[i + 1] for i in keep] if case['bounds'] else [])
        ex = [C.parts(x) for x in tv.extent_datetime]
        check(ex == [min(pool), max(pool)], 'extent {} expected {}', ex, [min(pool), max(pool)])
        sp = [x for i in keep for x in (case['secs'][i:i + 2] if case['bounds'] else case['secs'][i:i + 1])]
        en = [float(x) * u for x in tv.extent_numtime]
        check(np.allclose(en, [min(sp), max(sp)], atol=.01, rtol=1e-12), 'numeric extent {}', en)
    # and back: a variable made of those dates has the original numbers
    dd = np.empty(n, dtype=object)
    dd[:] = list(np.ma.array(tv.value_datetime).data)
    ok = [i for i in range(n)] if m is None else keep
    if ok:
        bb = None
        if case['bounds']:
            bb = np.empty((len(ok), 2), dtype=object)
            bv = np.ma.array(tv.bounds.value_datetime).data
            for i, j in enumerate(ok):
                bb[i, :] = list(bv[j])
            bb = tv_from(bb, case, units, 'tb')
        m2 = None if m is None else np.zeros(len(ok), bool)
        back = tv_from(dd[ok], case, units, bounds=bb, mask=m2)
        arr_eq(back.value_numtime, np.ma.array(val[ok]), 'dates converted to numbers', atol=.02 / u, rtol=1e-13)
        if bb is not None:
            arr_eq(back.bounds.value_numtime, np.ma.array(bnd[ok]), 'bounds dates converted to numbers', atol=.02 / u, rtol=1e-13)
        arr_eq(np.ma.array(tv.get_numtime(dd[ok])), val[ok], 'get_numtime', atol=.02 / u, rtol=1e-13)
        check(date_tuples(back.value_datetime, '') == [want[i] for i in ok], 'date values changed')
    # a slice converts to the slice
    k = case['seed'] % n
    check(date_tuples(tv[slice(k, None)].value_datetime, '') == wv[k:], 'slice of converted times')
    return [C.CAL[case['cal']], case['unit']] + (['bounds'] if case['bounds'] else []) if keep else None


# ------------------------------------------------------------------ months units
def gen_months(draw):
    y, mo = draw(I(1600, 2100)), draw(I(1, 12))
    n = draw(I(1, 6))
    span = pick(draw, [3, 14, 40, 400])
    v = draw(st.lists(I(0 if chance(draw, .7) else -span, span), min_size=n, max_size=n))
    if chance(draw, .7):
        v.sort()
    return {'y': y, 'm': mo, 'vals': v, 'bounds': chance(draw, .4), 'cal': pick(draw, ['standard', 'gregorian', 'noleap']), 'dtype': pick(draw, ['i4', 'f8', 'i8']),
            'mask': pick(draw, [None, None, 0, 40]), 'style': draw(I(0, 1))}


def run_months(case):
    from ocgis import TemporalVariable
    y, mo = case['y'], case['m']
    units = 'months since {}-{:02d}'.format(y, mo) if case['style'] == 0 else 'months since {}-{:02d}-01 00'.format(y, mo)

    def want(k):
        a, b = divmod(mo - 1 + k, 12)
        return (y + a, b + 1, 16, 0, 0, 0)
    v = np.array(case['vals'], dtype=case['dtype'])
    n = len(v)
    m = G.mask((n,), 3, case['mask'])
    b = None
    if case['bounds']:
        b = TemporalVariable(name='tb', value=np.column_stack([v, v + 1]), dimensions=['time', 'bnds'], units=units, calendar=case['cal'])
    tv = TemporalVariable(name='time', value=v.copy(), dimensions='time', units=units, calendar=case['cal'], bounds=b, mask=m)
    mm = np.zeros(n, bool) if m is None else m
    got = date_tuples(tv.value_datetime, '')
    w = [None if mm[i] else want(int(k)) for i, k in enumerate(v)]
    check(got == w, 'dates {} expected {} for {} {}', got, w, v.tolist(), units)
    if b is not None:
        g = date_tuples(tv.bounds.value_datetime, '')
        wb = [x for i, k in enumerate(v) for x in ((None, None) if mm[i] else (want(int(k)), want(int(k) + 1)))]
        check(g == wb, 'bounds dates {} expected {}', g, wb)
    dd = np.empty(n, dtype=object)
    dd[:] = list(np.ma.array(tv.value_datetime).data)
    back = TemporalVariable(name='time', value=dd, dimensions='time', units=units, calendar=case['cal'], mask=None if m is None else m.copy())
    arr_eq(back.value_numtime, np.ma.array(v, mask=mm), 'months converted back')
    if b is not None:
        arr_eq(np.ma.array(tv.get_numtime(np.ma.array(tv.bounds.value_datetime).data)), np.column_stack([v, v + 1]), 'months bounds converted back')
    return 'span%d' % min(3, (max(case['vals']) - min(case['vals'])) // 12) if not mm.all() else None


# ------------------------------------------------------------------ template units
def gen_template(draw):
    out = []
    for _ in range(draw(I(1, 5))):
        y, m = draw(I(1600, 2300)), draw(I(1, 12))
        out.append([y, m, draw(I(1, C.month_len('standard', y, m))), draw(I(0, 31))])
    return {'d': out}


def run_template(case):
    from ocgis import TemporalVariable
    v = np.array([y * 10000 + m * 100 + d + k / 32. for y, m, d, k in case['d']])
    tv = TemporalVariable(name='time', value=v, dimensions='time', units='day as %Y%m%d.%f', calendar='proleptic_gregorian')
    got = date_tuples(tv.value_datetime, '')
    want = [(y, m, d, k * 45 // 60, k * 45 % 60, 0) for y, m, d, k in case['d']]
    check(got == want, 'dates {} expected {} for {}', got, want, v.tolist())
    nums = tv.value_numtime
    check(date_tuples(tv.get_datetime(np.array(nums)), '') == want, 'numbers {} do not give the dates back ({})', nums, tv.units)
    return 'template'


# ------------------------------------------------------------------ change of units / calendar label
def gen_conform(draw):
    c = gen_num(draw)
    c['style'] = draw(I(0, 2))
    c['unit2'] = pick(draw, sorted(C.UNIT_S))
    e = draw_epoch(draw, c['cal'])
    c['epoch2'] = e[:3] + [0, 0, 0] if chance(draw) else e
    c['how'] = pick(draw, ['method', 'method', 'request'])
    c['mask'] = None if c['how'] == 'request' else c['mask']
    return c


def run_conform(case):
    import ocgis
    from ocgis.util.units import get_units_object
    u, u2 = C.UNIT_S[case['unit']], C.UNIT_S[case['unit2']]
    cal = case['cal']
    units = '{} since {}'.format(case['unit'], epoch_text(case['epoch'], 2))
    units2 = '{} since {}'.format(case['unit2'], epoch_text(case['epoch2'], 2))
    s = np.array(case['secs'], dtype=float)
    n = len(s) - 1
    val, bnd = s[:-1] / u, np.column_stack([s[:-1], s[1:]]) / u
    m = G.mask((n,), case['seed'], case['mask'])
    off = C.diff_seconds(cal, tuple(case['epoch']), tuple(case['epoch2']))
    want = np.ma.array((s[:-1] + off) / u2, mask=False if m is None else m)
    if case['how'] == 'request':
        import netCDF4 as nc
        ds = nc.Dataset('t.nc', 'w')
        ds.createDimension('time', n)
        ds.createDimension('bnds', 2)
        v = ds.createVariable('time', 'f8', ('time',))
        v.units, v.calendar, v.axis = units, cal, 'T'
        v[:] = val
        if case['bounds']:
            v.bounds = 'tb'
            ds.createVariable('tb', 'f8', ('time', 'bnds'))[:] = bnd
        ds.createVariable('foo', 'f4', ('time',))[:] = 1.
        ds.close()
        tv = ocgis.RequestDataset(os.path.abspath('t.nc'), variable='foo', t_conform_units_to=units2, t_calendar=cal).get().time
    else:
        b = tv_from(bnd.copy(), case, units, 'tb') if case['bounds'] else None
        tv = tv_from(val.copy(), case, units, bounds=b, mask=m)
        if case['cal_attr']:
            tv.value_datetime  # converted before the change
            tv.value_numtime
        tv.cfunits_conform(get_units_object(units2, calendar=cal))
    dates = [C.add_seconds(cal, case['epoch'], x) for x in case['secs']]
    tol = dict(atol=.05 / u2, rtol=1e-9 if u2 != 1 else 1e-11)
    arr_eq(tv.value_numtime, want, 'times in {}'.format(units2), **tol)
    check(str(tv.units).split()[0][:3] == case['unit2'][:3], 'units are {}', tv.units)
    check(C.CAL.get(tv.calendar) == C.CAL[cal], 'calendar became {}', tv.calendar)  # the unit library may use the other name

    def close(g, w, what):
        for a, b in zip(g, w):
            if (a is None) != (b is None) or (a is not None and abs(C.diff_seconds(cal, a, b)) > 1):
                raise Violation('{}: dates {} expected {}'.format(what, g, w))
    mm = np.zeros(n, bool) if m is None else m
    close(date_tuples(tv.value_datetime, ''), [None if mm[i] else dates[i] for i in range(n)], 'dates after unit change')
    if case['bounds']:
        wb = np.ma.array(np.column_stack([s[:-1] + off, s[1:] + off]) / u2, mask=np.column_stack([mm, mm]))
        arr_eq(tv.bounds.value_numtime, wb, 'bounds in {}'.format(units2), **tol)
        close(date_tuples(tv.bounds.value_datetime, ''), [x for i in range(n) for x in ((None, None) if mm[i] else dates[i:i + 2])], 'bounds dates after unit change')
    return [C.CAL[cal], case['how']]


TARGETS = [
    Target('numeric', gen_num, run_num, quick=2400, thorough=60000, rule='random calendar, unit, epoch and times'),
    Target('months', gen_months, run_months, quick=600, thorough=12000, rule='months since, unsorted and with gaps'),
    Target('template', gen_template, run_template, quick=100, thorough=2000, rule='day as %Y%m%d.%f'),
    Target('conform', gen_conform, run_conform, quick=800, thorough=20000, rule='unit and epoch change'),
]
