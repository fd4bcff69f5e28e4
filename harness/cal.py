"""Calendar arithmetic from the CF definitions, independent of cftime."""
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CAL = {'standard': 'std', 'gregorian': 'std', 'proleptic_gregorian': 'greg', 'julian': 'jul', 'noleap': '365', '365_day': '365',
       'all_leap': '366', '366_day': '366', '360_day': '360'}


def leap(cal, y):
    k = CAL[cal]
    if k == '366':
        return True
    if k in ('365', '360'):
        return False
    if k == 'jul' or (k == 'std' and y < 1582):
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(cal, y, m):
    if CAL[cal] == '360':
        return 30
    return LEN[m - 1] + (1 if m == 2 and leap(cal, y) else 0)


def valid(cal, y, m, d):
    return d <= month_len(cal, y, m) and not (CAL[cal] == 'std' and (y, m) == (1582, 10) and 4 < d < 15)


def _jdn_greg(y, m, d):
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045


def _jdn_jul(y, m, d):
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083


def daynum(cal, y, m, d):
    """A day count; consecutive days of the calendar have consecutive counts."""
    k = CAL[cal]
    if k == '360':
        return 360 * y + 30 * (m - 1) + d - 1
    if k in ('365', '366'):
        L = [l + (1 if i == 1 and k == '366' else 0) for i, l in enumerate(LEN)]
        return sum(L) * y + sum(L[:m - 1]) + d - 1
    if k == 'jul':
        return _jdn_jul(y, m, d)
    if k == 'greg' or (y, m, d) >= (1582, 10, 15):
        return _jdn_greg(y, m, d)
    return _jdn_jul(y, m, d)


def civil(cal, n):
    """Inverse of daynum by search (years are bracketed first)."""
    k = CAL[cal]
    per = {'360': 360., '365': 365., '366': 366.}.get(k, 365.25)
    base = 0 if k in ('360', '365', '366') else 1721000
    y = int((n - base) // per)
    while daynum(cal, y, 1, 1) > n:
        y -= 1
    while daynum(cal, y + 1, 1, 1) <= n:
        y += 1
    m = 12
    while daynum(cal, y, m, 1) > n:
        m -= 1
    d = n - daynum(cal, y, m, 1) + 1
    if k == 'std' and (y, m) == (1582, 10) and d > 4:
        d += 10
    return y, m, d


UNIT_S = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1}


def add_seconds(cal, epoch, seconds):
    """epoch (y,m,d,H,M,S) + whole seconds -> the same kind of tuple."""
    y, m, d, H, M, S = epoch
    t = H * 3600 + M * 60 + S + seconds
    n, r = divmod(t, 86400)
    return civil(cal, daynum(cal, y, m, d) + n) + (r // 3600, r % 3600 // 60, r % 60)


def diff_seconds(cal, a, b):
    """a - b in seconds."""
    return (daynum(cal, *a[:3]) - daynum(cal, *b[:3])) * 86400 + (a[3] - b[3]) * 3600 + (a[4] - b[4]) * 60 + a[5] - b[5]


def parts(o):
    return (o.year, o.month, o.day, o.hour, o.minute, o.second)


def group(dates, arg):
    """Members of each temporal group, groups in the order of their keys. dates: tuples; arg: 'all', date parts, or seasons (+ 'year')."""
    n = len(dates)
    if arg == 'all':
        return [list(range(n))]
    idx = {'year': 0, 'month': 1, 'day': 2}
    out = {}
    if isinstance(arg[0], str):
        for i, d in enumerate(dates):
            out.setdefault(tuple(d[idx[p]] for p in ('year', 'month', 'day') if p in arg), []).append(i)
    else:
        order = sorted([a for a in arg if not isinstance(a, str)], key=min)
        for i, d in enumerate(dates):
            for k, s in enumerate(order):
                if d[1] in s:
                    out.setdefault(((d[0],) if 'year' in arg else ()) + (k,), []).append(i)
    return [out[k] for k in sorted(out)]
