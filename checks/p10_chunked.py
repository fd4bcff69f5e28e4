"""Tile-by-tile computation against execution at once (same request, two output files compared variable by variable), and tile
schemes against full coverage. Non-trivial: at least two tiles."""
import datetime
import os
import numpy as np
from core import Target, Violation, Skip, check, arr_eq
import gens as G
from gens import I, pick, chance
from checks.p11_spatial_subset import wkt, keep_by_definition
from hypothesis import strategies as st


def gen(draw):
    s = G.draw_field(draw, nt=(1, 6), nl='maybe', nr=None, ny=(2, 6), nx=(2, 6), nvars=(1, 2), dtypes=('f8', 'f4'), names=['foo', 'bar'],
                     x={'lo': -10, 'hi': 10, 'maxstep': 3}, y={'lo': -10, 'hi': 10, 'maxstep': 3}, t={'span': pick(draw, [20, 60, 400])})
    s['crs'] = 'spherical'
    for v in s['vars']:
        v['units'] = 'm'
    calc = pick(draw, ['one', 'one', 'one', 'two', 'expr', 'param', 'multi', 'multi2', 'none', 'bcast'])
    if calc == 'multi' and len(s['vars']) < 2:
        calc = 'one'
    t = s['time']
    i, j = sorted([draw(I(0, s['nt'] - 1)), draw(I(0, s['nt'] - 1))])
    c = {'field': s, 'calc': calc, 'func': pick(draw, ['mean', 'max', 'min', 'sum', 'std', 'median']), 'group': pick(draw, [['month'], ['year'], ['year', 'month'], 'all', ['day']]),
         'tile': draw(I(1, 7)), 'opt': chance(draw), 'sample': chance(draw, .2), 'sel': None, 'trange': None, 'rdtrange': None, 'tregion': None, 'level': None,
         'sbounds': chance(draw), 'verbose': False, 'abstraction': pick(draw, ['auto', 'auto', 'auto', 'point']), 'callback': chance(draw, .15)}
    if chance(draw, .4):
        c['sel'] = G.draw_sel(draw, s, ('poly', 'poly', 'multi', 'hole'), pad=1)
    m = pick(draw, [None, None, 'ops', 'rd', 'region'])
    r = [float(t['edges'][i]) + .1, float(t['edges'][j + 1]) - .1]
    if m == 'ops':
        c['trange'] = r
    elif m == 'rd':
        c['rdtrange'] = r
    elif m == 'region':
        t['bounds'] = False
        d = day(G.time_vals(t)[i])
        c['tregion'] = {'month': sorted({d.month, draw(I(1, 12))})}
    if s['nl'] is not None and chance(draw, .3):
        a, b = sorted([draw(I(0, s['nl'] - 1)), draw(I(0, s['nl'] - 1))])
        c['level'] = [s['le'][a] + .1, s['le'][b + 1] - .1]
        c['lwhere'] = pick(draw, ['ops', 'rd'])
    return c


def day(x):
    return datetime.datetime(2000, 1, 1) + datetime.timedelta(days=float(x))


def read(path):
    import netCDF4 as nc
    ds = nc.Dataset(path)
    out = {}
    for n, v in ds.variables.items():
        a = v[:] if v.ndim or v.dtype.kind != 'S' else None
        out[n] = (v.dimensions, a, {k: v.getncattr(k) for k in v.ncattrs()})
    dims = {n: (len(d), d.isunlimited()) for n, d in ds.dimensions.items()}
    ds.close()
    return dims, out


def make_ops(case, prefix):
    import ocgis
    s = case['field']
    path = os.path.abspath('in.nc')
    if not os.path.exists(path):
        G.write_nc(s, path)
    names = [v['name'] for v in s['vars']]
    rkw = {'crs': G.crs_obj('spherical')}
    if case['rdtrange']:
        rkw['time_range'] = [day(x) for x in case['rdtrange']]
    if case['level'] and case['lwhere'] == 'rd':
        rkw['level_range'] = case['level']
    calc = case['calc']
    kw = {'output_format': 'nc', 'prefix': prefix, 'dir_output': os.getcwd(), 'abstraction': case['abstraction']}
    if calc == 'multi2':
        kw['dataset'] = [ocgis.RequestDataset(path, variable='foo', rename_variable='a1', field_name='f1', **rkw),
                         ocgis.RequestDataset(path, variable='foo', rename_variable='a2', field_name='f2', **rkw)]
        kw['calc'] = [{'func': 'divide', 'name': 'q', 'kwds': {'arr1': 'a1', 'arr2': 'a2'}}]
    else:
        use = names if calc in ('multi', 'one', 'two') and len(names) > 1 else names[0]
        kw['dataset'] = ocgis.RequestDataset(path, variable=use, field_name='ds', **rkw)
        if calc == 'multi':
            kw['calc'] = [{'func': 'divide', 'name': 'q', 'kwds': {'arr1': 'foo', 'arr2': 'bar'}}]
        elif calc == 'expr':
            kw['calc'] = 'res=foo*2+1'
        elif calc == 'one':
            kw['calc'] = [{'func': case['func'], 'name': 'r'}]
        elif calc == 'two':
            kw['calc'] = [{'func': case['func'], 'name': 'r'}, {'func': 'mean', 'name': 'm'}]
        elif calc == 'param':
            kw['calc'] = [{'func': 'threshold', 'name': 'th', 'kwds': {'threshold': 3., 'operation': 'gte'}}]
        elif calc == 'bcast':
            kw['calc'] = [{'func': 'ln', 'name': 'l'}]
    if calc in ('one', 'two', 'param'):
        kw['calc_grouping'] = case['group']
        kw['calc_sample_size'] = case['sample']
    if case['sel']:
        kw['geom'] = [{'geom': wkt(case['sel']), 'properties': {'UGID': 1}, 'crs': G.crs_obj('spherical')}]
    if case['trange']:
        kw['time_range'] = [day(x) for x in case['trange']]
    if case['tregion']:
        kw['time_region'] = case['tregion']
    if case['level'] and case['lwhere'] == 'ops':
        kw['level_range'] = case['level']
    return ocgis.OcgOperations(**kw)


def run(case):
    from ocgis.util.large_array import compute
    from ocgis.exc import ExtentError
    s = case['field']
    calls = []
    ref = make_ops(case, 'ref')
    try:
        pref = ref.execute()
    except ExtentError:
        raise Skip('the subset is empty')
    ops = make_ops(case, 'til')
    if case['callback']:
        ops.callback = lambda p, m: calls.append(p)
    import ocgis
    before = ocgis.env.OPTIMIZE_FOR_CALC
    ptil = compute(ops, case['tile'], use_optimizations=case['opt'])
    check(ocgis.env.OPTIMIZE_FOR_CALC == before, 'the environment setting was not restored')
    rd, rv = read(pref)
    td, tv = read(ptil)
    check(rd == td, 'dimensions {} expected {}', td, rd)
    check(sorted(rv) == sorted(tv), 'variables {} expected {}', sorted(tv), sorted(rv))
    for n in rv:
        a, b = rv[n], tv[n]
        check(a[0] == b[0], '{}: dimensions {} expected {}', n, b[0], a[0])
        aa = {k: str(v) for k, v in a[2].items() if k != '_FillValue'}
        ba = {k: str(v) for k, v in b[2].items() if k != '_FillValue'}
        check(aa == ba, '{}: attributes {} expected {}', n, ba, aa)
        if a[1] is None:
            continue
        x, y = np.ma.asarray(a[1]), np.ma.asarray(b[1])
        check(x.dtype == y.dtype, '{}: type {} expected {}', n, y.dtype, x.dtype)
        mx, my = np.ma.getmaskarray(x), np.ma.getmaskarray(y)
        check(np.array_equal(mx, my), '{}: mask {} expected {}', n, my.astype(int).tolist(), mx.astype(int).tolist())
        if x.dtype.kind == 'f':
            ok = np.isclose(x.data[~mx], y.data[~mx], rtol=1e-6, atol=1e-9, equal_nan=True)
        else:
            ok = x.data[~mx] == y.data[~mx]
        check(ok.all(), '{}: {} expected {}', n, y.tolist(), x.tolist())
    ny, nx = [td[d][0] for d in ('y', 'x')] if 'y' in td and 'x' in td else (0, 0)
    tiles = -(-ny // case['tile']) * -(-nx // case['tile'])
    if tiles < 2:
        return ''
    return '{} {}{}'.format(case['calc'], 'opt' if case['opt'] else 'plain', ' geom' if case['sel'] else '')


# ---------------------------------------------------------------- tile schemes
def gen_schema(draw):
    return {'n': draw(I(1, 40)), 'm': draw(I(1, 40)), 't': draw(I(1, 45))}


def run_schema(case):
    from ocgis.calc.tile import get_tile_schema
    n, m, t = case['n'], case['m'], case['t']
    sc = get_tile_schema(n, m, t)
    cover = np.zeros((n, m), int)
    for k, v in sc.items():
        (a, b), (c, d) = v['row'], v['col']
        check(0 <= a < b <= n and 0 <= c < d <= m, 'tile {} {} is outside {}x{}', v['row'], v['col'], n, m)
        check(b - a <= t and d - c <= t, 'tile {} {} is larger than {}', v['row'], v['col'], t)
        cover[a:b, c:d] += 1
    check((cover == 1).all(), 'cells of {}x{} with tiles of {} covered {} times', n, m, t, sorted(set(cover.ravel().tolist())))
    return '' if len(sc) < 2 else '{} tiles'.format('few' if len(sc) < 10 else 'many')


# ---------------------------------------------------------------- size of a request
def gen_size(draw):
    c = gen(draw)
    c['calc'] = pick(draw, ['none', 'none', 'one', 'expr'])
    c['mem'] = chance(draw, .3)
    c['agg'] = c['sel'] is not None and chance(draw, .3)
    return c


def run_size(case):
    """The estimate lists the variables of the requested data, before calculation and aggregation."""
    import ocgis
    from ocgis.exc import ExtentError
    s = case['field']
    if case['mem']:
        case = dict(case, rdtrange=None, level=None)
    ops = make_ops(case, 'a')
    if case['mem']:
        ops.dataset = G.build_field(s, name='ds')
    ops.aggregate = case['agg']
    try:
        got = ops.get_base_request_size()
    except ExtentError:
        got = None
    ops.output_format = 'ocgis'
    ops.aggregate = False
    ops.calc = None
    ops.calc_grouping = None
    try:
        f = ops.execute().get_element()
    except ExtentError:
        check(got is None, 'size {} of a request without data', got)
        return ''
    check(got is not None, 'no size of a request with data')
    check(list(got['field'].keys()) == ['ds'], 'fields {} in the size', list(got['field'].keys()))
    rows = got['field']['ds']
    total = 0.
    for k, v in f.items():
        if v.dtype is None or k not in rows and k in ('ocgis_spatial_mask', 'GID'):
            continue
        check(k in rows, 'no size of {} in {}', k, list(rows))
        if k in rows:
            check(tuple(rows[k]['shape']) == tuple(v.shape), '{} has the shape {} expected {}', k, rows[k]['shape'], v.shape)
            kb = v.get_value().nbytes / 1024.
            check(abs(rows[k]['kb'] - kb) < 1e-9 and np.dtype(rows[k]['dtype']) == v.get_value().dtype, '{} {} expected {} kB {}', k, rows[k], kb, v.get_value().dtype)
    total = sum(r['kb'] for r in rows.values())
    check(abs(got['total'] - total) < 1e-9, 'total {} of {}', got['total'], total)
    return 'restricted' if f[s['vars'][0]['name']].size < np.prod([s[q] for q in ('nt', 'nl', 'ny', 'nx') if s[q]]) else ''


TARGETS = [
    Target('compute', gen, run, 130, 3000, 'at least two tiles'),
    Target('schema', gen_schema, run_schema, 300, 20000, 'at least two tiles'),
    Target('size', gen_size, run_size, 120, 3000, 'the request restricts the data'),
]
