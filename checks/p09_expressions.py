"""Random expressions (arithmetic, powers, enabled functions, spacing) over fields whose variable names overlap one another and function
names, lists of expressions, variables spread over several datasets, and the multivariate functions with and without grouping; oracle: the
generated syntax tree evaluated element by element in Python. Non-trivial: at least one element is defined and a variable is used."""
import os
import math
import numpy as np
from core import Target, Violation, check, arr_eq
import gens as G
import cal as C
from gens import I, pick, chance
from hypothesis import strategies as st

NAMES = ['tas', 'tasmax', 'tas_2', 'a', 'aa', 'exp1', 'logtas', 'abs_x', 'power2', 'x1', 'TAS', 'e', '_x', 'np', 'tas_tas', 'expexp', 'res', 'variable']


def ast(draw, names, depth):
    k = pick(draw, ['var', 'var', 'num'] if depth <= 0 else ['var', 'bin', 'bin', 'bin', 'fun', 'neg', 'par', 'sq', 'num'])
    if k == 'var':
        return ['var', pick(draw, names)]
    if k == 'num':
        return ['num', pick(draw, ['1', '2', '0.5', '3.25', '10', '.5', '1e2', '2.5e-1', '4.', '273.16'])]
    if k == 'bin':
        return ['bin', pick(draw, '+-*/'), ast(draw, names, depth - 1), ast(draw, names, depth - 1)]
    if k == 'neg':
        return ['neg', ast(draw, names, depth - 1)]
    if k == 'par':
        return ['par', ast(draw, names, depth - 1)]
    if k == 'sq':
        return ['sq', ast(draw, names, depth - 1)]
    f = pick(draw, ['exp', 'log', 'abs', 'power'])
    if f == 'power':
        return ['fun', f, ast(draw, names, depth - 1), ['num', pick(draw, ['2', '3'])]] if chance(draw, .7) else ['fun', f, ['num', pick(draw, ['2.', '1.5'])], ast(draw, names, depth - 1)]
    return ['fun', f, ast(draw, names, depth - 1)]


def used(t):
    if t[0] == 'var':
        return {t[1]}
    return set().union(*[used(x) for x in t[1:] if isinstance(x, list)] or [set()])


def render(t, sp, top=True):
    k = t[0]
    if k in ('var', 'num'):
        return t[1]
    if k == 'bin':
        a, b = render(t[2], sp, False), render(t[3], sp, False)
        s = '{}{}{}{}{}'.format(a, sp, t[1], sp, b)
        return s if top else '(' + s + ')'
    if k == 'neg':
        return '(-{})'.format(render(t[1], sp, False))
    if k == 'par':
        return '({})'.format(render(t[1], sp, True))
    if k == 'sq':
        return '(({})**2)'.format(render(t[1], sp, True))
    return '{}({})'.format(t[1], (',' + sp).join(render(x, sp, True) for x in t[2:]))


class Undef(Exception):
    pass


class Wild(Exception):
    """Too large or too close to a singularity to compare."""


def ev(t, env):
    k = t[0]
    if k == 'var':
        return env[t[1]]
    if k == 'num':
        return float(t[1])
    if k == 'bin':
        # both sides first: a value that cannot be compared must not hide behind an undefined one
        a, b = ev(t[2], env), ev(t[3], env)
        if t[1] == '/':
            if b == 0:
                raise Undef() if used(t) else Wild()  # constants are evaluated outside the arrays
            if abs(b) < 1e-6:
                raise Wild()
            r = a / b
        else:
            r = a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
            if t[1] in '+-' and r != 0 and abs(r) < 1e-5 * max(abs(a), abs(b)):
                raise Wild()
            if t[1] in '+-' and r == 0 and a != 0 and not (float(a) * 64).is_integer():
                raise Wild()
    elif k == 'neg':
        r = -ev(t[1], env)
    elif k == 'par':
        r = ev(t[1], env)
    elif k == 'sq':
        r = ev(t[1], env) ** 2
    else:
        a = ev(t[2], env)
        if t[1] == 'exp':
            if abs(a) > 20:
                raise Wild()
            r = math.exp(a)
        elif t[1] == 'log':
            if a <= 0:
                raise Undef() if used(t) else Wild()
            r = math.log(a)
        elif t[1] == 'abs':
            r = abs(a)
        else:
            b = ev(t[3], env)
            if abs(b) > 30 or (a < 0 and b != int(b)):
                raise Wild()
            r = a ** b
    if abs(r) > 1e9 or (r != 0 and abs(r) < 1e-9):
        raise Wild()
    return r


def gen(draw):
    n = draw(I(1, 4))
    names = list(draw(st.permutations(NAMES)))[:n]
    if chance(draw, .5):
        fam = pick(draw, [['tas', 'tasmax', 'tas_2', 'tas_tas'], ['e', 'exp1', 'expexp', 'tas'], ['a', 'aa', 'abs_x', 'tas'], ['logtas', 'tas', 'TAS', 'a'], ['power2', 'e', 'np', 'x1']])
        names = fam[:n]
    s = G.draw_field(draw, nt=(1, 3), nl='maybe', nr='maybe', ny=(1, 3), nx=(1, 3), grid=('1d', '2d'), nvars=(n, n), order=pick(draw, [None, 'any']), names=names,
                     dtypes=pick(draw, [('f8',), ('f8', 'f4'), ('f8', 'f4', 'i4'), ('i4',)]))
    ex = []
    for i in range(draw(I(1, 3))):
        t = ast(draw, names, draw(I(0, 4)))
        if not used(t):
            t = ['bin', '+', t, ['var', names[0]]]
        ex.append(t)
    outs = []
    for i in range(len(ex)):
        outs.append(pick(draw, ['es', 'out_%d' % i, 'r%d' % i]) if i == 0 else 'r%d_%d' % (i, i))
    if len(ex) == 1 and chance(draw, .2):
        outs = [names[-1]]  # the result may take the name of an input
    src = pick(draw, ['mem', 'file', 'mem'])
    if n > 1 and any(len(used(t)) > 1 for t in ex) and chance(draw, .4):
        src = pick(draw, ['mems', 'files'])
    return {'f': s, 'ex': ex, 'outs': outs, 'sp': pick(draw, ['', '', ' ']), 'src': src, 'meta': chance(draw, .2), 'nc': chance(draw, .4)}


def datasets(case, kind):
    import ocgis
    s = case['f']
    multi = kind in ('mems', 'files')
    parts = [dict(s, vars=[v]) for v in s['vars']] if multi else [s]
    out = []
    for i, p in enumerate(parts):
        if kind in ('mem', 'mems'):
            out.append(G.build_field(p))
        else:
            path = os.path.abspath('in%d.nc' % i)
            G.write_nc(p, path)
            out.append(ocgis.RequestDataset(path, variable=[v['name'] for v in p['vars']]))
    return out


BASE = 'rtlyx'


def canonical(s, v, arr):
    """Transposed to the order r t l y x of the existing dimensions."""
    order = [v['dims'].index(d) for d in BASE if d in v['dims']]
    return np.transpose(arr, order)


def out_canonical(s, var):
    names = list(var.dimension_names)
    want = [G.DIMN[d] for d in BASE if s[G.SIZEK[d]] is not None]
    check(sorted(names) == sorted(want), 'dimensions of {}: {}', var.name, names)
    return np.transpose(var.get_masked_value(), [names.index(d) for d in want])


def run(case):
    import ocgis
    s = case['f']
    src = datasets(case, case['src'])
    mem = case['src'].startswith('mem')
    snaps = [G.snap_coll(f) for f in src] if mem else None
    exprs = []
    for o, t in zip(case['outs'], case['ex']):
        e = '{}{}={}{}'.format(o, case['sp'], case['sp'], render(t, case['sp']))
        exprs.append({'func': e, 'meta_attrs': {'note': 'n_' + o}} if case['meta'] else e)
    calc = exprs[0] if len(exprs) == 1 and not case['meta'] and case['nc'] else exprs
    ops = ocgis.OcgOperations(dataset=src if len(src) > 1 else src[0], calc=calc)
    out = ops.execute().get_element()
    data = {v['name']: canonical(s, v, G.varray(s, v)) for v in s['vars']}
    defined = False
    for o, t in zip(case['outs'], case['ex']):
        check(o in out, 'result {} of {} missing: {}', o, exprs, list(out.keys()))
        got = out_canonical(s, out[o])
        gm = np.ma.getmaskarray(got)
        us = sorted(used(t))
        lo = any(v['dtype'] == 'f4' for v in s['vars'] if v['name'] in us)
        for idx in np.ndindex(*got.shape):
            where = 'element {} of {}'.format(idx, exprs[case['outs'].index(o)])
            if any(np.ma.getmaskarray(data[u])[idx] for u in us):
                check(gm[idx], '{}: an input is masked but the result is {}', where, got.data[idx])
                continue
            try:
                want = ev(t, {u: float(data[u].data[idx]) for u in us})
            except Undef:
                check(gm[idx] or not np.isfinite(got.data[idx]), '{}: undefined but {}', where, got.data[idx])
                continue
            except Wild:
                continue
            defined = True
            check(not gm[idx], '{}: masked, expected {}', where, want)
            check(abs(float(got.data[idx]) - want) <= (2e-3 if lo else 1e-9) * max(1., abs(want), magnitude(t, {u: float(data[u].data[idx]) for u in us})),
                  '{}: {} expected {} from {}', where, got.data[idx], want, {u: float(data[u].data[idx]) for u in us})
        if case['meta']:
            check(out[o].attrs.get('note') == 'n_' + o, 'attributes of {}: {}', o, dict(out[o].attrs))
    left = [v['name'] for v in s['vars'] if v['name'] in out.keys() and v['name'] not in case['outs']]
    check(not left, 'input variables left in the result: {}', left)
    check(sorted(v.name for v in out.data_variables) == sorted(case['outs']), 'data variables {}', [v.name for v in out.data_variables])
    if mem:
        for f, sn in zip(src, snaps):
            d = G.diff_coll(sn, G.snap_coll(f))
            check(d is None, 'source field changed: {}', d)
    return [case['src'], len(case['ex'])] if defined else None


def magnitude(t, env):
    """Largest intermediate value (scale of rounding errors)."""
    try:
        m = abs(ev(t, env))
    except (Undef, Wild):
        return 1.
    for x in t[1:]:
        if isinstance(x, list):
            m = max(m, magnitude(x, env))
    return m


# ------------------------------------------------------------------ rejected expressions
def gen_bad(draw):
    names = ['tas', 'tasmax']
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 2), nx=(1, 2), grid=('1d',), nvars=(2, 2), names=names, dtypes=('f8',))
    t = render(ast(draw, names, draw(I(0, 2))), '')
    bad = pick(draw, ['foo', 'sin(tas)', 'sqrt(tas)', 'tasm', 'ta', 'exp2', 'logx', 'self', 'open', '__import__', 'np', 'os', 'absx(tas)', 'exptas', 'np.sin(tas)', 'tas.data',
                      'tas.__class__', 'boom()', 'x', 'tas_', '_exec_tas', 'TAS'])
    form = pick(draw, ['{1}+({0})', '({0})*{1}', '{1}', 'exp({1})', '({0})-2*{1}/3', 'power({1},2)'])
    e = form.format(t, bad)
    return {'f': s, 'expr': e if chance(draw, .15) and '=' not in e else 'es=' + e, 'src': pick(draw, ['mem', 'ef'])}


def run_bad(case):
    import ocgis
    from ocgis.exc import DefinitionValidationError
    from ocgis.calc.eval_function import EvalFunction
    f = G.build_field(case['f'])
    snap = G.snap_coll(f)
    try:
        if case['src'] == 'mem':
            out = ocgis.OcgOperations(dataset=f, calc=[case['expr']] if '=' in case['expr'] and case['expr'].count('(') % 2 else case['expr']).execute()
        else:
            out = EvalFunction(expr=case['expr'], field=f).execute()
    except (ValueError, DefinitionValidationError):
        d = G.diff_coll(snap, G.snap_coll(f))
        check(d is None, 'source field changed: {}', d)
        return 'noequal' if '=' not in case['expr'] else case['src']
    raise Violation('expression {!r} was evaluated'.format(case['expr']))


# ------------------------------------------------------------------ multivariate functions
def gen_multi(draw):
    f = pick(draw, ['divide', 'heat_index'])
    names = pick(draw, [['tas', 'rhs'], ['rhs', 'tas'], ['arr1', 'arr2'], ['arr2', 'arr1'], ['TAS', 'Rhs'], ['aa', 'a'], ['tas', 'tasmax']])
    s = G.draw_field(draw, nt=(1, 5), nl='maybe', nr='maybe', ny=(1, 3), nx=(1, 3), grid=('1d', '2d'), nvars=(2, 2), order=pick(draw, [None, 'any']), names=names,
                     dtypes=pick(draw, [('f8',), ('f8', 'f4')]), t={'span': 30})
    swap = chance(draw)
    a, b = (1, 0) if swap else (0, 1)
    kw = {'divide': ['arr1', 'arr2'], 'heat_index': ['tas', 'rhs']}[f]
    if f == 'heat_index':
        s['vars'][a]['units'] = pick(draw, ['fahrenheit', 'degF'])
        s['vars'][b]['units'] = pick(draw, ['percent', '%'])
        s['vars'][a]['units'] = 'fahrenheit'
        s['vars'][b]['units'] = 'percent'
    return {'f': s, 'func': f, 'kw': {kw[0]: names[a], kw[1]: names[b]}, 'src': pick(draw, ['mem', 'file', 'mems', 'files']), 'g': pick(draw, [None, None, ['month'], ['year', 'month'], 'all', ['day']]),
            'order': chance(draw)}


def run_multi(case):
    import ocgis
    s, f = case['f'], case['func']
    keys = ['arr1', 'arr2'] if f == 'divide' else ['tas', 'rhs']
    byname = {v['name']: v for v in s['vars']}
    raw = {}
    for i, k in enumerate(keys):
        v = byname[case['kw'][k]]
        a = G.varray(s, v)
        r = np.random.RandomState(v['seed'] + 11)
        if f == 'heat_index':
            val = r.randint(150, 240, size=a.shape) * .5 if k == 'tas' else r.randint(50, 200, size=a.shape) * .5
        else:
            val = r.randint(-3, 8, size=a.shape) * .5
        raw[v['name']] = np.ma.array(val.astype(a.dtype), mask=np.ma.getmaskarray(a))
    old = G.varray
    G.varray = lambda s_, v_: raw[v_['name']]
    try:
        src = datasets(case, case['src'])
    finally:
        G.varray = old
    if case['src'].startswith('mem'):
        for fld in src:
            for n in raw:
                if n in fld.keys():
                    fld[n].set_value(np.array(raw[n].data))
                    fld[n].set_mask(np.ma.getmaskarray(raw[n]).copy())
        snaps = [G.snap_coll(x) for x in src]
    if case['order'] and len(src) > 1:
        src = src[::-1]
        if case['src'] == 'mems':
            snaps = snaps[::-1]
    kw = {} if case['g'] is None else {'calc_grouping': case['g']}
    out = ocgis.OcgOperations(dataset=src if len(src) > 1 else src[0], calc=[{'func': f, 'name': 'my', 'kwds': dict(case['kw'])}], **kw).execute().get_element()
    got = out_canonical(s, out['my'])
    A, B = [canonical(s, byname[case['kw'][k]], raw[case['kw'][k]]) for k in keys]
    full = np.ma.masked_all(A.shape, dtype=float)
    for idx in np.ndindex(*A.shape):
        if np.ma.getmaskarray(A)[idx] or np.ma.getmaskarray(B)[idx]:
            continue
        a, b = float(A.data[idx]), float(B.data[idx])
        if f == 'divide':
            if b != 0:
                full[idx] = a / b
        elif a >= 80 and b >= 40:
            full[idx] = (-42.379 + 2.04901523 * a + 10.14333127 * b - .22475541 * a * b - 6.83783e-3 * a ** 2 - 5.481717e-2 * b ** 2 + 1.22874e-3 * a ** 2 * b
                         + 8.5282e-4 * a * b ** 2 - 1.99e-6 * a ** 2 * b ** 2)
    want = full
    if case['g'] is not None:
        t = s['time']
        groups = C.group([C.add_seconds(t['calendar'], (2000, 1, 1, 0, 0, 0), int(round(x * 86400))) for x in G.time_vals(t)], case['g'])
        ax = 1 if s['nr'] is not None else 0
        F = np.moveaxis(full, ax, 0)
        want = np.moveaxis(np.ma.array([F[m].mean(axis=0).filled(0) for m in groups], mask=[np.ma.getmaskarray(F[m]).all(axis=0) for m in groups]), 0, ax)
    lo = any(v['dtype'] == 'f4' for v in s['vars'])
    arr_eq(got, want, '{} of {}'.format(f, case['kw']), rtol=1e-4 if lo else 1e-9, atol=2e-3 if lo else 1e-8)
    if case['src'].startswith('mem'):
        for x, sn in zip(src, snaps):
            d = G.diff_coll(sn, G.snap_coll(x))
            check(d is None, 'source field changed: {}', d)
    return [f, case['src'], 'grouped' if case['g'] else 'plain'] if want.count() else None


TARGETS = [
    Target('expr', gen, run, quick=600, thorough=16000, rule='expressions over overlapping names, one or several datasets'),
    Target('reject', gen_bad, run_bad, quick=150, thorough=3000, rule='expressions with unknown names or functions raise'),
    Target('multivariate', gen_multi, run_multi, quick=300, thorough=8000, rule='divide and heat index with renamed inputs and grouping'),
]
