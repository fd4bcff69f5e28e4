"""Shared vocabulary of the checks."""
import hashlib, json
import numpy as np


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case lies outside the stated domain (counted, never judged)."""


class Target(object):
    """
    One generated-input search.

    gen(draw) -> JSON-able case; run(case) -> label (falsy: trivial case) or raises Violation.
    quick/thorough: number of cases generated in total over all workers.
    """

    def __init__(self, name, gen, run, quick=200, thorough=4000, rule='', known=None, serial=False):
        self.name, self.gen, self.run = name, gen, run
        self.n = {'quick': 3 * quick, 'thorough': thorough}
        self.rule = rule
        self.known = known  # known(case) -> True if the case lies in the class of a listed finding
        self.serial = serial


def canon(case):
    return json.dumps(case, sort_keys=True, default=_js)


def _js(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same_mask(a, b):
    return np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))


def arr_eq(got, want, what, rtol=0, atol=0, mask=True):
    """Compare (masked) arrays: shape, mask, and unmasked values."""
    got, want = np.ma.asarray(got), np.ma.asarray(want)
    if got.shape != want.shape:
        raise Violation('{}: shape {} expected {}'.format(what, got.shape, want.shape))
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    if mask and not np.array_equal(gm, wm):
        raise Violation('{}: mask {} expected {}'.format(what, gm.astype(int).tolist(), wm.astype(int).tolist()))
    sel = ~(wm | gm)
    g, w = got.data[sel], want.data[sel]
    if g.dtype == object or w.dtype == object or g.dtype.kind in 'USM' or w.dtype.kind in 'USM':
        ok = all(a == b for a, b in zip(g.tolist(), w.tolist()))
    elif rtol or atol:
        ok = np.allclose(g.astype(float), w.astype(float), rtol=rtol, atol=atol, equal_nan=True)
    else:
        ok = np.array_equal(g, w) or (g.dtype.kind == 'f' and np.allclose(g, w, rtol=0, atol=0, equal_nan=True))
    if not ok:
        raise Violation('{}: got {} expected {}'.format(what, got.tolist(), want.tolist()))
