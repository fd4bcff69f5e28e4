"""Make Hypothesis importable offline: from /verif/.deps, a scratch extraction of the offline wheel, or the tools venv."""
import glob, os, sys, tempfile, zipfile

WHEELS = '/opt/veriftools/wheels'
VENV_SP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def wheels():
    tag = 'cp{}{}'.format(*sys.version_info[:2])
    w = sorted(glob.glob(os.path.join(WHEELS, 'hypothesis-*-{0}-{0}-*.whl'.format(tag))))
    s = sorted(glob.glob(os.path.join(WHEELS, 'sortedcontainers-*.whl')))
    return (w[-1:] + s[-1:]) if w and s else []


def extract(dst):
    ws = wheels()
    if not ws:
        return None
    os.makedirs(dst, exist_ok=True)
    for w in ws:
        with zipfile.ZipFile(w) as z:
            z.extractall(dst)
    return dst


def ensure(here, scratch):
    p = os.path.join(here, '.deps')
    if not os.path.isdir(os.path.join(p, 'hypothesis')):
        p = os.path.join(scratch, 'deps')
        if not os.path.isdir(os.path.join(p, 'hypothesis')):
            if extract(p) is None:
                # Last resort: only these packages from the tools venv (never its numpy etc.).
                os.makedirs(p, exist_ok=True)
                for n in ('hypothesis', 'sortedcontainers', '_hypothesis_pytestplugin.py', '_hypothesis_globals.py'):
                    src = os.path.join(VENV_SP, n)
                    if os.path.exists(src):
                        os.symlink(src, os.path.join(p, n))
    sys.path.append(p)
    import hypothesis  # noqa
    return p
