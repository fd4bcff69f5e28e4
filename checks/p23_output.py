"""Histories of requests writing to one directory: formats, prefixes, auxiliary files, permission to overwrite, files already there, requests
reading the output of earlier ones, and faults (an exception or an interrupt raised at a generated call inside ocgis, or a selection that
misses the data). Oracle: a model of the directory (path -> bytes): the same request in an empty directory says which files it writes and
what they hold; refused requests leave every byte; failed requests leave nothing of their own and change nothing that existed; repeated
requests succeed. Files are compared byte by byte (netCDF through netCDF4). Non-trivial: a refusal, a fault that fired or an overwrite."""
import os
import shutil
import sys
import numpy as np
from core import Target, Violation, Skip, check
import gens as G
from gens import I, pick, chance
from checks.p11_spatial_subset import wkt

FILES = ['a.csv', 'a.nc', 'a.shp', 'a_ugid.shp', 'a/notes.txt', 'a/a.csv', 'shp/x.txt', 'shp/a_gid.shp', 'b.json', 'keep.txt',
         'a_metadata.txt', 'a_did.csv', 'b/b.nc', 'shp/a_ugid.shp']


class Fault(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


def gen(draw):
    s = G.draw_field(draw, nt=(1, 2), ny=(1, 2), nx=(1, 3), nvars=(1, 2), names=['foo', 'bar'], x={'lo': -10, 'hi': 10, 'maxstep': 4}, y={'lo': -10, 'hi': 10, 'maxstep': 4},
                     t={'calendars': ('standard',), 'units': ('days since 2000-01-01',)})
    s['crs'] = 'wgs84'
    for v in s['vars']:
        v['units'] = 'm'
        v['mask'] = None
    sels = [draw_hit(draw, s) for _ in range(2)]
    steps = []
    for _ in range(draw(I(1, 4))):
        fmt = pick(draw, ['csv', 'csv-shp', 'shp', 'geojson', 'nc', 'nc', 'csv'])
        n = pick(draw, [0, 1, 1, 2])
        agg = n > 0 and (fmt == 'nc' and n > 1 or chance(draw, .3))
        if agg and fmt == 'shp' and not s['bounds']:
            # Shapefiles do not hold points and multi-points.
            n = 1
        fault = None
        if chance(draw, .4):
            fault = {'at': draw(I(0, 999)), 'zone': pick(draw, ['any', 'write', 'write', 'late']), 'kind': pick(draw, ['error', 'interrupt'])}
        steps.append({'fmt': fmt, 'prefix': pick(draw, ['a', 'a', 'b', 'a_ugid', 'a.b']), 'aux': chance(draw, .5), 'over': chance(draw, .4), 'n': n, 'agg': agg, 'fault': fault,
                      'log': chance(draw, .15), 'input': pick(draw, ['in', 'in', 'in', 'out']), 'miss': chance(draw, .07), 'obj': chance(draw, .15), 'calc': chance(draw, .15)})
    return {'field': s, 'sels': sels, 'ids': [draw(I(1, 3)), draw(I(4, 9))], 'steps': steps, 'files': sorted({pick(draw, FILES) for _ in range(draw(I(0, 4)))}),
            'empty_dir': pick(draw, [None, None, None, 'a', 'b', 'shp'])}


def draw_hit(draw, s):
    if chance(draw, .2):
        return G.draw_sel(draw, s, ('poly',), pad=1)
    X, Y = G.centres(s)
    k, h = draw(I(0, X.size - 1)), pick(draw, [.25, 3, 50])
    x, y = float(X.flat[k]), float(Y.flat[k])
    return 'POLYGON (({0} {1}, {2} {1}, {2} {3}, {0} {3}, {0} {1}))'.format(x - h, y - h, x + h, y + h)


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d)] = None
        for n in files:
            with open(os.path.join(base, n), 'rb') as f:
                out[os.path.relpath(os.path.join(base, n), d)] = f.read()
    return out


def ncdump(path):
    import netCDF4
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        out = {'dims': {k: (len(d), d.isunlimited()) for k, d in ds.dimensions.items()}, 'attrs': {k: str(ds.getncattr(k)) for k in ds.ncattrs() if k != 'history'}}
        for k, v in ds.variables.items():
            out['var ' + k] = (v.dimensions, str(v.dtype), {a: str(v.getncattr(a)) for a in v.ncattrs()}, np.asarray(v[...]).tolist())
    return out


def same_file(p, q, subs, what):
    """Same content of files written by the same request in different directories."""
    ext = os.path.splitext(p)[1]
    if ext == '.nc':
        a, b = ncdump(p), ncdump(q)
        check(repr(a) == repr(b), '{}: content {} expected {}', what, a, b)
        return
    a, b = open(p, 'rb').read(), open(q, 'rb').read()
    if ext == '.log':
        return
    if ext == '.dbf':
        a, b = a[4:], b[4:]
    if ext in ('.txt', '.csv'):
        for x, y in subs:
            b = b.replace(x.encode(), y.encode())
    if ext == '.txt':
        check((len(a) > 0) == (len(b) > 0), '{}: {} bytes expected {}', what, len(a), len(b))
        return
    check(a == b, '{}: content {} expected {}', what, a[:2000], b[:2000])


class Tracer(object):
    """Counts the calls inside ocgis and raises at one of them."""

    def __init__(self, at=None, exc=None):
        import ocgis
        self.root = os.path.dirname(ocgis.__file__) + os.sep
        self.n, self.at, self.exc, self.fired, self.write, self.w0 = 0, at, exc, None, [], None
        self.cache, self.writing = {}, False

    def __call__(self, frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        if fn not in self.cache:
            self.cache[fn] = (fn.startswith(self.root), fn[len(self.root):].split(os.sep)[0] in ('conv', 'driver'))
        a, w = self.cache[fn]
        # Destructors cannot report an exception.
        if not a or code.co_name == '__del__':
            return None
        self.n += 1
        if self.at is None:
            if w:
                self.write.append(self.n)
            if self.w0 is None and w and code.co_name == 'write':
                self.w0 = self.n
        elif self.n == self.at:
            self.fired = '%s:%s' % (fn[len(self.root):], code.co_name)
            f = frame
            while f is not None:
                self.writing = self.writing or f.f_code.co_filename.startswith(self.root + 'conv' + os.sep)
                f = f.f_back
            sys.settrace(None)
            raise self.exc('injected in ' + self.fired)
        return None


def execute(step, case, src, out):
    import ocgis
    kw = {}
    if step['n']:
        ids = case['ids']
        kw['geom'] = [{'geom': wkt(w), 'properties': {'UGID': ids[i]}, 'crs': G.crs_obj('wgs84')} for i, w in enumerate(case['sels'][:step['n']])]
        if step['miss']:
            kw['geom'][-1]['geom'] = wkt('POLYGON ((60 60, 61 60, 61 61, 60 61, 60 60))')
    if step['agg']:
        kw['aggregate'] = True
    if step['calc']:
        kw['calc'] = [{'func': 'mean', 'name': 'the_mean'}]
        kw['calc_grouping'] = 'all'
    ocgis.env.OVERWRITE = step['over']
    ocgis.env.ENABLE_FILE_LOGGING = step['log']
    rd = ocgis.RequestDataset(src, variable=[v['name'] for v in case['field']['vars']], field_name='fld')
    ops = ocgis.OcgOperations(dataset=rd.get() if step['obj'] else rd, output_format=step['fmt'], dir_output=out, prefix=step['prefix'], add_auxiliary_files=step['aux'], **kw)
    return ops


def traced(ops, tracer):
    sys.settrace(tracer)
    try:
        return ops.execute(), None
    except BaseException as e:
        sys.settrace(None)
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        e.__traceback__ = None
        return None, e
    finally:
        sys.settrace(None)


def run(case):
    import ocgis
    import fiona
    import gc
    import warnings
    warnings.simplefilter('ignore')
    top = os.getcwd()
    out = os.path.join(top, 'out')
    os.makedirs(out)
    src = os.path.join(top, 'in.nc')
    G.build_field(case['field'], name='fld').write(src)
    for fn in case['files']:
        p = os.path.join(out, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if fn.endswith('.shp'):
            with fiona.open(p, 'w', driver='ESRI Shapefile', schema={'geometry': 'Point', 'properties': {'USER': 'int'}}) as f:
                f.write({'geometry': {'type': 'Point', 'coordinates': (1., 2.)}, 'properties': {'USER': 5}})
        else:
            with open(p, 'wb') as f:
                f.write(b'user file ' + fn.encode())
    if case['empty_dir'] is not None:
        os.makedirs(os.path.join(out, case['empty_dir']), exist_ok=True)
    labels = set()
    saved = (ocgis.env.OVERWRITE, ocgis.env.ENABLE_FILE_LOGGING)
    try:
        for i, step in enumerate(case['steps']):
            labels |= one(case, step, i, top, out, src)
            gc.collect()
    finally:
        ocgis.env.OVERWRITE, ocgis.env.ENABLE_FILE_LOGGING = saved
    return '+'.join(sorted(labels))


def one(case, step, i, top, out, src):
    import ocgis
    what = 'step %d (%s)' % (i, step)
    labels = set()
    nc = os.path.join(out, step['prefix'] + '.nc') if not step['aux'] else os.path.join(out, step['prefix'], step['prefix'] + '.nc')
    uses_out = step['input'] == 'out' and step['fmt'] == 'nc' and os.path.exists(nc)
    if uses_out:
        try:
            d = ncdump(nc)
            uses_out = all('var ' + v['name'] in d for v in case['field']['vars']) and 'ocgis_geom_union' not in d['dims']
        except OSError:
            uses_out = False
    # The request alone in an empty directory.
    ref = os.path.join(top, 'ref%d' % i)
    os.makedirs(ref)
    rsrc = src
    if uses_out:
        rsrc = os.path.join(top, 'prev%d.nc' % i)
        shutil.copy(nc, rsrc)
    count = Tracer()
    rret, rerr = traced(execute(dict(step, over=False), case, rsrc, ref), count)
    before = tree(out)
    mine = nc if uses_out else src
    subs = [(ref, out), (rsrc, mine)]
    if rerr is not None:
        # The request cannot be answered.
        check(step['miss'] or isinstance(rerr, ocgis.exc.ExtentError), '{}: {!r} in an empty directory', what, rerr)
        check(tree(ref) == {}, '{}: the failed request left {} in an empty directory ({!r})', what, sorted(tree(ref)), rerr)
        ret, err = traced(execute(step, case, mine, out), Tracer(-1))
        check(err is not None, '{}: fails in an empty directory with {!r} but returns {}', what, rerr, ret)
        after = tree(out)
        p = step['prefix']
        mine = {p + '.' + {'geojson': 'json', 'csv-shp': 'csv'}.get(step['fmt'], step['fmt'])}
        mine |= {q + e for q in (p, p + '_ugid', 'shp/' + p + '_gid', 'shp/' + p + '_ugid') for e in ('.shp', '.shx', '.dbf', '.prj', '.cpg') if q != p or step['fmt'] == 'shp'}
        allowed(step, before, after, mine, what)
        return {'no data'}
    rtree = tree(ref)
    files = {k for k, v in rtree.items() if v is not None}
    check(os.path.exists(rret), '{}: the reported path {} does not exist', what, rret)
    # Does the request need permission?
    if step['aux']:
        conflict = step['prefix'] in before
        check(all(f.split(os.sep)[0] == step['prefix'] for f in files), '{}: files {} are outside of the directory', what, sorted(files))
    else:
        conflict = any(f in before for f in files)
    refuse = conflict and not step['over'] or uses_out
    if step['fault'] is not None:
        z = {'any': list(range(1, count.n + 1)), 'write': count.write, 'late': [x for x in range(count.w0 or 1, count.n + 1)]}[step['fault']['zone']]
        at = z[step['fault']['at'] * len(z) // 1000]
        tr = Tracer(at, Fault if step['fault']['kind'] == 'error' else Stop)
        ret, err = traced(execute(step, case, mine, out), tr)
        after = tree(out)
        if tr.fired:
            what = what + ' failing in ' + tr.fired
            labels.add('fault')
        if err is not None:
            check(tr.fired or refuse, '{}: {!r}', what, err)
            if refuse:
                check(after == before, '{}: refused request changed {}', what, diff(before, after))
            elif not tr.writing and files <= set(after) and after != before:
                # Failed after the output was complete.
                complete(step, before, after, rtree, files, out, ref, subs, what)
                return labels
            else:
                allowed(step, before, after, files, what)
            # The request may be repeated.
            before = after
            if step['aux']:
                conflict = step['prefix'] in before
            else:
                conflict = any(f in before for f in files)
            uses_out = uses_out and os.path.exists(mine)
            refuse = conflict and not step['over'] or uses_out
            ret, err = traced(execute(step, case, mine, out), Tracer(-1))
            after = tree(out)
    else:
        ret, err = traced(execute(step, case, mine, out), Tracer(-1))
        after = tree(out)
    if refuse:
        check(err is not None, '{}: output exists but the request returned {}', what, ret)
        check(isinstance(err, (IOError, OSError)), '{}: output exists, raised {!r}', what, err)
        check(after == before, '{}: refused request changed {}', what, diff(before, after))
        labels.add('input' if uses_out else 'refused')
        return labels
    check(err is None, '{}: raised {!r}; succeeds in an empty directory', what, err)
    check(os.path.exists(ret) and os.path.relpath(ret, out) == os.path.relpath(rret, ref), '{}: reported path {} expected {}', what, ret, os.path.relpath(rret, ref))
    complete(step, before, after, rtree, files, out, ref, subs, what)
    if conflict:
        labels.add('overwritten')
    return labels


def complete(step, before, after, rtree, files, out, ref, subs, what):
    want = dict(before)
    if step['aux']:
        want = {k: v for k, v in want.items() if k != step['prefix'] and not k.startswith(step['prefix'] + os.sep)}
    check(set(after) == set(want) | set(rtree), '{}: files are {} expected {}', what, sorted(after), sorted(set(want) | set(rtree)))
    for k in want:
        if k not in rtree:
            check(after[k] == want[k], '{}: {} was changed', what, k)
    for k in files:
        same_file(os.path.join(out, k), os.path.join(ref, k), subs, what + ': ' + k)


def diff(a, b):
    return {k: ('lost' if k not in b else 'new' if k not in a else 'changed') for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}


def allowed(step, before, after, files, what):
    """A failed request leaves nothing of its own and changes nothing; output it may overwrite is as it was or absent."""
    pre = step['prefix'] + os.sep
    for k, d in diff(before, after).items():
        if d == 'lost' and step['over'] and (step['aux'] and (k == step['prefix'] or k.startswith(pre)) or not step['aux'] and k in files):
            continue
        raise Violation('{}: failed request and {} is {} ({} before, {} after)'.format(what, k, d, sorted(before), sorted(after)))


# ---------------------------------------------------------------- directories named by the prefix
def gen_prefix(draw):
    parts = [pick(draw, ['', '.', '..', 'a', 'a', 'b', 'other']) for _ in range(draw(I(1, 3)))]
    return {'prefix': '/'.join(parts), 'sep': pick(draw, ['', '', '/']), 'over': chance(draw, .7), 'fmt': pick(draw, ['csv', 'nc', 'shp']), 'aux': chance(draw, .8),
            'assign': chance(draw, .3), 'dirs': sorted({pick(draw, ['a', 'b', 'other']) for _ in range(draw(I(0, 2)))})}


def run_prefix(case):
    import ocgis
    import warnings
    warnings.simplefilter('ignore')
    top = os.path.join(os.getcwd(), 'k1')
    # Wrong names stay below the directory of the case.
    out = os.path.join(top, 'k2', 'k3', 'k4', 'out')
    os.makedirs(out)
    prefix = case['prefix'] + case['sep']
    if prefix.startswith('/'):
        prefix = '.' + prefix
    for d in [out] + [os.path.join(out, x) for x in case['dirs']] + [os.path.dirname(out), os.path.join(os.path.dirname(out), 'other')]:
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'user.txt'), 'w') as f:
            f.write(d)
    before = tree(top)
    fld = ocgis.Field(grid=ocgis.Grid(ocgis.Variable('x', [1., 2.], 'x'), ocgis.Variable('y', [1., 2.], 'y')), variables=ocgis.Variable('foo', np.ones((2, 2)), ['y', 'x']), is_data='foo',
                      crs=ocgis.crs.WGS84())
    saved = ocgis.env.OVERWRITE
    ret = err = None
    try:
        ocgis.env.OVERWRITE = case['over']
        ops = ocgis.OcgOperations(dataset=fld, output_format=case['fmt'], dir_output=out, add_auxiliary_files=case['aux'], **({} if case['assign'] else {'prefix': prefix}))
        if case['assign']:
            ops.prefix = prefix
        elif prefix == '':
            prefix = 'ocgis_output'
        ret = ops.execute()
    except Exception as e:
        err = e
    finally:
        ocgis.env.OVERWRITE = saved
    after = tree(top)
    d = diff(before, after)
    target = os.path.relpath(os.path.normpath(os.path.join(out, prefix)), top)
    own = os.path.relpath(out, top)
    if err is not None:
        inside = target.startswith(own + os.sep)
        check(all(what == 'lost' and case['over'] and case['aux'] and inside and (k == target or k.startswith(target + os.sep)) for k, what in d.items()),
              'prefix {!r}: raised {!r} but files changed: {}', prefix, err, d)
        return 'refused'
    check(os.path.exists(ret), 'prefix {!r}: reported path {} does not exist', prefix, ret)
    for k, what in d.items():
        check(what == 'new' or case['over'] and case['aux'] and (k == target or k.startswith(target + os.sep)), 'prefix {!r}: {} is {}', prefix, k, what)
    check(not (own == target or own.startswith(target + os.sep)) or not case['aux'], 'prefix {!r} names the output directory itself or one that contains it', prefix)
    return 'written' if d else ''


TARGETS = [Target('histories', gen, run, 300, 9000, 'a refusal, a fault that fired or an overwrite', None),
           Target('prefixes', gen_prefix, run_prefix, 60, 1500, 'the request is refused or writes', None)]
