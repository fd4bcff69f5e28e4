"""Run by every rank of the simulated world of P20 (and by the check itself for one process)."""
import os
import numpy as np


def field_kwargs(case, here, out):
    import ocgis
    from shapely.wkt import loads as wkt
    from shapely.affinity import translate
    kw = {'output_format': case['fmt'], 'dir_output': os.path.join(here, out), 'prefix': 'o'}
    if case['sels']:
        # The coordinates of the files refer to a sphere. Elements touching a slanted edge, or any edge if the coordinate systems differ, depend on rounding.
        crs = ocgis.crs.WGS84() if case['shift'] else ocgis.crs.Spherical()
        geoms = [wkt(w) for w in case['sels']]
        kw['geom'] = [{'geom': translate(g, .137, .211) if case['shift'] or not straight(g) else g, 'properties': {'UGID': i + 1}, 'crs': crs} for i, g in enumerate(geoms)]
        kw.update(aggregate=case['agg'], agg_selection=case['agg_sel'], spatial_operation='clip' if case['clip'] else 'intersects')
    if case['slice'] is not None:
        kw['slice'] = [None if s is None else list(s) for s in case['slice']]
    if case['time'] is not None:
        kw['time_region'] = {'month': list(range(case['time'], case['time'] + 6))}
    if case['calc'] == 'expr':
        kw['calc'] = 'z={}*2+1'.format(case['field']['vars'][0]['name'])
    elif case['calc'] == 'duration':
        kw['calc'] = [{'func': 'threshold', 'name': 'th', 'kwds': {'threshold': 3, 'operation': 'gt'}}]
        kw['calc_grouping'] = ['month']
    elif case['calc']:
        kw['calc'] = [{'func': case['calc'], 'name': 'c'}]
        kw['calc_grouping'] = ['month']
    if case['crs'] is not None:
        kw['output_crs'] = ocgis.crs.Spherical() if case['crs'] == 'spherical' else ocgis.crs.CRS(epsg=32630)
    if case['optimized']:
        kw['optimized_bbox_subset'] = bool(case['sels'])
    return kw


def straight(g):
    for p in getattr(g, 'geoms', [g]):
        for r in [p.exterior] + list(p.interiors):
            q = np.diff(np.array(r.coords), axis=0)
            if (q != 0).all(axis=1).any():
                return False
    return True


def execute(case, here, out):
    import ocgis
    kw = field_kwargs(case, here, out)
    rd = ocgis.RequestDataset(os.path.join(here, 'in.nc'), [v['name'] for v in case['field']['vars']])
    return ocgis.OcgOperations(dataset=rd, **kw).execute()


def outcome(case, here, out):
    try:
        execute(case, here, out)
    except Exception as e:
        return 'error', type(e).__name__, str(e)[:300]
    return 'ok', None, None


def request(case, here):
    from ocgis import vm
    os.chdir(here)
    execute(case, here, 'many')
    ret = {'comm': str(vm.current_comm_name) if vm.current_comm_name is not None else None, 'subs': sorted(str(k) for k in vm._subcomms)}
    vm.finalize()
    return ret


def part(v):
    return {'bounds': [list(d.bounds_local) for d in v.dimensions], 'global': [list(d.bounds_global) for d in v.dimensions], 'value': np.array(v.get_value()), 'mask': np.ma.getmaskarray(v.get_masked_value())}


def data(case):
    import ocgis
    from ocgis import vm, Variable, Dimension, VariableCollection
    from ocgis.vmachine.mpi import OcgDist, variable_scatter, variable_gather
    names = ['t', 'y', 'x']
    src = {k: None if case['src'] is None else ('auto' if case['src'] == 'auto' else np.arange(n) * 2) for k, n in zip(names, case['shape'])}
    dist = OcgDist()
    for k, n in zip(names, case['shape']):
        dist.create_dimension(k, n, dist=k in case['dist'], src_idx=src[k])
    dist.update_dimension_bounds(min_elements=case['min'])
    if vm.rank == 0:
        val = values(case)
        var = Variable('v', value=val.data, mask=val.mask if case['mask'] is not None else None, dimensions=[Dimension(k, n, src_idx=src[k]) for k, n in zip(names, case['shape'])],
                       dtype=str if case['dtype'] == 'S' else None)
        x = Variable('x', value=np.arange(case['shape'][2]), dimensions=[var.dimensions[2]])
        if case['second']:
            coll = VariableCollection()
            coll.add_variable(var)
            coll.add_variable(x)
            var = coll['v']
    else:
        var = None
    v = variable_scatter(var, dist)
    ret = {'local': None, 'gathered': None, 'slice': None, 'ids': [], 'dist': [k for k in names if dist.get_dimension(k).dist or len(case['dist']) == 0]}
    ret['dist'] = ret['dist'][0] if ret['dist'] else 'x'
    with vm.scoped_by_emptyable('live', v):
        if not vm.is_null:
            ret['local'] = part(v)
            # The data of a single rank are returned as they are.
            g = variable_gather(v) if vm.size > 1 else v
            if vm.rank == 0:
                ret['gathered'] = {'value': np.array(g.get_value()), 'mask': np.ma.getmaskarray(g.get_masked_value()), 'second': None}
            if case['second']:
                sx = v.parent['x']
                if sx.dimensions[0].dist:
                    gx = variable_gather(sx) if vm.size > 1 else sx
                    if vm.rank == 0:
                        ret['gathered']['second'] = gx.get_value().tolist()
            if case['slice'] is not None:
                sub = v.get_distributed_slice([slice(None) if s is None else slice(*s) for s in case['slice']])
                if not sub.is_empty:
                    ret['slice'] = part(sub)
            ids = Variable('w', value=np.zeros(len(v.dimensions_dict[ret['dist']])), dimensions=v.dimensions_dict[ret['dist']])
            gid = np.arange(ids.size)
            import ocgis
            from shapely.geometry import Point
            geom = ocgis.GeometryVariable(name='geom', value=[Point(i, 0) for i in range(ids.size)], dimensions=v.dimensions_dict[ret['dist']])
            ret['ids'] = geom.create_ugid_global('GID').get_value().tolist()
    vm.finalize()
    return ret


def values(case):
    n = int(np.prod(case['shape']))
    if case['dtype'] == 'S':
        v = np.array(['s' * (1 + i % 4) + str(i) for i in range(n)], dtype=object)
    else:
        v = (np.arange(n) * 2 + 1).astype(case['dtype'])
    return np.ma.array(v.reshape(case['shape']), mask=np.array(case['mask']).reshape(case['shape']) if case['mask'] is not None else False)
