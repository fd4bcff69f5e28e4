"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Exploration by generated inputs against an explicit oracle: no violation was found on the cases run (counts, '
        'labels and samples in the evidence file); absence is not established. Assumes numpy, shapely, netCDF4/cftime, pyproj/'
        'GDAL and fiona as reference libraries, and the bounds on sizes stated in DESIGN.md.')
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    m = glob.glob(os.path.join(H, 'checks', p.lower() + '_*.py'))
    if m:
        src = open(m[0]).read()
        tech = 'property-based testing (Hypothesis generators, shrinking)'
        for k in src.splitlines():
            if k.startswith('TECHNIQUE ='):
                tech = eval(k.split('=', 1)[1])
        checks.append({'property': p, 'quick_cmd': 'bash run.sh {} quick'.format(p), 'thorough_cmd': 'bash run.sh {} thorough'.format(p),
                       'evidence_file': 'evidence/{}.json'.format(p), 'technique': tech, 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': p, 'reason': 'no check built for it yet in this framework'})
json.dump({'version': 1, 'setup_cmd': 'bash run.sh setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed. Known findings and fixed defects: known_findings.json.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')
