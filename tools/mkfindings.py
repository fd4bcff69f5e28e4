"""Adds 'fixed' entries from the fix: commits of /repo that are not yet listed (run by hand; never by a check)."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'known_findings.json')
cur = json.load(open(p)) if os.path.exists(p) else []
PROP = json.load(open(os.path.join(H, 'tools', 'fixprops.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = [k for k in cur if k['status'] == 'known']
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        prop = next((v for k, v in PROP.items() if k in s), None)
        if prop is None:
            print('no property given for:', s)
            prop = '?'
        fixed.append({'status': 'fixed', 'property': prop, 'commit': h, 'line': 'fixed: property={} {} {}'.format(prop, h, s[5:])})
json.dump(fixed + out, open(p, 'w'), indent=1)
print(len(fixed), 'fixed', len(out), 'known')
