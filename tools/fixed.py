"""fixed.py PROPERTY GREP WHAT...: record the newest /repo commit whose message matches GREP"""
import json, subprocess, sys
p, g, w = sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])
h = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '-1', '--grep=' + g]).decode().strip()
assert h
k = json.load(open('/verif/known_findings.json'))
k['fixed'].append('fixed: property=%s %s %s' % (p, h, w))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
print(k['fixed'][-1])
