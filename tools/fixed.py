"""fixed.py PROPERTY [COMMIT]: lists a fix commit in known_findings.json"""
import json, subprocess, sys
c = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', *(sys.argv[2:3])], text=True).strip()
h, s = c.split(' ', 1)
assert s.startswith('fix: ')
d = json.load(open('/verif/known_findings.json'))
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, s[5:]))
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
