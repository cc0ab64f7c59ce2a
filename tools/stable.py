"""stable.py MODULE...: runs unittests/MODULE.py of /repo and lists the stable
tests that fail"""
import json, re, subprocess, sys
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for m in sys.argv[1:]:
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-rfE', 'unittests/%s.py' % m], cwd='/repo', env={'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/usr/bin:/bin'}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = []
    for l in r.stdout.splitlines():
        x = re.match(r'(FAILED|ERROR) unittests/(\S+)\.py::(\S+)', l)
        if x:
            t = x.group(3).replace('::', '::')
            name = 'unittests.%s.%s' % (x.group(2), t)
            if name in stable:
                bad.append(name)
    print(m, r.stdout.splitlines()[-1], 'STABLE FAILING: %s' % bad if bad else 'ok')
