"""Confirms and keeps a planted bug:  plant.py SPEC.py

SPEC.py defines ID, PROPERTY, EDITS = [(file, old, new)], DEMO (python text),
NEEDS, BREAKS.  The change is made in a scratch copy of /repo shown at /repo
in a private mount and network namespace; kept only if the demonstration
passes without and fails with it, and the stable tests pass with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def inside(copy, cmd, timeout=1200):
    return subprocess.run(
        ['unshare', '-mn', 'bash', '-c',
         'ip link set lo up; mount --bind %s /repo && cd /repo && %s' % (
             copy, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        text=True, timeout=timeout)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    work = tempfile.mkdtemp(prefix='plant')
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        d = os.path.join(work, 'd')
        os.mkdir(d)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(ns['DEMO'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec %s -W ignore '
                    '"$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = inside(copy, 'bash %s/demo.sh' % d)
        if r.returncode:
            print(ns['ID'], 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-800:])
            return 1
        for fn, old, new in ns['EDITS']:
            p = os.path.join(copy, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['ID'], 'edit matches', s.count(old), 'times', fn, repr(old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(
            ['git', '-C', copy, 'diff'], text=True)
        r = inside(copy, 'bash /opt/vp/build.sh')
        if r.returncode:
            print(ns['ID'], 'DOES NOT BUILD', r.stdout[-800:])
            return 1
        r = inside(copy, 'bash %s/demo.sh' % d)
        if not r.returncode:
            print(ns['ID'], 'DEMO PASSES WITH THE CHANGE')
            return 1
        print(ns['ID'], 'demo:', r.stdout.strip().splitlines()[-1:])
        out = os.path.join(work, 't.json')
        inside(copy, 'bash /opt/vp/test.sh %s' % out)
        got = json.load(open(out))
        passed = set(got.get('passed') or got['pass'])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        if stable - passed:
            print(ns['ID'], 'TESTS CATCH IT', sorted(stable - passed)[:5])
            return 1
        to = os.path.join(HERE, 'seeded', ns['ID'])
        shutil.rmtree(to, ignore_errors=True)
        shutil.copytree(d, to)
        with open(os.path.join(to, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(to, 'meta.json'), 'w') as f:
            json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'],
                           what_it_breaks=ns['BREAKS']), f, indent=1)
        print(ns['ID'], 'KEPT')
        return 0
    finally:
        shutil.rmtree(work)


sys.exit(main(sys.argv[1]))
