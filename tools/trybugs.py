"""trybugs.py SPEC.py [ID...]: BUGS = [(id, property, tests, [(file, old, new)])]

Applies each change in a copy of /repo and reports what the property's check
and the stable tests of the modules named say."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def inside(copy, cmd, timeout=1000):
    sh = ('ip link set lo up; mount --bind %s /repo && mount -t tmpfs t '
          '/verif/evidence && mkdir -p /verif/evidence/replay && '
          'cd /verif && export PYTHONDONTWRITEBYTECODE=1 && %s' % (copy, cmd))
    try:
        r = subprocess.run(['unshare', '-mn', '--kill-child', '-pf', 'bash',
                            '-c', sh], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def one(bug):
    name, prop, tests, edits = bug
    d = tempfile.mkdtemp(prefix='try')
    try:
        c = os.path.join(d, 'repo')
        shutil.copytree('/repo', c, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'doc', '*.pyc'))
        for f, old, new in edits:
            s = open(os.path.join(c, f)).read()
            if s.count(old) != 1:
                return '%s BAD EDIT (%i matches) %r' % (name, s.count(old),
                                                        old[:50])
            open(os.path.join(c, f), 'w').write(s.replace(old, new))
        rc, t = inside(c, 'python3 tools/stable.py %s' % tests)
        t = 'tests pass' if 'FAILING' not in t else 'TESTS FAIL ' + t.split(
            'FAILING')[1][:100]
        rc, out = inside(c, './check.sh %s quick' % prop)
        last = [x for x in out.splitlines() if not x.startswith('UNDEC')]
        v = [x for x in last if 'VIOLATION' in x]
        why = [x for x in last if x.startswith('# ')]
        kind = 'MISSED' if rc == 0 else 'rc=%i' % rc if rc != 1 else \
            'proof' if v and v[0].endswith('found') else 'native'
        return '%s %s: %s; %s  %s' % (name, prop, kind, t, (
            why or last[-1:] or [''])[0][:160])
    finally:
        shutil.rmtree(d)


ns = {}
exec(open(sys.argv[1]).read(), ns)
with concurrent.futures.ThreadPoolExecutor(4) as pool:
    for r in pool.map(one, [b for b in ns['BUGS']
                            if len(sys.argv) < 3 or b[0] in sys.argv[2:]]):
        print(r)
        sys.stdout.flush()
