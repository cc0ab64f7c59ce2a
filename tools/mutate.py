"""mutate.py PROPERTY [-n COUNT] [-s SEED] [-f FILE[:FUNCTION]] [-t TESTMODULE ...]

Mutation testing of the checks: small changes on the lines of pyslet that the
contracts of a property run; those that neither the check nor the tests notice
are listed.  Works on copies, in a private mount namespace that is read-only
but for scratch space."""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
A = argparse.ArgumentParser()
A.add_argument('property')
A.add_argument('-n', type=int, default=80)
A.add_argument('-s', type=int, default=1)
A.add_argument('-f', action='append')
A.add_argument('-t', nargs='*', default=[])
A.add_argument('-j', type=int, default=7)
A.add_argument('--repo', default='/repo')
A = A.parse_args()
BASE = tempfile.mkdtemp(prefix='mut')


def inside(copy, cmd, timeout=900, cover=None):
    sh = ('ip link set lo up; mount --bind %s /repo && mount -t tmpfs t '
          '/verif/evidence && mkdir -p /verif/evidence/replay && '
          'mount -t tmpfs t /tmp && mount -o remount,ro,bind / && '
          'cd /verif && export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 '
          '&& %s' % (copy, cmd))
    try:
        r = subprocess.run(['unshare', '-mn', '--kill-child', '-pf',
                            'bash', '-c', sh],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def copy():
    d = tempfile.mkdtemp(dir=BASE)
    c = os.path.join(d, 'repo')
    shutil.copytree(A.repo, c, symlinks=True, ignore=shutil.ignore_patterns(
        '.git', 'doc', 'samples', '*.pyc', 'build'))
    return c


SWAP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'],
        ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
        ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*',
       ast.Mod: '//', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&',
       ast.LShift: '>>', ast.RShift: '<<'}


def mutants(src, lines):
    """(line, what, new source)"""
    rows = src.split('\n')
    starts = [0]
    for r in rows:
        starts.append(starts[-1] + len(r.encode('utf-8')) + 1)
    data = src.encode('utf-8')

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                               n.end_col_offset)

    def repl(a, b, text):
        return (data[:a] + text.encode('utf-8') + data[b:]).decode('utf-8')
    tree = ast.parse(src)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n)
            docs.add(n.value)
    for n in ast.walk(tree):
        if n in docs or not hasattr(n, 'lineno') or n.lineno not in lines:
            continue
        a, b = span(n)
        old = data[a:b].decode('utf-8')

        def add(text, x=None, y=None):
            out.append((n.lineno, '%s -> %s' % (
                data[a if x is None else x:b if y is None else y].decode(
                    'utf-8'), text), repl(
                a if x is None else x, b if y is None else y, text)))
        if isinstance(n, ast.Compare):
            left = n.left
            for op, c in zip(n.ops, n.comparators):
                x, y = span(left)[1], span(c)[0]
                gap = data[x:y].decode('utf-8')
                if '(' not in gap and ')' not in gap and '\n' not in gap:
                    for t in SWAP[type(op)]:
                        out.append((n.lineno, '%s: %s -> %s' % (
                            old, gap.strip(), t), repl(x, y, ' %s ' % t)))
                left = c
        elif isinstance(n, ast.BoolOp):
            for v, w in zip(n.values, n.values[1:]):
                add('(%s)' % data[slice(*span(v))].decode('utf-8'))
                add('(%s)' % data[slice(*span(w))].decode('utf-8'))
                x, y = span(v)[1], span(w)[0]
                gap = data[x:y].decode('utf-8')
                if '(' not in gap and ')' not in gap:
                    new = gap.replace('and', '@').replace('or', 'and') \
                        .replace('@', 'or')
                    out.append((n.lineno, '%s: %s' % (old, new.strip()),
                                repl(x, y, new)))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub)):
                add('(%s)' % data[slice(*span(n.operand))].decode('utf-8'))
        elif isinstance(n, ast.BinOp):
            x, y = span(n.left)[1], span(n.right)[0]
            gap = data[x:y].decode('utf-8')
            if type(n.op) in BIN and '(' not in gap and ')' not in gap and \
                    not isinstance(n.left, ast.Constant) or (
                        isinstance(n.left, ast.Constant) and
                        isinstance(n.left.value, int) and
                        type(n.op) in BIN and '(' not in gap):
                out.append((n.lineno, '%s: %s' % (old, BIN[type(n.op)]),
                            repl(x, y, ' %s ' % BIN[type(n.op)])))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(str(not n.value))
            elif isinstance(n.value, int):
                add(str(n.value + 1))
                if n.value:
                    add('(%i)' % (n.value - 1))
            elif isinstance(n.value, (str, bytes)) and len(n.value) and \
                    n.lineno == n.end_lineno and old[-1] in '"\'' and \
                    '%' not in old and '\\' not in old:
                add(old[:-2] + old[-1])
        elif isinstance(n, (ast.If, ast.While)):
            x, y = span(n.test)
            t = data[x:y].decode('utf-8')
            if isinstance(n, ast.If):
                out.append((n.lineno, 'if %s: always' % t, repl(
                    x, y, '(%s, True)[1]' % t)))
            out.append((n.lineno, '%s: never' % t, repl(x, y, 'False')))
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            add('pass')
        elif isinstance(n, ast.Expr):
            add('pass')
        elif isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant)):
            add('return None')
        elif isinstance(n, ast.Raise):
            add('pass')
        elif isinstance(n, ast.Break):
            add('continue')
        elif isinstance(n, ast.Continue):
            add('break')
            add('pass')
        elif isinstance(n, ast.Slice):
            for e in (n.lower, n.upper):
                if e is not None:
                    x, y = span(e)
                    t = data[x:y].decode('utf-8')
                    out.append((n.lineno, '[%s]: (%s) + 1' % (old, t), repl(
                        x, y, '(%s) + 1' % t)))
    return out


def main():
    first = copy()
    cover = os.path.join(first, 'COVER')
    rc, out = inside(first, 'PYVC_COVER=/repo/COVER %s tools/mutrun.py %s' % (
        PY, A.property))
    if 'SURVIVED' not in out:
        print('unchanged tree:', out[-500:])
        return
    lines = {}
    for l in open(cover):
        f, n = l.strip().rsplit(':', 1)
        lines.setdefault(os.path.relpath(f, '/repo'), set()).add(int(n))
    os.remove(cover)
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == A.property:
            files = d['anchors']['files']
    todo = []
    for f in A.f or files:
        f, _, fn = f.partition(':')
        src = open(os.path.join(first, f)).read()
        tree = ast.parse(src)
        inner = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and (
                    not fn or getattr(n, 'name', '') in fn.split(',')):
                inner |= set(range(n.lineno + 1, n.end_lineno + 1))
        use = lines.get(f, set()) & inner
        print(f, len(use), 'lines')
        for line, what, new in mutants(src, use):
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                continue
            if new != src:
                todo.append((f, line, what, new))
    random.Random(A.s).shuffle(todo)
    print(len(todo), 'mutants, trying', min(len(todo), A.n))
    todo = todo[:A.n]

    def one(m):
        f, line, what, new = m
        c = copy()
        try:
            with open(os.path.join(c, f), 'w') as h:
                h.write(new)
            rc, out = inside(c, 'timeout 400 %s -W ignore tools/mutrun.py %s' %
                             (PY, A.property))
            if rc and rc not in (0,):
                if 'CAUGHT' in out:
                    return m, 'native', out.strip()
                # an import error, say
                return m, 'crash', out.strip()[-200:]
            if A.t:
                rc, out = inside(
                    c, '%s tools/stable.py %s' % (PY, ' '.join(A.t)))
                if 'STABLE FAILING' in out or rc:
                    return m, 'tests', ''
            rc, out = inside(c, './check.sh %s quick' % A.property)
            if rc == 1:
                return m, 'proof', out.strip()[-300:]
            return m, 'MISSED', ' | '.join(
                l for l in out.splitlines() if 'UNDECIDED' in l)[:300]
        finally:
            shutil.rmtree(os.path.dirname(c))
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(A.j) as ex:
        for m, verdict, text in ex.map(one, todo):
            counts[verdict] = counts.get(verdict, 0) + 1
            if verdict in ('MISSED', 'crash', 'proof'):
                print(verdict, '%s:%i' % m[:2], m[2].replace('\n', ' ')[:160],
                      '##', text.replace('\n', ' ')[:200])
                sys.stdout.flush()
    print(A.property, counts)


try:
    main()
finally:
    shutil.rmtree(BASE)
