"""Runs the contracts of one property.

python -m pyvc.run PROPERTY quick|thorough [--proof NAME] [-v]
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import pyvc     # noqa
import logging
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter('ignore')

import z3       # noqa
from pyvc import engine, interp, kit    # noqa
from pyvc.values import *   # noqa

TIERS = {
    'quick': dict(budget=150, ob_ms=15000, feas_ms=1000, samples=3000,
                  search_s=12, cross=4, deadline=560),
    'thorough': dict(budget=450, ob_ms=60000, feas_ms=3000, samples=60000,
                     search_s=90, cross=20, deadline=820),
}


def short(v, n=300):
    try:
        r = repr(v)
    except Exception as e:  # noqa
        r = '<unprintable %r>' % e
    return r if len(r) <= n else r[:n] + '...'


# -- native ---------------------------------------------------------------

class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def stale(e, tb):
    """True if an exception only tells that an internal name the harness
    relies on has gone (renamed, moved, other arguments): the contract does
    not apply to this source, which decides nothing about the property"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    own = bool(tb) and tb[-1].filename.startswith(
        os.path.join(here, 'contracts') + os.sep)
    if isinstance(e, AttributeError):
        name = getattr(e, 'name', None) or ''
        obj = getattr(e, 'obj', None)
        if own and name.startswith('_') and not name.endswith('__'):
            return True
        if own and (isinstance(obj, types.ModuleType) or
                    isinstance(obj, type)):
            return True
        if obj is not None and type(obj).__module__.startswith('contracts.'):
            # a stand-in object of the harness lacks something
            return True
    elif isinstance(e, TypeError) and own:
        m = re.match(r'(?:[\w.<>]+\.)?(_[a-z]\w*)\(\) (takes|missing|got)',
                     str(e))
        return m is not None
    return False


def run_native(p, args, secs=30, real=200):
    """(status, obligation, detail, kit): ok, skip or fail"""
    k = kit.NatKit(p.name)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _alarm)
    # processor time, so that a busy machine makes no difference; and the time
    # of day in case it waits for ever
    signal.setitimer(signal.ITIMER_VIRTUAL, secs)
    signal.setitimer(signal.ITIMER_REAL, real)
    try:
        try:
            p.func(k, **args)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except kit.Skip:
        return 'skip', None, None, k
    except kit.Failed as f:
        return 'fail', f.name, f.detail, k
    except Timeout:
        return 'fail', 'terminates', 'no answer in %is' % secs, k
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        if stale(e, tb):
            return 'stale', None, str(e), k
        where = ' < '.join("%s:%i" % (os.path.basename(f.filename), f.lineno)
                           for f in reversed(tb[-3:]))
        return 'fail', 'no unexpected exception', "%s: %s at %s" % (
            type(e).__name__, e, where), k
    finally:
        signal.signal(signal.SIGALRM, old)
    return 'ok', None, None, k


def copy_args(args):
    import copy
    try:
        return copy.deepcopy(args)
    except Exception:   # noqa
        return dict(args)


def inputs(p, rng, n):
    names = list(p.params)
    doms = [p.params[x] for x in names]
    if not names:
        yield {}
        return
    # complete enumeration of small spaces
    smalls = [d.small() if hasattr(d, 'small') else None for d in doms]
    if all(s is not None for s in smalls):
        total = 1
        for s in smalls:
            total *= len(s)
        if total <= max(n, 1) * 4 or p.exhaustive:
            for t in itertools.product(*smalls):
                yield dict(zip(names, t))
            return
    # corners
    corners = [d.corners()[:12] or [d.sample(rng)] for d in doms]
    total = 1
    for c in corners:
        total *= len(c)
    if total <= 3000:
        for t in itertools.product(*corners):
            yield dict(zip(names, t))
    else:
        for i in range(1500):
            yield {x: rng.choice(c) for x, c in zip(names, corners)}
    for i in range(n):
        yield {x: (rng.choice(c) if rng.random() < 0.15 else d.sample(rng))
               for x, d, c in zip(names, doms, corners)}


def search(p, tier, seed, secs=None):
    """Runs the harness natively over samples"""
    t = TIERS[tier]
    n = p.samples or t['samples']
    if p.samples and tier == 'thorough':
        n = p.samples * 10
    secs = secs or t['search_s']
    rng = random.Random("%s/%s/%s" % (seed, p.name, tier))
    t0 = time.time()
    res = dict(evaluations=0, skipped=0, distinct=0, failures=[],
               samples=[], capped=False, obligations={})
    seen = set()
    for args in inputs(p, rng, n):
        if time.time() - t0 > secs:
            res['capped'] = True
            break
        shown = short(args)
        st, ob, detail, k = run_native(p, copy_args(args))
        if st == 'stale':
            res['stale'] = detail
        if st in ('skip', 'stale'):
            res['skipped'] += 1
            continue
        res['evaluations'] += 1
        for o in k.reached:
            res['obligations'][o] = res['obligations'].get(o, 0) + 1
        h = hash(shown)
        if h not in seen:
            seen.add(h)
            if len(res['samples']) < 3 or rng.random() < 0.0005:
                res['samples'].append(shown)
        if st == 'fail':
            res['failures'].append((shown, ob, detail))
            if len(res['failures']) >= 3:
                break
    res['distinct'] = len(seen)
    res['samples'] = res['samples'][:6]
    return res


# -- symbolic ---------------------------------------------------------------

def make_interp(p, e, kitcls, loops=True):
    ip = interp.Interp(e)
    k = kitcls(e, ip, p.name)
    ip.kit = k
    if loops:
        ip.loopspecs = p.loops
        for c in p.uses:
            if c.func is not None:
                ip.contracts[c.func] = c
    ip.effects = dict(p.effects)
    return ip, k


def prove(p, tier):
    t = TIERS[tier]
    e = engine.Engine(feas_ms=p.feas_ms or t['feas_ms'],
                      ob_ms=p.ob_ms or t['ob_ms'],
                      budget=(p.budget or t['budget']) *
                      (3 if tier == 'thorough' and p.budget else 1),
                      max_paths=p.max_paths, unroll=p.unroll)
    e.splits = p.splits

    def body():
        ip, k = make_interp(p, e, kit.SymKit)
        args = {}
        for name, dom in p.params.items():
            v = dom.symbolic(k, name)
            args[name] = v
            e.model_terms.append((name, dom, v))
        k.root(*args.values())
        try:
            ip.call_function(p.func, [k], args)
        except PyRaise as err:
            e.require_feasible()
            e.last_raise = "%s%r" % (err.exc.cls.__name__,
                                     err.exc.attrs.get('args', ()))
            e.oblige("%s: no unexpected exception" % p.name, False)
            return
        e.oblige("%s: no unexpected exception" % p.name, True)
    status = 'proved'
    reasons = []
    try:
        e.explore(body)
    except (Unsupported,) as err:
        reasons.append("unsupported: %s (%s)" % (
            err, getattr(err, 'where', '')))
    except engine.Budget as err:
        reasons.append(str(err))
    except RecursionError:
        reasons.append("unsupported: recursion")
    except z3.Z3Exception as err:
        reasons.append("unsupported: z3 %s" % err)
    except Exception as err:    # noqa
        reasons.append("engine error: %s" % ''.join(
            traceback.format_exception(err))[-1500:])
    reasons += ["unsupported: " + u for u in e.unsupported]
    obs = []
    for ob in e.obs.values():
        obs.append(dict(name=ob.name, total=ob.total,
                        discharged=ob.discharged, trivial=ob.trivial,
                        backend=ob.backend, unknown=ob.unknown,
                        refuted=len(ob.refuted), time=round(ob.time, 3)))
    refuted = [(ob.name, m) for ob in e.obs.values() for m in ob.refuted]
    unknown = [ob.name for ob in e.obs.values() if ob.unknown]
    if unknown:
        reasons.append("undischarged: " + ', '.join(unknown[:5]))
    if not reasons and e.completed == 0:
        reasons.append("vacuous: no path completes")
    if refuted:
        status = 'refuted'
    elif reasons:
        status = 'undecided'
    return dict(status=status, obligations=obs, reasons=reasons[:8],
                refuted=refuted[:12], paths=e.paths, completed=e.completed,
                functions=sorted(e.functions), assumed=sorted(e.assumed),
                unused=["%s %s" % (x.func, x.label) for x in p.loops
                        if not any(id(y) in e.specs_used and
                                   (x.func, x.ordinal) == (y.func, y.ordinal)
                                   for y in p.loops)],
                loops=sorted(e.loops_cut), queries=e.queries,
                solver_time=round(e.solver_time, 2),
                last_raise=getattr(e, 'last_raise', None))


def conc_value(v):
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        raise Unsupported("not concrete")
    if isinstance(v, SStr):
        c = [conc_value(x) for x in v.chars]
        return mk_str(v.kind, c)
    if isinstance(v, (list, tuple)):
        return type(v)(conc_value(x) for x in v) if type(v) in (
            list, tuple) else v
    if isinstance(v, Obj):
        raise Unsupported("object observed")
    if isinstance(v, Opaque):
        raise Unsupported("opaque")
    return v


def crosscheck(p, tier, seed):
    """The interpreter against CPython on concrete inputs"""
    rng = random.Random("x/%s/%s" % (seed, p.name))
    done = bad = 0
    problems = []
    tries = 0
    want = TIERS[tier]['cross']
    t0 = time.time()
    while done < want and tries < want * 6 and time.time() - t0 < 20:
        tries += 1
        args = {x: d.sample(rng) for x, d in p.params.items()}
        st, ob, detail, nk = run_native(p, copy_args(args))
        if st in ('skip', 'stale') or (
                st == 'fail' and ob == 'terminates'):
            continue
        e = engine.Engine(budget=8)
        out = {}

        def body():
            ip, k = make_interp(p, e, kit.PinKit, loops=False)
            try:
                ip.call_function(p.func, [k], copy_args(args))
                out['st'] = 'ok'
            except PyRaise as err:
                out['st'] = 'raise'
                out['exc'] = err.exc.cls.__name__
            out['obs'] = k.observed
        try:
            e.explore(body)
        except Exception:   # noqa
            continue
        if e.unsupported or 'st' not in out:
            continue
        try:
            obs = [conc_value(o) for o in out['obs']]
        except Exception:   # noqa
            continue
        done += 1
        nraise = (st == 'fail' and ob == 'no unexpected exception')
        if st == 'fail' and not nraise:
            continue
        if (out['st'] == 'raise') != nraise or (
                not nraise and repr(obs) != repr(nk.observed)):
            bad += 1
            problems.append("%s: engine %s %s, CPython %s %s %s" % (
                short(args), out['st'], short(obs), st, short(nk.observed),
                detail))
    return dict(compared=done, mismatches=bad, problems=problems[:3])


# -- one proof in a child process ------------------------------------------

def child(conn, modname, idx, tier, seed):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:   # noqa
        pass
    sys.setrecursionlimit(12000)
    res = {}
    t0 = time.time()
    try:
        mod = sys.modules[modname]
        p = mod.PROOFS[idx]
        if p.native:
            res['search'] = search(p, tier, seed)
            conn.send(dict(res))
        if p.symbolic:
            res['proof'] = prove(p, tier)
            conn.send(dict(res))
            if p.native:
                res['cross'] = crosscheck(p, tier, seed)
                # replay of the verifier's counterexamples
                rep = []
                for ob, args in res['proof']['refuted']:
                    if args is None or '__error__' in args:
                        rep.append((ob, None, 'no model', None, None))
                        continue
                    st, nob, detail, k = run_native(p, copy_args(args))
                    rep.append((ob, short(args), st, nob, detail))
                res['replay'] = rep
                if res['proof']['refuted'] and not any(
                        r[2] == 'fail' for r in rep) and not \
                        res['search']['failures']:
                    # look harder before reporting without an input
                    s2 = search(p, 'thorough', str(seed) + 'b', secs=60)
                    res['search2'] = s2
    except MemoryError:
        res['error'] = 'out of memory'
    except Exception as e:  # noqa
        res['error'] = ''.join(traceback.format_exception(e))[-2000:]
    res['wall'] = round(time.time() - t0, 2)
    try:
        # tuples of z3 never cross the pipe: everything is plain data
        res.get('proof', {}).pop('refuted_models', None)
        if 'proof' in res:
            res['proof']['refuted'] = [
                (o, short(m)) for o, m in res['proof']['refuted']]
        conn.send(dict(res, done=True))
    except Exception as e:  # noqa
        conn.send(dict(error="cannot report: %r" % e, done=True))
    conn.close()


def run_property(pid, tier, seed, only=None, verbose=False, jobs=8):
    t0 = time.time()
    modname = 'contracts.%s' % pid
    mod = importlib.import_module(modname)
    idxs = [i for i, p in enumerate(mod.PROOFS)
            if (only is None or p.name.startswith(only)) and
            not (p.thorough_only and tier != 'thorough')]
    # longest budgets first
    ctx = multiprocessing.get_context('fork')
    pending = list(idxs)
    running = {}
    results = {}
    deadline = t0 + TIERS[tier]['deadline']
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=child, args=(b, modname, i, tier, seed))
            pr.start()
            b.close()
            running[i] = (pr, a)
        for i in list(running):
            pr, a = running[i]
            fin = False
            try:
                while a.poll(0.01):
                    results[i] = a.recv()
                    if results[i].get('done'):
                        fin = True
                        break
            except EOFError:
                fin = True
            if fin or not pr.is_alive() and not a.poll(0):
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                results.setdefault(i, {'error': 'died'})
                if not results[i].get('done'):
                    results[i].setdefault('error', 'child ended early')
                del running[i]
                a.close()
                if verbose:
                    report(mod.PROOFS[i], results[i])
        if time.time() > deadline:
            for i in list(running):
                pr, a = running.pop(i)
                pr.kill()
                results.setdefault(i, {})
                results[i]['error'] = 'deadline'
                if verbose:
                    report(mod.PROOFS[i], results[i])
            for i in pending:
                results[i] = {'error': 'deadline, not run'}
            pending = []
        time.sleep(0.02)
    return mod, results, time.time() - t0


def report(p, r):
    pr = r.get('proof')
    s = r.get('search') or {}
    line = "  %-52s" % p.name
    if pr:
        tot = sum(o['total'] for o in pr['obligations'])
        dis = sum(o['discharged'] for o in pr['obligations'])
        line += " %-9s %i/%i obligations %i paths %.1fs" % (
            pr['status'], dis, tot, pr['paths'], pr['solver_time'])
    elif p.symbolic:
        line += " no proof"
    if s:
        line += " | search %i (%i skipped)%s" % (
            s['evaluations'], s['skipped'], ' capped' if s['capped'] else '')
    x = r.get('cross')
    if x:
        line += " | cross %i/%i" % (x['compared'] - x['mismatches'],
                                    x['compared'])
    line += " [%ss]" % r.get('wall')
    print(line)
    for o in pr['obligations'] if pr else []:
        if o['time'] > 3:
            print("      slow %.1fs %s %s" % (o['time'], o['name'],
                                            o['backend']))
    if pr and pr['status'] != 'proved':
        for x in pr['reasons']:
            print("      ?", x)
        for x in pr['refuted'][:4]:
            print("      X", x, pr.get('last_raise'))
    for x in s.get('failures', []):
        print("      FAIL", x)
    for x in r.get('replay') or []:
        print("      replay", x)
    for x in (r.get('search2') or {}).get('failures', []):
        print("      FAIL2", x)
    for x in (r.get('cross') or {}).get('problems', []):
        print("      CROSS", x)
    if r.get('error'):
        print("      ERROR", r['error'])
    sys.stdout.flush()


def main():
    argv = sys.argv[1:]
    verbose = '-v' in argv
    only = None
    if '--proof' in argv:
        only = argv[argv.index('--proof') + 1]
    pid, tier = argv[0], (argv[1] if len(argv) > 1 and argv[1] in TIERS
                          else 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    from pyvc import judge
    try:
        mod, results, wall = run_property(pid, tier, seed, only, verbose)
    except Exception as e:  # noqa
        # the contracts do not apply to this source
        traceback.print_exc()
        print("UNDECIDED property=%s %s: %s" % (pid, type(e).__name__, e))
        sys.stdout.flush()
        os._exit(0)
    rc = judge.judge(pid, tier, seed, mod, results, wall, write=only is None)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
