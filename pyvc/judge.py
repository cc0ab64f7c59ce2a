"""Turns the results of a run into a verdict, evidence and replay files."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def findings_for(pid):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        data = json.load(f)
    return [x for x in data.get('findings', []) if x['property'] == pid]


def judge(pid, tier, seed, mod, results, wall, write=True):
    violations = []     # (proof, obligation, input, detail, kind)
    undecided = []
    n_ob = n_dis = 0
    backends = {}
    bounded_ob = [0, 0]
    functions, assumed, loops = set(), set(), set()
    evals = distinct = skipped = 0
    samples = []
    per = []
    solver_time = 0.0
    queries = 0
    cross = [0, 0]
    for i, r in sorted(results.items()):
        p = mod.PROOFS[i]
        pr = r.get('proof')
        s = r.get('search')
        entry = dict(contract=p.name, bounded=p.bounded)
        if s:
            evals += s['evaluations']
            distinct += s['distinct']
            skipped += s['skipped']
            samples += ["%s: %s" % (p.name, x) for x in s['samples'][:2]]
            entry['native_evaluations'] = s['evaluations']
            for shown, ob, detail in s['failures']:
                violations.append((p.name, ob, shown, detail, 'search'))
            if s.get('stale'):
                undecided.append("%s: the contract does not apply to this "
                                 "source: %s" % (p.name, s['stale']))
            elif s['evaluations'] == 0:
                undecided.append("%s: no native input met the "
                                 "precondition" % p.name)
        s2 = r.get('search2')
        if s2:
            evals += s2['evaluations']
            for shown, ob, detail in s2['failures']:
                violations.append((p.name, ob, shown, detail, 'search'))
        if r.get('error'):
            undecided.append("%s: %s" % (p.name, r['error']))
            entry['error'] = r['error'][-300:]
        if p.symbolic:
            x = r.get('cross') or {}
            cross[0] += x.get('compared', 0)
            cross[1] += x.get('mismatches', 0)
            distrust = bool(x.get('mismatches'))
            if pr is None:
                undecided.append("%s: the proof did not finish" % p.name)
                entry['status'] = 'undecided'
            else:
                tot = sum(o['total'] for o in pr['obligations'])
                dis = sum(o['discharged'] for o in pr['obligations'])
                entry.update(
                    status=pr['status'], obligations=tot, discharged=dis,
                    paths=pr['paths'], solver_s=pr['solver_time'],
                    queries=pr['queries'],
                    named={o['name']: o['total']
                           for o in pr['obligations']})
                solver_time += pr['solver_time']
                queries += pr['queries']
                functions.update(pr['functions'])
                assumed.update(pr['assumed'])
                loops.update(pr['loops'])
                for o in pr['obligations']:
                    for b, c in o['backend'].items():
                        backends[b] = backends.get(b, 0) + c
                if distrust:
                    entry['status'] = 'undecided'
                    undecided.append(
                        "%s: the engine disagrees with CPython: %s" % (
                            p.name, x['problems'][:1]))
                elif pr['status'] == 'undecided':
                    undecided.append("%s: %s" % (
                        p.name, '; '.join(pr['reasons'])[:400]))
                if p.bounded:
                    bounded_ob[0] += tot
                    bounded_ob[1] += dis if not distrust else 0
                else:
                    n_ob += tot
                    n_dis += dis if not distrust else 0
                if pr['status'] == 'refuted' and not distrust:
                    confirmed = False
                    for ob, shown, st, nob, detail in r.get('replay') or []:
                        if st == 'fail':
                            confirmed = True
                            violations.append((p.name, nob, shown, detail,
                                               'counterexample of ' + ob))
                    gone = (s or {}).get('stale') or (s2 or {}).get('stale')
                    if not gone and pr.get('unused'):
                        gone = 'no loop takes the invariant of %s' % (
                            ', '.join(pr['unused']))
                    if not confirmed and gone:
                        entry['status'] = 'undecided'
                        undecided.append(
                            "%s: the contract does not apply to this "
                            "source: %s" % (p.name, gone))
                    elif not confirmed:
                        for ob, shown in pr['refuted'][:3]:
                            rr = [(x[0], x[2]) for x in
                                  (r.get('replay') or [])[:3]]
                            violations.append((
                                p.name, ob, None,
                                'refuted by the solver, model %s; replay: '
                                '%s; last exception %s' % (
                                    shown, rr,
                                    pr.get('last_raise')),
                                'obligation'))
        else:
            entry['status'] = 'bounded search only'
        per.append(entry)
    # known findings
    known_lines = []
    listed = {f['id']: f for f in findings_for(pid)}
    for fid, fn in getattr(mod, 'FINDINGS', {}).items():
        try:
            still = fn()
        except Exception as e:  # noqa
            still = True
        if not still:
            continue
        f = listed.get(fid)
        if f is not None:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (
                pid, f['what']))
        else:
            violations.append(('known finding ' + fid, fid, fid,
                               'fails and is not listed', 'finding'))
    with_input = [v for v in violations if v[2] is not None]
    final = with_input or violations
    replay = None
    if final and write:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s.json' % pid)
        with open(replay, 'w') as f:
            json.dump(dict(
                property=pid, tier=tier, seed=seed,
                how="./check.sh %s %s reruns the check; each entry names "
                    "the contract harness in contracts/%s.py, the failed "
                    "obligation and the input to pass to it" % (
                        pid, tier, pid),
                violations=[dict(contract=a, obligation=b, input=c,
                                 detail=d_, found_by=e)
                            for a, b, c, d_, e in final[:20]]), f, indent=1)
    for u in undecided:
        print("UNDECIDED (bounded stand-in decides): %s" % u)
    for a, b, c, d_, e in final[:5]:
        print("# %s | %s | input %s | %s | %s" % (a, b, c, str(d_)[:1500], e))
    for l in known_lines:
        print(l)
    nproved = sum(1 for e in per if e.get('status') == 'proved')
    print("%s %s: %i contracts (%i fully discharged), %i/%i obligations, "
          "bounded %i/%i, %i native evaluations, engine cross-check %i/%i, "
          "solver %.1fs, wall %.1fs" % (
              pid, tier, len(per), nproved, n_dis, n_ob, bounded_ob[1],
              bounded_ob[0], evals, cross[0] - cross[1], cross[0],
              solver_time, wall))
    if write:
        ev = dict(
            property=pid, tier=tier, seed=int(seed) if str(seed).isdigit()
            else 0,
            level=getattr(mod, 'LEVEL', 'proof'),
            coverage=dict(
                obligations=n_ob, discharged=n_dis,
                checker_cmd="./check.sh %s %s" % (pid, tier),
                trusted_base=["pyvc (VC generator, /verif/pyvc)",
                              "z3 %s" % _z3v(), "cvc5 (second opinion)",
                              "CPython 3.12"],
                backends=backends, solver_s=round(solver_time, 2),
                solver_queries=queries,
                functions_under_contract=sorted(functions),
                loops_with_invariants=sorted(loops),
                contracts=per,
                bounded_obligations=dict(total=bounded_ob[0],
                                         discharged=bounded_ob[1]),
                evaluations=evals, distinct_nontrivial=distinct,
                skipped_by_precondition=skipped,
                rule="native runs of every contract harness on corner and "
                     "random inputs (seeded); distinct inputs meeting the "
                     "precondition are counted",
                samples=samples[:20],
                engine_crosscheck=dict(compared=cross[0],
                                       mismatches=cross[1]),
                undecided=undecided),
            assumptions=sorted(assumed) + list(
                getattr(mod, 'ASSUMPTIONS', [])) + [
                "Python integers are mathematical integers (exact); floats, "
                "where they occur, are treated as exact reals in proofs",
                "logging calls and exception message texts have no effect "
                "on the verified state",
                "the Python 3 branches of the code are the ones that run"],
            wall_s=round(wall, 2),
            violations=[dict(contract=a, obligation=b, input=c, detail=d_)
                        for a, b, c, d_, e in final[:20]],
            known_findings=known_lines)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(HERE, 'evidence', '%s.json' % pid))
    if final:
        if with_input:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found"
                  % (pid, replay))
        return 1
    return 0


def _z3v():
    import z3
    return z3.get_version_string()
