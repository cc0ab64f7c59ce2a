"""Path exploration, path condition, obligations."""
import os
import subprocess
import tempfile
import time
import z3

from .values import *   # noqa


class Ob(object):
    def __init__(self, name):
        self.name = name
        self.total = 0
        self.discharged = 0
        self.trivial = 0
        self.backend = {}
        self.refuted = []       # list of models (concrete args dict)
        self.unknown = 0
        self.time = 0.0


class Budget(Exception):
    pass


CVC5 = '/usr/bin/cvc5'
for _p in ('/usr/bin/cvc5', '/usr/local/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_p):
        CVC5 = _p
        break
else:
    import shutil
    CVC5 = shutil.which('cvc5')


CVC5_DEBUG = os.environ.get('PYVC_CVC5')
TRACE = {} if os.environ.get('PYVC_TRACE') else None


def trace_fork():
    import sys
    f = sys._getframe(2)
    while f is not None:
        loc = f.f_locals
        if 'st' in loc and 'frame' in loc and hasattr(loc['st'], 'lineno'):
            key = "%s:%s" % (getattr(loc['frame'], 'func_name', '?'),
                             loc['st'].lineno)
            TRACE[key] = TRACE.get(key, 0) + 1
            return
        f = f.f_back


#: for debugging: the last obligation that no solver decided
DUMP = os.environ.get('PYVC_DUMP')


class Engine(object):

    splits = 5      # pieces of a split text that are told apart

    def __init__(self, feas_ms=3000, ob_ms=15000, budget=120.0,
                 max_paths=200000, unroll=80, use_cvc5=True):
        self.feas_ms = feas_ms
        self.ob_ms = ob_ms
        self.budget = budget
        self.max_paths = max_paths
        self.unroll = unroll
        self.use_cvc5 = use_cvc5
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self.obs = {}
        self.paths = 0
        self.completed = 0
        self.solver_time = 0.0
        self.queries = 0
        self.functions = set()
        self.assumed = set()
        self.loops_cut = set()
        self.specs_used = set()
        self.reached = set()
        self.t0 = time.time()
        self.unsupported = []
        self.digits = {}

    # -- exploration ------------------------------------------------------
    def explore(self, body):
        work = [[]]
        while work:
            prefix = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget("more than %i paths" % self.max_paths)
            self.prefix = prefix
            self.taken = []
            self.di = 0
            self.fresh_n = 0
            self.alts = []
            self.stamp = 0
            self.solver.push()
            self.model_terms = []
            self.cache = {}
            self.digits = {}
            try:
                body()
                self.completed += 1
            except PathEnd:
                pass
            except Unsupported as err:
                self.unsupported.append("%s (%s)" % (
                    err, getattr(err, 'where', '')))
                if len(self.unsupported) > 40:
                    raise
            finally:
                self.solver.pop()
            work.extend(self.alts)
            if TRACE is not None:
                import sys
                for a, b in sorted(TRACE.items(), key=lambda x: -x[1])[:12]:
                    sys.stderr.write("%s=%i " % (a, b))
                sys.stderr.write("\n")
        return self

    def tick(self):
        if time.time() - self.t0 > self.budget:
            raise Budget("time budget of %is used up" % self.budget)

    def fresh(self, sort, hint='v'):
        self.fresh_n += 1
        return z3.Const("%s!%i" % (hint, self.fresh_n), sort)

    def fresh_fun(self, hint, *sorts):
        self.fresh_n += 1
        return z3.Function("%s!%i" % (hint, self.fresh_n), *sorts)

    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.solver.add(cond)

    def assume(self, cond):
        """Assume a condition; ends the path if it is infeasible"""
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        self.solver.add(cond)

    def check(self, *conds):
        try:
            return self.solver.check(*conds)
        except z3.Z3Exception:
            return z3.unknown

    def feasible(self, *conds):
        self.tick()
        t = time.time()
        self.queries += 1
        r = self.check(*conds)
        self.solver_time += time.time() - t
        return r != z3.unsat

    def require_feasible(self):
        if self.di >= len(self.prefix) and not self.feasible():
            raise PathEnd()

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.di < len(self.prefix):
            d = self.prefix[self.di]
        else:
            if not self.feasible(cond):
                d = 0
            elif not self.feasible(z3.Not(cond)):
                d = 1
            else:
                d = 1
                self.alts.append(self.taken + [0])
                if TRACE is not None:
                    trace_fork()
        self.di += 1
        self.taken.append(d)
        self.solver.add(cond if d else z3.Not(cond))
        return bool(d)

    def choose(self, n):
        if n <= 1:
            return 0
        if self.di < len(self.prefix):
            d = self.prefix[self.di]
        else:
            d = 0
            for j in range(1, n):
                self.alts.append(self.taken + [j])
        self.di += 1
        self.taken.append(d)
        return d

    def entails(self, cond, ms=None):
        """True if the path condition implies cond (used to simplify)"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # memoised in the decision string, to keep re-execution cheap
        if self.di < len(self.prefix):
            d = self.prefix[self.di]
        else:
            self.tick()
            t = time.time()
            self.queries += 1
            if ms:
                self.solver.set('timeout', ms)
            d = 1 if self.check(z3.Not(cond)) == z3.unsat else 0
            if ms:
                self.solver.set('timeout', self.feas_ms)
            self.solver_time += time.time() - t
        self.di += 1
        self.taken.append(d)
        return bool(d)

    # -- obligations ------------------------------------------------------
    def oblige(self, name, goal):
        # obligations are evaluated once per path; a path re-executed for
        # another branch repeats the common prefix, skip those
        ob = self.obs.get(name)
        if ob is None:
            ob = self.obs[name] = Ob(name)
        if self.di < len(self.prefix):
            # inside the replayed prefix: already checked on this prefix
            if not (goal is True or goal is False):
                self.solver.add(goal)
            elif goal is False:
                raise PathEnd()
            return
        ob.total += 1
        self.reached.add(name)
        if goal is True:
            ob.discharged += 1
            ob.trivial += 1
            ob.backend['evaluation'] = ob.backend.get('evaluation', 0) + 1
            return
        if goal is False:
            goal = z3.BoolVal(False)
        t = time.time()
        self.tick()
        self.queries += 1
        self.solver.set('timeout', min(self.ob_ms, 4000))
        neg = z3.Not(goal)
        r = self.check(neg)
        self.solver.set('timeout', self.feas_ms)
        backend = 'z3'
        model = None
        if r == z3.sat:
            model = self.solver.model()
        elif r == z3.unknown:
            r, model, backend = self.second_opinion(neg)
        dt = time.time() - t
        self.solver_time += dt
        ob.time += dt
        if r == z3.unsat:
            ob.discharged += 1
            ob.backend[backend] = ob.backend.get(backend, 0) + 1
        elif r == z3.sat:
            ob.refuted.append(self.concretize(model)
                              if model is not None else None)
        else:
            ob.unknown += 1
            if DUMP:
                with open(DUMP, 'w') as f:
                    f.write('; %s\n%s\n(assert %s)\n' % (
                        name, self.solver.sexpr(), neg.sexpr()))
        if not z3.is_false(goal):
            self.solver.add(goal)
        if r != z3.unsat:
            # do not let one failure hide or cause others
            if z3.is_false(goal) or not self.feasible():
                raise PathEnd()

    def second_opinion(self, neg):
        s2 = z3.Solver()
        s2.set('timeout', self.ob_ms)
        s2.set('random_seed', 17)
        for a in self.solver.assertions():
            s2.add(a)
        s2.add(neg)
        pr = None
        if self.use_cvc5 and CVC5:
            txt = s2.to_smt2().replace('seq.nth_i', 'seq.nth').replace(
                'seq.nth_u', 'seq.nth')
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                            delete=False)
            f.write("(set-logic ALL)\n" + txt)
            f.close()
            pr = subprocess.Popen(
                [CVC5, '--strings-exp', '--tlimit=%i' % self.ob_ms, f.name],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if pr is not None:
            # cvc5 alone first, for what z3 finds hard
            try:
                out = pr.communicate(timeout=min(
                    8.0, self.ob_ms / 2000.0))[0]
                pr = None
                os.unlink(f.name)
                if CVC5_DEBUG:
                    print(out[:300])
                if out.startswith('unsat'):
                    return z3.unsat, None, 'cvc5'
            except subprocess.TimeoutExpired:
                pass
        try:
            r = s2.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unknown and pr is not None:
            try:
                out = pr.communicate(timeout=self.ob_ms / 1000.0)[0]
                if out.startswith('unsat'):
                    r = z3.unsat
            except subprocess.TimeoutExpired:
                pass
            if r == z3.unsat:
                os.unlink(f.name)
                return r, None, 'cvc5'
        if pr is not None:
            pr.kill()
            pr.wait()
            if os.path.exists(f.name):
                os.unlink(f.name)
        if r == z3.sat:
            return r, s2.model(), 'z3'
        if r == z3.unsat:
            return r, None, 'z3'
        return z3.unknown, None, 'none'

    def concretize(self, model):
        res = {}
        for name, dom, val in self.model_terms:
            try:
                res[name] = dom.concretize(model, val)
            except Exception as e:    # noqa
                res[name] = None
                res['__error__'] = repr(e)
        return res
