"""
Path-exploring VC generator.

A *unit* is a Python function ``unit(E)`` which builds symbolic inputs satisfying a precondition, calls the function
under contract (the shadow copy compiled from /repo's current source, see shadow.py) and states the postcondition with
``E.prove(name, cond)``.  The unit is executed once per control path; every symbolic branch is decided by an oracle
whose choices are enumerated depth first (both sides explored unless the solver shows one of them infeasible).  Loops
over symbolic iterables are cut at an invariant (see shadow.py / Loop), so there is no bound on iterations or sizes.
"""
import os
import subprocess
import sys
import tempfile
import time
import z3


class PathEnd(BaseException):
    """The current path is complete (loop-body path after its invariant has been proved, infeasible path...)."""


class Unsupported(BaseException):
    """The code left the subset the verifier understands: the unit is undecided, never a violation."""


class SpecMismatch(Unsupported):
    """A sidecar annotation (loop invariant, stub) does not fit the current code."""


CUR = None   # the Exec of the unit being explored


class Obligation(object):
    __slots__ = ('name', 'status', 'backend', 'seconds', 'model', 'detail', 'path')

    def __init__(self, name, status, backend, seconds, model=None, detail='', path=''):
        self.name, self.status, self.backend, self.seconds = name, status, backend, seconds
        self.model, self.detail, self.path = model, detail, path

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend, seconds=round(self.seconds, 4),
                    model=self.model, detail=self.detail[:4000], path=self.path)


def _smt2(assertions, goal_neg):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    s.add(goal_neg)
    return s.to_smt2()


def cvc5_check(smt2, timeout_s):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % int(timeout_s * 1000), name],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout_s + 10)
        out = p.stdout.decode(errors='replace').strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat', 'unknown') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)


_ABS = {}


class NonlinearAbstraction(object):
    def __init__(self):
        self.used = False

    def __call__(self, e):
        key = e.get_id()
        hit = _ABS.get(key)
        if hit is None or not hit[0].eq(e):
            hit = _ABS[key] = (e,) + self._rw(e)
            if len(_ABS) > 200000:
                _ABS.clear()
        self.used = self.used or hit[2]
        return hit[1]

    def _rw(self, e):
        """(rewritten term, whether anything was abstracted)"""
        if z3.is_quantifier(e):
            if not e.is_forall() and not e.is_exists():
                return e, False
            vs = [z3.Const('q!%d!%s' % (e.get_id(), e.var_name(i)), e.var_sort(i)) for i in range(e.num_vars())]
            back = list(reversed(vs))
            sub = NonlinearAbstraction()
            body = sub(z3.substitute_vars(e.body(), *back))
            if not sub.used:
                return e, False
            pats = []
            for i in range(e.num_patterns()):
                p = e.pattern(i)
                pats.append(z3.MultiPattern(*[sub(z3.substitute_vars(c, *back)) for c in p.children()]))
            mk = z3.ForAll if e.is_forall() else z3.Exists
            return mk(vs, body, patterns=pats), True
        if not z3.is_app(e) or e.num_args() == 0:
            return e, False
        sub = NonlinearAbstraction()
        args = [sub(c) for c in e.children()]
        k = e.decl().kind()
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_numeral(args[1]):
            f = z3.Function('nl_%d_%s' % (k, e.sort().name()), args[0].sort(), args[1].sort(), e.sort())
            return f(*args), True
        if k == z3.Z3_OP_MUL:
            var = [a for a in args if not is_numeral(a)]
            if len(var) > 1:
                f = z3.Function('nl_mul_' + e.sort().name(), e.sort(), e.sort(), e.sort())
                var = sorted(var, key=lambda a: a.get_id())
                r = var[0]
                for a in var[1:]:
                    r = f(r, a)
                for a in args:
                    if is_numeral(a):
                        r = a * r
                return r, True
        if not sub.used:
            return e, False
        return e.decl()(*args), True


def is_numeral(a):
    return z3.is_rational_value(a) or z3.is_int_value(a) or (
        z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(a.arg(0))) or (
        z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS and is_numeral(a.arg(0)))


class Exec(object):
    """Exploration of all the paths of one unit."""

    def __init__(self, name, timeout_ms=10000, max_paths=600, cross_check=False, time_limit=240):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.cross_check = cross_check
        self.time_limit = time_limit
        self.obligations = []
        self.axioms = set()
        self.trusted = set()
        self.contracts_used = set()
        self.functions = set()
        self.paths = 0
        self.completed_paths = 0
        self.covers = {}
        self.error = None
        self.solver_s = 0.0
        self.t0 = time.time()

    # ---- driver -----------------------------------------------------------------------------------------------
    def run(self, fn):
        global CUR
        worklist = [[]]
        try:
            while worklist:
                prefix = worklist.pop()
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported('more than %d paths' % self.max_paths)
                self._begin(prefix)
                CUR = self
                try:
                    fn(self)
                    self.completed_paths += 1
                    self._cover('end')
                    self._end_of_path()
                except PathEnd:
                    pass
                finally:
                    CUR = None
                for i in range(len(prefix), len(self.decisions)):
                    if self.open[i]:
                        worklist.append(self.decisions[:i] + [not self.decisions[i]])
        except Unsupported as e:
            self.error = '%s: %s' % (type(e).__name__, e)
        except RecursionError as e:
            self.error = 'RecursionError'
        except Exception as e:      # the shadow code (or the unit) raised something the unit did not expect
            import traceback
            self.error = 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
            self.error_kind = 'exception'
        return self

    def _begin(self, prefix):
        self.decisions = list(prefix)
        self.open = [False] * len(prefix)
        self.pos = 0
        self.pc = []
        self.counter = {}
        self.memo = {}
        self.inputs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.trail = []
        self.user = {}              # index in pc -> line of the proof function which assumes it

    # ---- symbols ----------------------------------------------------------------------------------------------
    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else '%s!%d' % (name, n)

    def input(self, name, term):
        self.inputs[name] = term
        return term

    # ---- assumptions and branching --------------------------------------------------------------------------------
    def assume(self, cond):
        cond = zbool(cond)
        if z3.is_true(cond):
            return
        if '/props/' in sys._getframe(1).f_code.co_filename:
            fr = sys._getframe(1)
            self.user[len(self.pc)] = '%s:%d' % (os.path.basename(fr.f_code.co_filename), fr.f_lineno)
        self.pc.append(cond)
        self.solver.add(cond)

    def restrict(self, cond):
        """Consider the executions for which cond holds only (there may be none along this path)."""
        self.assume(cond)

    def _end_of_path(self):
        """An assumption of the proof function which no execution along this path satisfies (made about a result, say) would
        make the obligations after it vacuous: that is a failed obligation."""
        def unsat(k):
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(self.pc[:k])
            return s.check() == z3.unsat
        if not self.user or not unsat(len(self.pc)):
            return
        lo, hi = 0, len(self.pc)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            lo, hi = (lo, mid) if unsat(mid) else (mid, hi)
        if hi - 1 in self.user:
            self.obligations.append(Obligation(
                '%s/results admitted by what the contract assumes (%s)' % (self.name, self.user[hi - 1]), 'refuted', 'z3', 0.0, None,
                'no execution along this path satisfies the assumption', ''.join('T' if d else 'F' for d in self.decisions)))

    def axiom(self, text, cond):
        """An assumption about a dependency (trusted contract)."""
        self.axioms.add(text)
        self.assume(cond)

    def feasible(self, cond, ms=1500):
        t = time.time()
        self.solver.push()
        self.solver.set('timeout', ms)
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        self.solver_s += time.time() - t
        return r

    def _branches(self, cond):
        """which of cond / not cond may hold (an infeasible branch that is not recognised as such is harmless: everything
        on it can be discharged)"""
        neg = z3.Not(cond)
        f = self.feasible(neg, 250)
        if f == z3.unsat:
            return True, False
        t = self.feasible(cond, 250)
        if t == z3.unsat:
            return False, True
        if f == z3.unknown and self.feasible(neg) == z3.unsat:
            return True, False
        if t == z3.unknown and self.feasible(cond) == z3.unsat:
            return False, True
        return True, True

    def decide(self, cond):
        cond = z3.simplify(zbool(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if time.time() - self.t0 > self.time_limit:
            raise Unsupported('time limit')
        key = cond.get_id()
        if self.pos < len(self.decisions):
            choice = self.decisions[self.pos]
        else:
            t, f = self._branches(cond)
            choice = t
            self.decisions.append(choice)
            self.open.append(t and f)
        self.pos += 1
        self.pc.append(cond if choice else z3.Not(cond))
        self.solver.add(self.pc[-1])
        return choice

    def choose(self, name='nondet'):
        """A free (demonic) choice."""
        return self.decide(z3.Bool(self.fresh('choice_' + name)))

    def stop(self):
        raise PathEnd()

    # ---- obligations ----------------------------------------------------------------------------------------------
    def _cover(self, label):
        if self.covers.get(label):
            return
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(self.pc)
        self.covers[label] = (s.check() != z3.unsat)

    def cover(self, label='precondition'):
        self._cover(label)

    def prove(self, name, cond):
        """An obligation: pc => cond.  Recorded; after a failure the path continues with cond assumed."""
        full = '%s/%s' % (self.name, name)
        cond = zbool(cond)
        t = time.time()
        if t - self.t0 > 2 * self.time_limit:
            raise Unsupported('time limit')
        status, backend, model, detail = self._solve(z3.Not(cond))
        dt = time.time() - t
        self.solver_s += dt
        self.obligations.append(Obligation(full, status, backend, dt, model, detail,
                                           ''.join('T' if d else 'F' for d in self.decisions)))
        self.assume(cond)
        return status == 'discharged'

    def _solve(self, neg):
        if z3.is_false(z3.simplify(neg)):
            return 'discharged', 'z3-simplify', None, ''
        ab = NonlinearAbstraction()
        fs = [ab(f) for f in self.pc] + [ab(neg)]
        if ab.used:
            # products and quotients of variables as uninterpreted functions: weaker assumptions, so unsat carries over
            s = z3.Solver()
            s.set('timeout', min(4000, self.timeout_ms))
            s.add(fs)
            if s.check() == z3.unsat:
                return 'discharged', 'z3', None, ''
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(self.pc)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            if self.cross_check:
                c = cvc5_check(_smt2(self.pc, neg), self.timeout_ms / 1000.)
                if c == 'sat':
                    return 'unknown', 'z3/cvc5 disagree', None, ''
                return 'discharged', 'z3+cvc5' if c == 'unsat' else 'z3', None, ''
            return 'discharged', 'z3', None, ''
        if r == z3.sat:
            m = s.model()
            vals = {}
            for k, v in self.inputs.items():
                try:
                    vals[k] = v(m) if callable(v) else model_value(m, v)
                except Exception as e:
                    vals[k] = '?%s' % e
            # with quantified assumptions a z3 "sat" is still a checked model
            return 'refuted', 'z3', vals, str(m)
        c = cvc5_check(_smt2(self.pc, neg), self.timeout_ms / 1000.)
        if c == 'unsat':
            return 'discharged', 'cvc5', None, ''
        if c == 'sat':
            return 'refuted', 'cvc5', {}, 'cvc5: sat'
        return 'unknown', 'z3+cvc5', None, s.reason_unknown()

    # ---- results --------------------------------------------------------------------------------------------------
    def summary(self):
        obl = [o.as_dict() for o in self.obligations]
        st = 'discharged'
        if any(o.status == 'refuted' for o in self.obligations):
            st = 'refuted'
        elif self.error is not None:
            st = 'undecided'
        elif any(o.status != 'discharged' for o in self.obligations):
            st = 'undecided'
        elif not self.obligations or not all(self.covers.values()) or not self.covers:
            st = 'vacuous'
        return dict(unit=self.name, status=st, error=self.error, paths=self.paths, completed=self.completed_paths,
                    obligations=obl, axioms=sorted(self.axioms), functions=sorted(self.functions),
                    contracts=sorted(self.contracts_used), covers=self.covers, solver_s=round(self.solver_s, 3),
                    wall_s=round(time.time() - self.t0, 3))


def model_value(m, v):
    v = getattr(v, 'e', v)
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return float(r.as_fraction())
    if z3.is_algebraic_value(r):
        return float(r.approx(12).as_fraction())
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_string_value(r):
        return r.as_string()
    return str(r)


def zbool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if hasattr(c, 'e'):
        e = c.e
        if z3.is_bool(e):
            return e
        return e != 0
    if z3.is_expr(c):
        return c
    try:
        import numpy as np
        if isinstance(c, np.bool_):
            return z3.BoolVal(bool(c))
    except ImportError:
        pass
    raise Unsupported('not a condition: %r' % (c,))
