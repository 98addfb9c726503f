"""What the property modules in props/ are written with."""
import contextlib
import z3
import math
import types
import numpy as np
from . import engine as eng, shadow, sym, arr, npmodel
from .engine import Unsupported, SpecMismatch, PathEnd, zbool
from .sym import (Num, Bool, Int, Real, Boolean, lift, ite, term, iterm, and_, or_, not_, implies, iff, Inf)
from .arr import SArr, fresh_array, havoc_array, asarr, conc, in_range
from .shadow import LoopSpec, SSeq, SIter, SList, Codec, INT, REAL, seq_term, b_len

UNIT_SETS = []


class Unit(object):
    def __init__(self, name, fn, functions, timeout_ms=10000, max_paths=600, time_limit=240, tier='quick'):
        self.name, self.fn, self.functions = name, fn, functions
        self.timeout_ms, self.max_paths, self.time_limit, self.tier = timeout_ms, max_paths, time_limit, tier


def unit(registry, name, functions, **k):
    """decorator: register a proof unit; ``functions`` are the functions of /repo put under contract by it"""
    def deco(fn):
        registry.append(Unit(name, fn, list(functions), **k))
        return fn
    return deco


def run_unit(u, cross_check=False, timeout_scale=1.0):
    E = eng.Exec(u.name, timeout_ms=int(u.timeout_ms * timeout_scale), max_paths=u.max_paths,
                 cross_check=cross_check, time_limit=u.time_limit * timeout_scale)
    E.loops = {}
    E._undo = []
    try:
        for f in u.functions:
            mod, _, qn = f.partition(':')
            m = shadow.load(mod)
            base = qn.split('[')[0]
            if base not in m.__dict__['__vc_functions']:
                E.error = 'SpecMismatch: %s no longer defines %s' % (mod, base)
            E.functions.add(f)
        if E.error is None:
            def body(E_):
                E_.loops = {}
                E_.nested = {}
                try:
                    u.fn(E_)
                finally:
                    while E_._undo:
                        obj, name, old = E_._undo.pop()
                        setattr(obj, name, old)
            E.run(body)
    except Unsupported as e:
        E.error = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        import traceback
        E.error = 'unit failed: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    return E.summary()


# ---- helpers for units --------------------------------------------------------------------------------------------------
def M(name):
    """shadow module compiled from /repo's current source"""
    return shadow.load(name)


def patch(obj, name, value):
    """replace an attribute for the current path (used to put a callee's contract in place of its body)"""
    E = eng.CUR
    if not hasattr(obj, name):
        raise SpecMismatch('%r has no %r' % (obj, name))
    raw = obj.__dict__.get(name, getattr(obj, name)) if hasattr(obj, '__dict__') else getattr(obj, name)
    E._undo.append((obj, name, raw))
    setattr(obj, name, value)


def override(name, **attrs):
    """what ``import name`` in shadow code gives on this path (trusted contract of that library)"""
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    E = eng.CUR
    missing = object()
    old = shadow.OVERRIDES.get(name, missing)

    class Undo(object):
        def __setattr__(self, n, v):
            if old is missing:
                shadow.OVERRIDES.pop(name, None)
            else:
                shadow.OVERRIDES[name] = old
    shadow.OVERRIDES[name] = m
    E._undo.append((Undo(), 'x', None))
    return m


def lib_contract(name, fn):
    """trusted contract for a library function reached through numpy / math / an override module"""
    eng.CUR.memo[('stub', name)] = fn


def use(contract):
    eng.CUR.contracts_used.add(contract)


def forall(vs, body, patterns=()):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.ForAll([iterm(v) if not z3.is_expr(v) else v for v in vs], zbool(body), patterns=list(patterns))


def qint(name):
    return z3.Int(eng.CUR.fresh(name))


def expect(cond, msg='unexpected structure'):
    """structural facts the specification relies on, which are not themselves the property: undecided, not violated"""
    if not cond:
        raise SpecMismatch(msg)


def const(name, sort='i', cond=None):
    """a fresh arbitrary value (skolem constant) used to state a postcondition for 'every' index"""
    v = (Int if sort == 'i' else Real)(name)
    return v


def induct(E, name, P, lo, hi):
    """induction: proves P(lo) and P(w) => P(w+1) within lo <= w < hi (lo, hi terms); then P holds on all of it"""
    lo, hi = iterm(lo), iterm(hi)
    w = qint('ind')
    E.prove(name + ' (induction: base)', z3.Implies(lo < hi, P(lo)))
    E.prove(name + ' (induction: step)', z3.Implies(z3.And(lo <= w, w + 1 < hi, P(w)), P(w + 1)))
    q = qint('ind')
    E.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), P(q))))


def lemma(E, name, n, body, given=None):
    """a fact about integers, proved on its own (without the assumptions of the path); returns the function that assumes it
    for given terms.  given(*vs) -> facts from lemmas proved before, instantiated."""
    vs = [z3.Int('%s!%d' % (name, i)) for i in range(n)]
    keep, trail = E.pc, []
    E.pc = trail
    try:
        if given:
            trail.extend(zbool(x) for x in given(*vs))
        ok = E.prove('lemma ' + name, zbool(body(*vs)))
    finally:
        E.pc = keep

    def inst(*ts):
        c = zbool(body(*[iterm(t) for t in ts]))
        if ok:
            E.assume(c)
        return c
    return inst


def entails(E, name, facts, goal):
    """goal by way of the given facts: each fact is proved, then the goal from the facts alone"""
    facts = [zbool(f) for f in facts]
    for i, f in enumerate(facts):
        E.prove('%s (fact %d)' % (name, i), f)
    keep = E.pc
    E.pc = list(facts)
    try:
        ok = E.prove(name, goal)
    finally:
        E.pc = keep
    E.assume(goal)
    return ok


def raises(fn, *a, **k):
    """(value, exception) of a call in shadow code"""
    try:
        return fn(*a, **k), None
    except (Unsupported, SpecMismatch, PathEnd):
        raise
    except Exception as e:
        return None, e


def same(x, y):
    """equality of two scalars including NaN-ness"""
    x, y = lift(x), lift(y)
    return z3.And(zbool(x.isnan()) == zbool(y.isnan()),
                  z3.Or(zbool(x.isnan()), x.real() == y.real()))


class Duck(object):
    """An object of a shadow class with the given attributes (in place of running its constructor): attributes not given
    resolve to the class's own methods and properties, compiled from /repo's current source."""

    def __init__(self, cls, **attrs):
        self.__dict__['_duck_cls'] = cls
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        cls = self.__dict__['_duck_cls']
        for k in cls.__mro__:
            if n in k.__dict__:
                a = k.__dict__[n]
                if isinstance(a, property):
                    return a.fget(self)
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return a.__func__.__get__(cls)
                if callable(a):
                    return a.__get__(self)
                return a
        raise Unsupported('%s.%s is not part of the contract\'s frame' % (cls.__name__, n))

    def __setattr__(self, n, v):
        cls = self.__dict__['_duck_cls']
        for k in cls.__mro__:
            a = k.__dict__.get(n)
            if isinstance(a, property) and n not in self.__dict__:
                a.fset(self, v)
                return
        self.__dict__[n] = v

    def __getitem__(self, k):
        return self.__getattr__('__getitem__')(k)

    def _vc_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(q, type) and issubclass(self.__dict__['_duck_cls'], q) for q in ts) or None
