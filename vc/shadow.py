"""
Shadow modules: every module of cis is parsed from /repo's current source on every run, its AST is transformed
mechanically and the result is executed in place of the module.  Names that leave cis resolve to the models in
npmodel.py (numpy, numpy.ma, math) or to the real library.  The transformation

  * turns ``for``/``while`` statements into a form in which a loop over a *symbolic* iterable (or a loop for which a
    contract is registered) is cut at its invariant, while loops over concrete iterables run unchanged;
  * turns single-generator comprehensions into calls of the runtime (same meaning on concrete iterables);
  * replaces the builtins len, int, float, range, enumerate, zip, isinstance, min, max, sum, any, all, sorted, list,
    tuple, next, iter, str, round, bool by versions that also accept symbolic values.

Nothing else is changed: control flow, classes, closures, exceptions and generators are CPython's own.
"""
import ast
import builtins
import copy
import hashlib
import importlib
import os
import sys
import types
import z3
from . import engine as eng, REPO
from .engine import PathEnd, Unsupported, SpecMismatch, zbool
from .sym import Num, Bool, Sym, Int, Real, Boolean, lift, ite, is_sym, iterm, Inf
from . import sym, arr, npmodel
from .arr import SArr, conc

LOOPS = {}          # (module, qualname, ordinal) -> LoopSpec   (registered by contract modules)
MODULES = {}        # shadow modules by name
SOURCES = {}        # module -> sha256 of the source text
OVERRIDES = {}      # module name -> object returned for an import of it from shadow code


class LoopSpec(object):
    """inv(E, L, k) -> list of (name, condition); k = number of completed iterations.
    havoc: local name -> function(E, current value, k) giving an arbitrary value of the right shape.
    havoc_obj(E, L, k): havoc heap objects in place, returns the objects it changed."""

    def __init__(self, inv, havoc=None, havoc_obj=None, n=None):
        self.inv, self.havoc, self.havoc_obj, self.n = inv, havoc or {}, havoc_obj, n


class NS(object):
    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, n):
        raise SpecMismatch('the loop invariant refers to %r, which is not defined here' % n)


class _Unbound(object):
    _vc_symbolic = True

    def __getattr__(self, n):
        raise Unsupported('use of a loop variable before assignment')


# ---- symbolic sequences -----------------------------------------------------------------------------------------------
class SSeq(object):
    """immutable sequence of symbolic length"""
    _vc_symbolic = True

    def __init__(self, n, get):
        self.n, self.get = n, get

    def __iter__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported('native iteration over a symbolic sequence')
        return iter([self.get(z3.IntVal(i)) for i in range(c)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice of symbolic sequence')
            lo = lift(i.start or 0)
            hi = lift(self.n if i.stop is None else i.stop)
            if z3.is_false(z3.simplify(lo.e >= 0)) or z3.is_false(z3.simplify(hi.e >= 0)):
                raise Unsupported('negative slice')
            g = self.get
            n = lift(self.n)
            lo2 = Num(z3.If(lo.e > n.e, n.e, lo.e))
            hi2 = Num(z3.If(hi.e > n.e, n.e, hi.e))
            return SSeq(Num(z3.simplify(z3.If(hi2.e > lo2.e, hi2.e - lo2.e, 0))), lambda k: g(k + lo2.e))
        i = lift(i)
        n = lift(self.n)
        if not eng.CUR.decide(z3.And(i.e >= -n.e, i.e < n.e)):
            raise IndexError('index out of range')
        return self.get(z3.simplify(z3.If(i.e < 0, i.e + n.e, i.e)))

    def __len__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported('len() escaping to C')
        return c

    def __bool__(self):
        return bool(lift(self.n) != 0)

    def __deepcopy__(self, memo):
        return self


class SIter(object):
    """iterator over an SSeq"""
    _vc_symbolic = True

    def __init__(self, seq, pos=None):
        self.seq, self.pos = seq, lift(0) if pos is None else pos

    def __iter__(self):
        return self

    def __next__(self):
        if not eng.CUR.decide(self.pos.e < lift(self.seq.n).e):
            raise StopIteration
        v = self.seq.get(z3.simplify(self.pos.e))
        self.pos = self.pos + 1
        return v


class SGen(object):
    """generator expression over a symbolic sequence"""
    _vc_symbolic = True

    def __init__(self, seq, elt):
        self.seq, self.elt = seq, elt

    def as_seq(self):
        g = self.seq.get
        return SSeq(self.seq.n, lambda k: self.elt(g(k)))

    def __iter__(self):
        return SIter(self.as_seq())


class Codec(object):
    def __init__(self, sort, enc, dec):
        self.sort, self.enc, self.dec = sort, enc, dec


INT = Codec(z3.IntSort(), lambda v: iterm(v), lambda t: Num(t))
REAL = Codec(z3.RealSort(), lambda v: lift(v).real(), lambda t: Num(t))
STR = Codec(z3.StringSort(), lambda v: z3.StringVal(v) if isinstance(v, str) else v.e, None)


class SList(object):
    """mutable list of symbolic length with elements encoded in a z3 sequence"""
    _vc_symbolic = True

    def __init__(self, codec, seq=None):
        self.codec = codec
        self.seq = z3.Empty(z3.SeqSort(codec.sort)) if seq is None else seq

    def append(self, v):
        self.seq = z3.Concat(self.seq, z3.Unit(self.codec.enc(v)))

    def extend(self, o):
        self.seq = z3.Concat(self.seq, seq_term(o, self.codec))

    def __iadd__(self, o):
        self.extend(o)
        return self

    @property
    def n(self):
        return Num(z3.Length(self.seq))

    def get(self, k):
        return self.codec.dec(self.seq[iterm(k)])

    def __getitem__(self, i):
        return SSeq(self.n, self.get)[i]

    def __iter__(self):
        return SIter(SSeq(self.n, self.get))

    def __bool__(self):
        return bool(self.n != 0)

    def __len__(self):
        raise Unsupported('len() escaping to C')


def seq_term(v, codec):
    if isinstance(v, SList):
        return v.seq
    if isinstance(v, (list, tuple)) or hasattr(v, '__iter__'):
        r = z3.Empty(z3.SeqSort(codec.sort))
        for x in v:
            r = z3.Concat(r, z3.Unit(codec.enc(x)))
        return r
    raise Unsupported('as sequence: %r' % (v,))


def as_seq(x):
    """SSeq view of a symbolic iterable, or None when it is concrete"""
    if isinstance(x, SSeq):
        return x
    if isinstance(x, SIter):
        if conc(x.pos) == 0:
            return x.seq
        s, p = x.seq, x.pos
        n = lift(s.n)
        return SSeq(Num(z3.simplify(z3.If(n.e > p.e, n.e - p.e, 0))), lambda k: s.get(k + p.e))
    if isinstance(x, SGen):
        return x.as_seq()
    if isinstance(x, SList):
        seq, codec = x.seq, x.codec
        return SSeq(Num(z3.Length(seq)), lambda k: codec.dec(seq[k]))
    if isinstance(x, SArr):
        if x.ndim != 1:
            if conc(x.shape[0]) is None:
                return SSeq(x.shape[0], lambda k: x[Num(k)])
            return None
        if conc(x.shape[0]) is not None:
            return None
        f, mf = x._snapshot(), x._mask_snapshot()

        def get(k):
            if mf is not None and eng.CUR.decide(zbool(mf((k,)))):
                return npmodel.np.ma.masked
            return f((k,))
        return SSeq(x.shape[0], get)
    if hasattr(x, '_vc_seq'):
        return x._vc_seq()
    return None


# ---- builtins ---------------------------------------------------------------------------------------------------------
def b_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, (SSeq, SList)):
        return x.n
    if hasattr(x, '_vc_len'):
        return x._vc_len()
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):      # shadow class: may return a symbolic length
        return f(x)
    return len(x)


def b_range(*a):
    if not any(isinstance(v, Num) for v in a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = lift(0), lift(a[0]), 1
    else:
        lo, hi, st = lift(a[0]), lift(a[1]), conc(a[2]) if len(a) > 2 else 1
    cl, ch = conc(lo), conc(hi)
    if cl is not None and ch is not None and st is not None:
        return range(cl, ch, st)
    if st == 1:
        return SSeq(Num(z3.simplify(z3.If(hi.e > lo.e, hi.e - lo.e, 0))), lambda k: Num(z3.simplify(lo.e + k)))
    if st == -1:
        return SSeq(Num(z3.simplify(z3.If(lo.e > hi.e, lo.e - hi.e, 0))), lambda k: Num(z3.simplify(lo.e - k)))
    raise Unsupported('range step')


def b_enumerate(x, start=0):
    s = as_seq(x)
    if s is None:
        return enumerate(x, start)
    return SSeq(s.n, lambda k: (Num(z3.simplify(k + iterm(start))), s.get(k)))


def b_zip(*xs):
    ss = [as_seq(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs)
    if any(s is None for s in ss):
        # lengths decided by the concrete ones
        c = min(len(list(x)) for x, s in builtins.zip(xs, ss) if s is None)
        raise Unsupported('zip of symbolic and concrete')
    n = lift(ss[0].n)
    for s in ss[1:]:
        m = lift(s.n)
        n = Num(z3.simplify(z3.If(m.e < n.e, m.e, n.e)))
    return SSeq(n, lambda k: tuple(s.get(k) for s in ss))


def b_isinstance(x, t):
    if isinstance(x, (Num, Bool)):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if isinstance(q, tuple):
                if b_isinstance(x, q):
                    return True
                continue
            if isinstance(x, Bool) and q in (bool, int):
                return True
            if isinstance(x, Num) and (q is int and x.is_int or q is float and not x.is_int or q is sym.numbers.Number):
                return True
            if isinstance(q, type) and isinstance(x, q):
                return True
        return False
    if isinstance(x, (SList, SSeq)):
        ts = t if isinstance(t, tuple) else (t,)
        return list in ts or isinstance(x, t)
    if hasattr(x, '_vc_isinstance'):
        r = x._vc_isinstance(t)
        if r is not None:
            return r
    t2 = tuple(_untype(q) for q in t) if isinstance(t, tuple) else _untype(t)
    return isinstance(x, t2)


def _untype(t):
    return {b_int: int, b_float: float, b_str: str, b_list: list, b_tuple: tuple, b_bool: bool}.get(t, t) \
        if isinstance(t, types.FunctionType) else t


class _TypeProxyMeta(type):
    pass


def _typeproxy(name, real, conv):
    """callable type stand-in which still works in isinstance and as a dtype"""
    class Meta(type):
        def __call__(cls, *a, **k):
            return conv(*a, **k)

        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __eq__(cls, o):
            return o is real or o is cls

        def __hash__(cls):
            return hash(real)
    return Meta(name, (), {'_real': real})


def b_int(x=0, *a):
    if isinstance(x, Num):
        return x.toint()
    if isinstance(x, Bool):
        return x.num()
    if hasattr(x, '_vc_int'):
        return x._vc_int()
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, Num):
        return x.tofloat()
    if isinstance(x, Bool):
        return x.num().tofloat()
    if hasattr(x, '_vc_float'):
        return x._vc_float()
    return float(x)


def b_bool(x=False):
    return bool(x)


def b_str(x='', *a):
    if isinstance(x, (Num, Bool)):
        raise Unsupported('str() of a symbolic value')
    if hasattr(x, '_vc_str'):
        return x._vc_str()
    return str(x, *a)


def b_list(x=()):
    s = as_seq(x)
    if s is not None:
        return SSeq(s.n, s.get)
    return list(x)


def b_tuple(x=()):
    s = as_seq(x)
    if s is not None:
        return SSeq(s.n, s.get)
    return tuple(x)


def b_min(*a, **k):
    if len(a) == 1:
        s = as_seq(a[0])
        if s is not None:
            raise Unsupported('min of symbolic sequence')
        a = tuple(a[0])
    return _fold_minmax(a, k, True)


def b_max(*a, **k):
    if len(a) == 1:
        s = as_seq(a[0])
        if s is not None:
            raise Unsupported('max of symbolic sequence')
        a = tuple(a[0])
    return _fold_minmax(a, k, False)


def _fold_minmax(a, k, lo):
    if not npmodel.has_sym(a) or k:
        return (min if lo else max)(a, **k)
    r = a[0]
    for x in a[1:]:
        # min keeps the first of equal elements
        c = (lift(x) < r) if lo else (lift(x) > r)
        r = ite(c, x, r)
    return r


def b_sum(x, start=0):
    if as_seq(x) is not None:
        raise Unsupported('sum of symbolic sequence')
    return sum(x, start)


def b_all(x):
    s = as_seq(x)
    if s is None:
        return all(x)
    k = z3.Int(eng.CUR.fresh('all'))
    return Bool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lift(s.n).e), zbool(_pure(s, k)))))


def b_any(x):
    s = as_seq(x)
    if s is None:
        return any(x)
    k = z3.Int(eng.CUR.fresh('any'))
    return Bool(z3.Exists([k], z3.And(k >= 0, k < lift(s.n).e, zbool(_pure(s, k)))))


def _pure(s, k):
    E = eng.CUR
    n = len(E.decisions)
    v = s.get(k)
    if len(E.decisions) != n or E.pos != n:
        raise Unsupported('branching inside a quantified generator')
    return v


def b_sorted(x, **k):
    if as_seq(x) is not None:
        raise Unsupported('sorted of symbolic sequence')
    return sorted(x, **k)


def b_next(it, *d):
    return next(it, *d)


def b_iter(x, *a):
    s = as_seq(x)
    if s is not None:
        return x if isinstance(x, SIter) else SIter(s)
    return iter(x, *a)


def b_round(x, *a):
    if isinstance(x, Num):
        r = npmodel._rnd('even', x, *a)
        return r if a else Num(z3.ToInt(r.real()))
    return round(x, *a)


def b_reversed(x):
    s = as_seq(x)
    if s is not None:
        n = lift(s.n)
        return SSeq(s.n, lambda k: s.get(n.e - 1 - k))
    return reversed(x)


def b_map(f, *xs):
    if any(as_seq(x) is not None for x in xs):
        z = b_zip(*xs)
        return SSeq(z.n, lambda k: f(*z.get(k)))
    return map(f, *xs)


def b_open(*a, **k):
    raise Unsupported('open() in shadow code')


_bi = dict(builtins.__dict__)
for _n in ('len', 'range', 'enumerate', 'zip', 'isinstance', 'min', 'max', 'sum', 'all', 'any', 'sorted', 'next',
           'iter', 'round', 'reversed', 'map', 'open'):
    _bi[_n] = globals()['b_' + _n]
_bi['int'] = _typeproxy('int', int, b_int)
_bi['float'] = _typeproxy('float', float, b_float)
_bi['str'] = _typeproxy('str', str, b_str)
_bi['bool'] = _typeproxy('bool', bool, b_bool)
_bi['list'] = list      # classes derive from list; see b_list in the transformed calls
_bi['tuple'] = tuple


def _fix_types(t):
    return getattr(t, '_real', t)


_oldinst = b_isinstance


def b_isinstance2(x, t):
    if isinstance(t, tuple):
        t = tuple(_fix_types(q) for q in t)
    else:
        t = _fix_types(t)
    return _oldinst(x, t)


_bi['isinstance'] = b_isinstance2


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals['__name__'] if '__path__' in globals else globals['__name__'].rpartition('.')[0]
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        name = pkg + ('.' + name if name else '')
    if name == 'numpy' or name.startswith('numpy.'):
        if name == 'numpy':
            return npmodel.np_mod
        if name == 'numpy.ma':
            return npmodel.ma_mod if fromlist else npmodel.np_mod
        importlib.import_module(name)
        return sys.modules[name] if fromlist else npmodel.np_mod
    if name == 'math':
        return npmodel.math_mod
    if name in OVERRIDES:
        return OVERRIDES[name]
    if name == 'cis' or name.startswith('cis.'):
        m = load(name)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f) and os.path.exists(_path(name + '.' + f) or ''):
                    setattr(m, f, load(name + '.' + f))
            return m
        return load('cis')
    return builtins.__import__(name, globals, locals, fromlist, 0)


_bi['__import__'] = _import


# ---- AST transformation -------------------------------------------------------------------------------------------------
class Xform(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.qual = []
        self.kind = []
        self.ord = [0]
        self.uid = 0
        self.functions = {}

    def _scope(self, node, sep):
        self.qual.append(node.name)
        self.ord.append(0)
        self.functions['.'.join(self.qual)] = (node.lineno, getattr(node, 'end_lineno', node.lineno))
        self.generic_visit(node)
        self.ord.pop()
        self.qual.pop()
        return node

    def visit_FunctionDef(self, node):
        inner = bool(self.kind) and self.kind[-1] == 'f'
        qn = '.'.join(self.qual + [node.name])
        self.kind.append('f')
        node = self._scope(node, '.')
        self.kind.pop()
        if inner:       # a function local to a function: a unit may put its contract in place of recursive calls
            node.decorator_list.append(ast.parse('__rt__.nested(%r)' % ((self.module, qn),)).body[0].value)
        return node

    def visit_ClassDef(self, node):
        self.kind.append('c')
        node = self._scope(node, '.')
        self.kind.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def _loop(self, node):
        k = self.ord[-1]
        self.ord[-1] += 1
        self.uid += 1
        uid = self.uid
        key = (self.module, '.'.join(self.qual), k)
        names = sorted(assigned(node))
        self.generic_visit(node)
        it, br, once = '__it%d__' % uid, '__br%d__' % uid, '__on%d__' % uid
        body = [BreakX(br).visit(copy.deepcopy(s)) for s in node.body]
        tmpl_havoc = ('(%s,) = %s.havoc((%s,), locals())' % (','.join(names), it, ','.join(map(repr, names)))
                      if names else '%s.havoc((), locals())' % it)
        P = lambda s: ast.parse(s).body
        is_for = isinstance(node, ast.For)
        if is_for:
            head = P('%s = __rt__.loop(%r, 0)' % (it, key))
            head[0].value.args[1] = copy.deepcopy(node.iter)
        else:
            head = P('%s = __rt__.loop_while(%r)' % (it, key))
        sym_body = P('%s.entry(locals())' % it) + P(tmpl_havoc)
        if is_for:
            guard = P('%s.more(locals())' % it)[0].value
            assign = P('__x__ = %s.element()' % it)
            assign[0].targets = [copy.deepcopy(node.target)]
        else:
            guard = P('%s.assume_inv(locals()) and (0)' % it)[0].value
            guard.values[1] = copy.deepcopy(node.test)
            assign = []
        once_for = ast.For(target=ast.Name(once, ast.Store()), iter=ast.Tuple([ast.Constant(0)], ast.Load()),
                           body=body, orelse=[])
        then = assign + P('%s.begin(locals())' % it) + P('%s = False' % br) + [once_for] + \
            P('if not %s: %s.end(locals())' % (br, it)) + P('break')
        els = P('%s.exit(locals())' % it) + copy.deepcopy(node.orelse) + [ast.Break()]
        sym = ast.While(test=ast.Constant(True), body=sym_body + [ast.If(test=guard, body=then, orelse=els)], orelse=[])
        if is_for:
            node.iter = P('%s.concrete' % it)[0].value
        test = P('%s.symbolic' % it)[0].value
        return head + [ast.If(test=test, body=[sym], orelse=[node])]

    visit_For = _loop
    visit_While = _loop

    def _comp(self, node, fn):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if any(isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)) for n in ast.walk(node)):
            return node
        arg = ast.Name('__e', ast.Param())
        # comprehension kept as is on concrete iterables; lifted to the runtime on symbolic ones
        lam_elt = _lam(g.target, node.elt)
        lam_ifs = _lam(g.target, ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0]) if g.ifs \
            else ast.Constant(None)
        if lam_elt is None or lam_ifs is None:
            return node
        call = ast.parse('__rt__.%s(0, 0, 0)' % fn).body[0].value
        call.args = [g.iter, lam_elt, lam_ifs]
        return call

    def visit_ListComp(self, node):
        return self._comp(node, 'listcomp')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'genexp')

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple') and len(node.args) == 1 \
                and not node.keywords:
            node.func = ast.parse('__rt__.b_%s' % node.func.id).body[0].value
        return node


def _lam(target, expr):
    """lambda taking one element and unpacking it into the target names"""
    def conv(t):
        if isinstance(t, ast.Name):
            return t.id
        return None
    if isinstance(target, ast.Name):
        a = ast.arguments(posonlyargs=[], args=[ast.arg(target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
        return ast.Lambda(a, copy.deepcopy(expr))
    if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(t, ast.Name) for t in target.elts):
        a = ast.arguments(posonlyargs=[], args=[ast.arg(t.id) for t in target.elts], kwonlyargs=[], kw_defaults=[],
                          defaults=[])
        inner = ast.Lambda(a, copy.deepcopy(expr))
        outer = ast.parse('lambda __e__: (0)(*__e__)').body[0].value
        outer.body.func = inner
        return outer
    return None


class BreakX(ast.NodeTransformer):
    """break of the outermost loop body -> flag + break"""

    def __init__(self, flag):
        self.flag = flag

    def visit_For(self, n):
        return n

    def visit_While(self, n):
        # loops produced by the transformation of inner loops are whole loops: their breaks are their own
        return n

    def visit_FunctionDef(self, n):
        return n
    visit_ClassDef = visit_FunctionDef
    visit_Lambda = visit_FunctionDef

    def visit_Break(self, n):
        return ast.parse('%s = True' % self.flag).body + [n]


def assigned(node):
    """names (re)bound anywhere inside a loop (not in nested functions)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _c(self, n):
            # comprehension targets are local to the comprehension
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _c

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Call(self, n):
            # a heap is modelled by a value of another kind: it counts as rebound where it is changed
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if f in ('heappush', 'heappop', 'heappushpop', 'heapreplace') and n.args and isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
            self.generic_visit(n)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    for s in node.body + node.orelse:
        V().visit(s)
    if isinstance(node, ast.For):
        V().visit(node.target)
    return out


# ---- loop runtime -------------------------------------------------------------------------------------------------------
def frame(obj, depth=4, seen=None, out=None):
    """identity snapshot of the heap reachable from a value"""
    if out is None:
        out, seen = {}, {}
    if id(obj) in seen or depth < 0:
        return out
    seen[id(obj)] = obj
    if isinstance(obj, (list, tuple)):
        if isinstance(obj, list):
            out[id(obj)] = (obj, [id(x) for x in obj], list(obj))
        for x in list(obj)[:50]:
            frame(x, depth - 1, seen, out)
    elif isinstance(obj, dict):
        out[id(obj)] = (obj, [(id(k), id(v)) for k, v in obj.items()], list(obj.items()))
        for x in list(obj.values())[:50]:
            frame(x, depth - 1, seen, out)
    elif isinstance(obj, SArr):
        out[id(obj)] = (obj, (id(obj.buf), id(obj.buf.fn), id(obj.mbuf), id(obj.mbuf.fn) if obj.mbuf else 0),
                        (obj.buf.fn, obj.mbuf, obj.mbuf.fn if obj.mbuf else None))
    elif isinstance(obj, SList):
        out[id(obj)] = (obj, obj.seq.get_id(), obj.seq)
    elif isinstance(obj, SIter):
        out[id(obj)] = (obj, id(obj.pos), obj.pos)
    elif hasattr(obj, '__dict__') and not isinstance(obj, (type, types.ModuleType, types.FunctionType)):
        d = vars(obj)
        out[id(obj)] = (obj, sorted((k, id(v)) for k, v in d.items()), list(d.items()))
        for x in list(d.values())[:50]:
            frame(x, depth - 1, seen, out)
    return out


def frame_now(obj):
    return frame(obj, 0, {}, {}).get(id(obj), (None, None))[1]


class Loop(object):
    def __init__(self, key, seq=None, concrete=None, spec=None):
        self.key, self.seq, self.concrete, self.spec = key, seq, concrete, spec
        self.symbolic = spec is not None
        self.name = 'loop %s#%d' % (key[1], key[2])

    def ns(self, loc):
        return NS({k: v for k, v in loc.items() if not k.startswith('__')})

    def _inv(self, loc, k):
        if self.n is not None:
            E = eng.CUR
        return self.spec.inv(eng.CUR, self.ns(loc), k)

    def entry(self, loc):
        E = eng.CUR
        self.n = lift(self.seq.n) if self.seq is not None else None
        for nm, c in self._inv(loc, lift(0)):
            E.prove('%s: invariant on entry: %s' % (self.name, nm), c)

    def havoc(self, names, loc):
        E = eng.CUR
        self.k = Int('k_%s' % self.key[1].split('.')[-1], track=False)
        E.assume(self.k.e >= 0)
        out = []
        for n in names:
            cur = loc.get(n, None)
            if n in self.spec.havoc:
                v = self.spec.havoc[n](E, cur, self.k)
            elif n not in loc:
                v = _Unbound()
            else:
                v = havoc_value(n, cur)
            out.append(v)
        for n in self.spec.havoc:
            if n not in names and n not in loc:
                raise SpecMismatch('havoc of %r, which does not exist' % n)
        # mutable locals that the loop mutates without rebinding
        self.inplace = {}
        for n in self.spec.havoc:
            if n not in names:
                self.inplace[n] = self.spec.havoc[n](E, loc[n], self.k)
                if self.inplace[n] is not loc[n]:
                    raise SpecMismatch('%r must be havocked in place' % n)
        self.changed = list(self.inplace.values())
        if self.spec.havoc_obj:
            self.changed += list(self.spec.havoc_obj(E, self.ns(dict(loc, **dict(zip(names, out)))), self.k))
        return tuple(out)

    def more(self, loc):
        E = eng.CUR
        E.assume(self.k.e <= self.n.e)
        for nm, c in self._inv(loc, self.k):
            E.assume(c)
        if self.seq is not None and z3.is_int_value(z3.simplify(self.n.e)) and conc(self.n) == 0:
            return False
        return E.decide(self.k.e < self.n.e)

    def assume_inv(self, loc):
        for nm, c in self._inv(loc, self.k):
            eng.CUR.assume(c)
        return True

    def element(self):
        return self.seq.get(self.k.e)

    def begin(self, loc):
        ch = {id(x) for x in self.changed}
        self.fr = {}
        seen = {}
        for n, v in loc.items():
            if n.startswith('__') or n in self.spec.havoc:
                continue
            frame(v, 4, seen, self.fr)
        for i in ch:
            self.fr.pop(i, None)
        self.dec0 = len(eng.CUR.decisions)

    def end(self, loc):
        E = eng.CUR
        for i, (obj, snap, keep) in self.fr.items():
            if frame_now(obj) != snap:
                raise Unsupported('%s: the body modifies %s, which its contract does not declare'
                                  % (self.name, type(obj).__name__))
        for nm, c in self._inv(loc, self.k + 1):
            E.prove('%s: invariant preserved: %s' % (self.name, nm), c)
        E._cover('%s body' % self.name)
        raise PathEnd()

    def exit(self, loc):
        pass


def havoc_value(n, cur):
    if isinstance(cur, Bool) or isinstance(cur, bool):
        return Boolean('h_' + n, track=False)
    if isinstance(cur, Num):
        r = (Int if cur.is_int else Real)('h_' + n, track=False)
        return r
    if isinstance(cur, int):
        return Int('h_' + n, track=False)
    if isinstance(cur, float):
        return Real('h_' + n, track=False)
    if cur is None or isinstance(cur, (str, types.ModuleType)):
        return _Unbound()
    if isinstance(cur, SArr) and cur._idx is None:
        return arr.fresh_array('h_' + n, cur.shape, cur.kind, masked=cur.mbuf is not None, track=False)
    return _Unbound()


class RT(object):
    b_list = staticmethod(b_list)
    b_tuple = staticmethod(b_tuple)

    @staticmethod
    def nested(key):
        E = eng.CUR
        h = getattr(E, 'nested', {}).get(key) if E is not None else None
        return h if h is not None else (lambda f: f)

    @staticmethod
    def loop(key, iterable):
        E = eng.CUR
        if E is None:
            return Loop(key, None, iterable)
        s = as_seq(iterable)
        if s is None:
            return Loop(key, None, iterable)
        c = conc(s.n)
        spec = E.loops.get(key) or LOOPS.get(key)
        if c is not None and spec is None:
            return Loop(key, None, [s.get(z3.IntVal(i)) for i in range(c)])
        if spec is None:
            raise SpecMismatch('no invariant for %s' % (key,))
        if isinstance(iterable, SIter):
            # consumed by the loop
            iterable.pos = lift(iterable.seq.n)
        return Loop(key, s, None, spec)

    @staticmethod
    def loop_while(key):
        E = eng.CUR
        if E is None:
            return Loop(key)
        spec = E.loops.get(key)
        return Loop(key, None, None, spec)

    @staticmethod
    def listcomp(it, elt, ifs):
        s = as_seq(it) if eng.CUR is not None else None
        if s is None:
            if ifs is None:
                return [elt(x) for x in it]
            return [elt(x) for x in it if ifs(x)]
        if ifs is not None:
            h = getattr(eng.CUR, 'filter_comp', None)
            if h is not None:
                return h(s, elt, ifs)
            raise Unsupported('filtered comprehension over a symbolic sequence')
        return SSeq(s.n, lambda k: elt(s.get(k)))

    @staticmethod
    def genexp(it, elt, ifs):
        s = as_seq(it) if eng.CUR is not None else None
        if s is None:
            if ifs is None:
                return (elt(x) for x in it)
            return (elt(x) for x in it if ifs(x))
        if ifs is not None:
            raise Unsupported('filtered generator over a symbolic sequence')
        return SGen(s, elt)


# ---- loading ------------------------------------------------------------------------------------------------------------
def _path(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
        return os.path.join(p, '__init__.py')
    return p + '.py'


def load(name):
    if name in MODULES:
        return MODULES[name]
    parent, _, leaf = name.rpartition('.')
    if parent:
        load(parent)
        if name in MODULES:
            return MODULES[name]
    path = _path(name)
    if not os.path.exists(path):
        raise ImportError(name)
    src = open(path, encoding='utf-8').read()
    SOURCES[name] = hashlib.sha256(src.encode()).hexdigest()
    mod = types.ModuleType(name)
    mod.__file__ = path
    if path.endswith('__init__.py'):
        mod.__path__ = [os.path.dirname(path)]
    mod.__dict__['__builtins__'] = _bi
    mod.__dict__['__rt__'] = RT
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
        x = Xform(name)
        tree = ast.fix_missing_locations(x.visit(tree))
        mod.__dict__['__vc_functions'] = x.functions
        code = compile(tree, path, 'exec')
    MODULES[name] = mod
    if parent:
        setattr(MODULES[parent], leaf, mod)
    try:
        exec(code, mod.__dict__)
    except BaseException:
        del MODULES[name]
        raise
    return mod
