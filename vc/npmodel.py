"""Models (trusted contracts) of numpy / numpy.ma / math functions on symbolic values.  With concrete arguments only,
the real function is called."""
import math as _math
import types
import numpy as np
import z3
from . import engine as eng, arr
from .engine import Unsupported
from .sym import (Num, Bool, Sym, Int, Real, lift, ite, iterm, and_, or_, not_, zbool, Inf, is_sym)
from .arr import (SArr, Buf, asarr, conc, pointwise, broadcast_to, fresh_array, nonzero, stack0, dim_eq, in_range,
                  take, compress)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SArr, Inf)) or getattr(x, '_vc_symbolic', False):
        return True
    if depth < 3:
        if isinstance(x, (list, tuple)):
            return any(has_sym(e, depth + 1) for e in x)
        if isinstance(x, dict):
            return any(has_sym(e, depth + 1) for e in x.values())
        if isinstance(x, slice):
            return any(has_sym(e) for e in (x.start, x.stop, x.step))
    return False


def memo_fn(name, *sorts):
    E = eng.CUR
    key = ('fn', name)
    if key not in E.memo:
        E.memo[key] = z3.Function(name, *sorts)
    return E.memo[key]


# ---- scalars ----------------------------------------------------------------------------------------------------
R = z3.RealSort()


def _scalar_fn(name, facts=None, axiom=None):
    def f(x):
        if isinstance(x, (SArr, np.ndarray, list)):
            return pointwise(f, 'r', x)
        x = lift(x)
        fn = memo_fn(name, R, R)
        t = fn(x.real())
        E = eng.CUR
        if facts is not None and not z3.is_var(x.e):
            E.axiom(axiom, facts(x.real(), t))
        return Num(t, x.nan)
    return f


def m_sqrt(x):
    if isinstance(x, (SArr, np.ndarray)):
        return pointwise(m_sqrt, 'r', x)
    x = lift(x)
    t = memo_fn('sqrt', R, R)(x.real())
    eng.CUR.axiom('sqrt(x) is the non-negative root of x >= 0',
                  z3.Implies(x.real() >= 0, z3.And(t >= 0, t * t == x.real())))
    return Num(t, x.nan)


m_sin = _scalar_fn('sin', lambda x, t: z3.And(t >= -1, t <= 1), 'sin is within [-1, 1]')
m_cos = _scalar_fn('cos', lambda x, t: z3.And(t >= -1, t <= 1), 'cos is within [-1, 1]')
m_asin = _scalar_fn('asin')
m_log = _scalar_fn('log')
m_exp = _scalar_fn('exp')
PI = z3.Real('pi')


def m_radians(x):
    if isinstance(x, (SArr, np.ndarray)):
        return pointwise(m_radians, 'r', x)
    x = lift(x)
    eng.CUR.axiom('3.141592 < pi < 3.141593', z3.And(PI > z3.RealVal('3.141592'), PI < z3.RealVal('3.141593')))
    return Num(x.real() * PI / 180, x.nan)


def m_floor(x):
    x = lift(x)
    return x if x.is_int else Num(z3.ToInt(x.e))


def m_ceil(x):
    x = lift(x)
    return x if x.is_int else Num(-z3.ToInt(-x.e))


def _rnd(kind, x, d=0):
    x = lift(x)
    if x.is_int and d >= 0:
        return x
    sc = z3.RealVal(10 ** d) if d >= 0 else z3.RealVal(1) / (10 ** -d)
    y = x.real() * sc
    f = z3.ToInt(y)
    if kind == 'floor':
        r = f
    elif kind == 'ceil':
        r = -z3.ToInt(-y)
    elif kind == 'trunc':
        r = z3.If(y >= 0, f, -z3.ToInt(-y))
    else:
        half = y - z3.ToReal(f) - z3.Q(1, 2)
        r = z3.If(half < 0, f, z3.If(half > 0, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return Num(z3.ToReal(r) / sc, x.nan)


def _rounding(kind):
    def g(x, decimals=0, **k):
        if isinstance(x, (SArr, np.ndarray, list, tuple)):
            return pointwise(lambda v: _rnd(kind, v, decimals), None, x)
        return _rnd(kind, x, decimals)
    return g


m_round = m_around = m_rint = _rounding('even')
m_trunc = m_fix = _rounding('trunc')
np_floor, np_ceil = _rounding('floor'), _rounding('ceil')


def m_fmod(x, y):
    """C fmod: result has the sign of x."""
    x, y = lift(x), lift(y)
    if y is None or not z3.is_rational_value(z3.simplify(y.real())):
        raise Unsupported('fmod with symbolic divisor')
    a, b = x.real(), y.real()
    q = z3.If(a / b >= 0, z3.ToInt(a / b), -z3.ToInt(-(a / b)))
    return Num(a - z3.ToReal(q) * b, x.nan)


def m_isnan(x):
    if isinstance(x, (SArr, np.ndarray, list)):
        return pointwise(m_isnan, 'b', x)
    x = lift(x)
    return x.isnan()


def m_isinf(x):
    if isinstance(x, (SArr, np.ndarray, list)):
        return pointwise(lambda v: Bool(z3.BoolVal(isinstance(v, Inf) or
                                                   (isinstance(v, float) and _math.isinf(v)))), 'b', x)
    return Bool(z3.BoolVal(isinstance(x, Inf)))


def m_isfinite(x):
    if isinstance(x, (SArr, np.ndarray, list)):
        return pointwise(m_isfinite, 'b', x)
    if isinstance(x, (Inf, float)):
        return Bool(z3.BoolVal(not isinstance(x, Inf) and _math.isfinite(x)))
    return Bool(not_(lift(x).isnan()))


def m_abs(x):
    return abs(x)


def _ufunc2(f, kind=None):
    def g(a, b, out=None, **kw):
        if out is not None or kw:
            raise Unsupported('ufunc keywords')
        if isinstance(a, (SArr, np.ndarray, list, tuple)) or isinstance(b, (SArr, np.ndarray, list, tuple)):
            return pointwise(f, kind, a, b)
        return f(a, b)
    return g


m_less_equal = _ufunc2(lambda a, b: lift(a) <= b, 'b')
m_greater_equal = _ufunc2(lambda a, b: lift(a) >= b, 'b')
m_less = _ufunc2(lambda a, b: lift(a) < b, 'b')
m_greater = _ufunc2(lambda a, b: lift(a) > b, 'b')
m_equal = _ufunc2(lambda a, b: Bool(zbool(lift(a) == b)), 'b')
m_logical_and = _ufunc2(lambda a, b: Bool(and_(a, b)), 'b')
m_logical_or = _ufunc2(lambda a, b: Bool(or_(a, b)), 'b')
m_add = _ufunc2(lambda a, b: a + b)
m_subtract = _ufunc2(lambda a, b: a - b)
m_multiply = _ufunc2(lambda a, b: a * b)


def _extreme2(a, b, lo):
    x, y = lift(a), lift(b)
    c = (x <= y) if lo else (x >= y)
    r = ite(c, x, y)
    if x.nan is not None or y.nan is not None:
        n = z3.Or(zbool(x.isnan()), zbool(y.isnan()))
        r = Num(r.e, n)
    return r


m_minimum = _ufunc2(lambda a, b: _extreme2(a, b, True))
m_maximum = _ufunc2(lambda a, b: _extreme2(a, b, False))


def m_logical_not(a):
    if isinstance(a, SArr):
        return ~a
    return Bool(not_(a))


# ---- construction ---------------------------------------------------------------------------------------------------
def _shape(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def m_ones(shape, dtype=None, **k):
    k = arr.dtkind(dtype)
    v = {'b': Bool(z3.BoolVal(True)), 'i': 1, 'r': 1.0}[k]
    return SArr(_shape(shape), lambda i: v, k)


def m_zeros(shape, dtype=None, **k):
    k = arr.dtkind(dtype)
    v = {'b': Bool(z3.BoolVal(False)), 'i': 0, 'r': 0.0}[k]
    return SArr(_shape(shape), lambda i: v, k)


def m_full(shape, v, **k):
    return SArr(_shape(shape), lambda i: v, asarr(v).kind)


def m_zeros_like(a, **k):
    return SArr(asarr(a).shape, lambda i: 0.0, 'r')


def m_arange(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi, st = lift(lo), lift(hi), lift(st)
    E = eng.CUR
    if lo.is_int and hi.is_int and st.is_int and conc(st) == 1:
        n = Num(z3.simplify(z3.If(hi.e > lo.e, hi.e - lo.e, 0)))
        c = conc(n)
        return SArr((n if c is None else c,), lambda i: Num(lo.e + i[0]), 'i')
    n = Int('arange_n', track=False)
    E.axiom('np.arange(lo, hi, st) has ceil((hi-lo)/st) elements lo + i*st (st > 0; real arithmetic)',
            z3.Implies(st.real() > 0, z3.And(
                n.e >= 0,
                z3.Implies(n.e > 0, lo.real() + (z3.ToReal(n.e) - 1) * st.real() < hi.real()),
                lo.real() + z3.ToReal(n.e) * st.real() >= hi.real())))
    if not E.decide(st.real() > 0):
        raise Unsupported('arange with a non-positive step')
    return SArr((n,), lambda i: Num(lo.real() + z3.ToReal(i[0]) * st.real()), 'r')


def m_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SArr):
        r = SArr(x.shape, x._snapshot(), x.kind)
    else:
        r = asarr(x)
    if dtype is not None and r.kind != 'o':
        r = r.astype(dtype)
    return r


def m_asarray(x, *a, **k):
    if isinstance(x, SArr):
        return x.data if x.is_masked else x
    return asarr(x)


def m_asanyarray(x, *a, **k):
    return x if isinstance(x, SArr) else asarr(x)


def m_vstack(rows):
    rows = [asarr(r) for r in rows]
    if all(r.ndim == 1 for r in rows):
        return stack0(rows)
    raise Unsupported('vstack')


def m_column_stack(cols):
    return m_vstack(cols).transpose()


def m_concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    nd, axis = arrs[0].ndim, axis % arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd or not all(d == axis or dim_eq(x, y) for d, (x, y) in enumerate(zip(a.shape, arrs[0].shape))):
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    everything = arrs
    arrs = [a for a in arrs if conc(a.shape[axis]) != 0] or arrs[:1]
    total = 0
    offs = []
    for a in arrs:
        offs.append(total)
        total = a.shape[axis] + total
    fs = [a._snapshot() for a in arrs]
    mfs = [a._mask_snapshot() for a in arrs]

    def build(gs):
        def fn(i):
            at = lambda k: tuple(i[:axis]) + (z3.simplify(i[axis] - iterm(offs[k])),) + tuple(i[axis + 1:])
            r = gs[-1](at(-1))
            for k in range(len(gs) - 2, -1, -1):
                r = ite(i[axis] < iterm(offs[k + 1]), gs[k](at(k)), r)
            return r
        return fn
    kind = 'r' if any(a.kind == 'r' for a in everything) else arrs[0].kind
    masked = any(m is not None for m in mfs)
    false = lambda i: Bool(z3.BoolVal(False))
    shape = tuple(arrs[0].shape[:axis]) + (total,) + tuple(arrs[0].shape[axis + 1:])
    r = SArr(shape, build(fs), kind, build([m or false for m in mfs]) if masked else None,
             any(a.is_masked for a in everything))
    gs = [getattr(a, 'ghost_inv', None) for a in arrs]
    if nd == 1 and all(g is not None for g in gs):
        def inv(i):
            t = gs[-1](i) + iterm(offs[-1])
            for k in range(len(gs) - 2, -1, -1):
                p = gs[k](i)
                t = z3.If(z3.And(in_range(p, arrs[k].shape[0]), lift(fs[k]((p,))).e == i), p + iterm(offs[k]), t)
            return t
        r.ghost_inv = inv
    return r


def m_meshgrid(x, y, indexing='xy', **k):
    x, y = asarr(x), asarr(y)
    fx, fy = x._snapshot(), y._snapshot()
    if indexing == 'ij':
        sh = (x.shape[0], y.shape[0])
        return [SArr(sh, lambda i: fx((i[0],)), x.kind), SArr(sh, lambda i: fy((i[1],)), y.kind)]
    sh = (y.shape[0], x.shape[0])
    return [SArr(sh, lambda i: fx((i[1],)), x.kind), SArr(sh, lambda i: fy((i[0],)), y.kind)]


def m_unravel_index(idx, shape, **k):
    idx = asarr(idx)
    N, un, fl = arr.flatmap(_shape(shape))
    q = z3.Int(eng.CUR.fresh('ur'))
    if idx.ndim > 1:
        raise Unsupported('unravel_index')
    if idx.ndim == 0:
        if not eng.CUR.decide(in_range(idx.at(), N)):
            raise ValueError('index is out of bounds for array')
        return tuple(Num(u) for u in un(lift(idx.at()).e))
    if eng.CUR.decide(z3.And(in_range(q, idx.shape[0]), z3.Not(in_range(lift(idx.at(q)), N)))):
        raise ValueError('index is out of bounds for array')
    eng.CUR.assume(z3.ForAll([q], z3.Implies(in_range(q, idx.shape[0]), in_range(lift(idx.at(q)), N))))
    f = idx._snapshot()
    return tuple(SArr(idx.shape, lambda i, j=j: Num(un(lift(f(i)).e)[j]), 'i') for j in range(len(_shape(shape))))


def _real_dtype(d):
    k = getattr(d, 'kind', None) if not isinstance(d, (type, np.dtype)) else None
    return {'r': np.dtype(float), 'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool)}[k] if k else d


def m_issubdtype(a, b):
    return np.issubdtype(_real_dtype(a), b)


def m_can_cast(a, b, casting='safe'):
    return np.can_cast(_real_dtype(a), _real_dtype(b), casting=casting)


def m_ravel(a, order='C'):
    return asarr(a).flatten(order)


def m_broadcast_to(a, shape, subok=False):
    r = broadcast_to(a, shape)
    return r


def m_transpose(a, axes=None):
    return asarr(a).transpose(*(axes or ()))


def m_reshape(a, shape):
    return asarr(a).reshape(shape)


def m_where(c, *ab):
    if not ab:
        return (nonzero(asarr(c)),)
    a, b = ab
    if not isinstance(c, (SArr, np.ndarray, list)) and not isinstance(a, SArr) and not isinstance(b, SArr):
        return ite(c, a, b)
    r = pointwise(lambda x, y, z: ite(zbool(x), y, z), None, c, a, b)
    kinds = [asarr(x).kind if isinstance(x, (SArr, np.ndarray, list)) else ('r' if isinstance(x, (float, Inf)) else
             asarr(x).kind) for x in (a, b)]
    r.kind = 'r' if 'r' in kinds else 'i' if 'i' in kinds else 'b'
    return SArr(r.shape, r._snapshot(), r.kind)


def m_nonzero(a):
    return (nonzero(asarr(a)),)


def m_flatnonzero(a):
    return nonzero(asarr(a))


# ---- reductions ----------------------------------------------------------------------------------------------------
def _domain(a):
    """(fresh index tuple vars, in-range condition, unmasked condition, value) of an array"""
    E = eng.CUR
    vs = [z3.Int(E.fresh('q')) for _ in a.shape]
    rng = z3.And(*[in_range(v, s) for v, s in zip(vs, a.shape)]) if vs else z3.BoolVal(True)
    um = z3.Not(zbool(a.mask_at(*vs)))
    return vs, rng, um


def quant_forall(a, pred):
    """formula: for every in-range index i, pred(a[i])"""
    cs = [conc(s) for s in a.shape]
    if all(c is not None for c in cs) and int(np.prod(cs or [1])) <= 24:
        return z3.And(*([z3.BoolVal(True)] + [pred(ix) for ix in
                                              ([z3.IntVal(int(x)) for x in t] for t in np.ndindex(*cs))]))
    vs, rng, um = _domain(a)
    return z3.ForAll(vs, z3.Implies(rng, pred(vs)))


def m_all(a, axis=None, **k):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        c = conc(a.shape[axis])
        if c is None or a.ndim != 2:
            raise Unsupported('all over a symbolic axis')
        f = a._snapshot()
        ins = (lambda i, q: (z3.IntVal(q), i[0])) if axis == 0 else (lambda i, q: (i[0], z3.IntVal(q)))
        return SArr((a.shape[1 - axis],), lambda i: Bool(and_(True, *[zbool(f(ins(i, q))) for q in range(c)])), 'b')
    return Bool(quant_forall(a, lambda ix: z3.Or(zbool(a.mask_at(*ix)), zbool(a.at(*ix)))))


def m_any(a, axis=None, **k):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        c = conc(a.shape[axis])
        if c is None or a.ndim != 2:
            raise Unsupported('any over a symbolic axis')
        f = a._snapshot()
        ins = (lambda i, q: (z3.IntVal(q), i[0])) if axis == 0 else (lambda i, q: (i[0], z3.IntVal(q)))
        return SArr((a.shape[1 - axis],), lambda i: Bool(or_(False, *[zbool(f(ins(i, q))) for q in range(c)])), 'b')
    return Bool(z3.Not(quant_forall(a, lambda ix: z3.Not(z3.And(z3.Not(zbool(a.mask_at(*ix))), zbool(a.at(*ix)))))))


def _extreme(a, lo, name):
    a = asarr(a)
    E = eng.CUR
    key = ('ext', name, id(a.buf), id(a.buf.fn), id(a._idx), id(a.mbuf.fn) if a.mbuf is not None else 0)
    if key in E.memo:
        return E.memo[key][0]
    cs = [conc(s) for s in a.shape]
    if a.size is not None and conc(a.size) == 0 or E.decide(lift(a.size).e == 0):
        raise ValueError('zero-size array to reduction operation')
    kind = a.kind
    if kind == 'b':
        raise Unsupported('min/max of booleans')
    r = (Int if kind == 'i' else Real)(name, track=False)
    if a.mbuf is not None:
        raise Unsupported('min/max of a masked array')
    nanp = a.at(*[z3.IntVal(0)] * a.ndim)
    if isinstance(nanp, Num) and nanp.nan is not None:
        raise Unsupported('min/max of an array with NaN')
    w = [z3.Int(E.fresh(name + '_at')) for _ in a.shape]
    E.axiom('min/max of a non-empty array is attained and bounds every element',
            z3.And(*([in_range(x, s) for x, s in zip(w, a.shape)] + [zbool(lift(a.at(*w)) == r)])))
    cmp = (lambda v: zbool(lift(v) >= r)) if lo else (lambda v: zbool(lift(v) <= r))
    E.assume(quant_forall(a, lambda ix: cmp(a.at(*ix))))
    E.memo[key] = (r, a, a.buf.fn, a._idx, a.mbuf.fn if a.mbuf is not None else None)
    return r


def _extreme_axis(a, axis, lo):
    """extreme along a short axis of known length of a two-dimensional array"""
    axis = axis % a.ndim
    c = conc(a.shape[axis])
    if c is None or a.ndim != 2 or a.is_masked or not c:
        raise Unsupported('extreme over an axis')
    f = a._snapshot()
    ins = (lambda i, q: (z3.IntVal(q), i[0])) if axis == 0 else (lambda i, q: (i[0], z3.IntVal(q)))

    def fn(i):
        r = f(ins(i, 0))
        for q in range(1, c):
            r = _extreme2(r, f(ins(i, q)), lo)
        return r
    return SArr((a.shape[1 - axis],), fn, a.kind)


def m_tile(a, reps):
    a, c = asarr(a), conc(reps)
    if a.ndim != 1 or c is None:
        raise Unsupported('tile')
    return m_concatenate([a] * c) if c else a[:0]


def m_min(a, axis=None, **k):
    if axis is not None and asarr(a).ndim > 1:
        return _extreme_axis(asarr(a), axis, True)
    return _extreme(a, True, 'amin')


def m_max(a, axis=None, **k):
    if axis is not None and asarr(a).ndim > 1:
        return _extreme_axis(asarr(a), axis, False)
    return _extreme(a, False, 'amax')


def m_count_nonzero(a, **k):
    a = asarr(a)
    c = conc(a.size)
    if c is not None and c <= 32 and a.ndim == 1:
        return m_sum(a if a.kind == 'b' else a != 0)
    if k:
        raise Unsupported('count_nonzero along an axis')
    # any number up to the size, which is 0 if and only if there is none (all that a proof may use)
    n = Num(z3.Int(eng.CUR.fresh('count')))
    N = arr.flatmap(a.shape)[0] if a.ndim > 1 else lift(a.shape[0])
    eng.CUR.assume(and_(n >= 0, n <= N))
    eng.CUR.assume(Bool((n.e == 0) == z3.Not(zbool(m_any(a if a.kind == 'b' else a != 0)))))
    return n


def m_sum(a, axis=None, **k):
    a = asarr(a)
    c = conc(a.size)
    if c is not None and c <= 32 and a.ndim == 1:
        r = lift(0)
        for j in range(c):
            r = r + a.at(j)
        return r
    raise Unsupported('sum of a symbolic-length array')


def m_prod(a, **k):
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = x * r
        return r
    a = asarr(a)
    c = conc(a.size)
    if c is None:
        raise Unsupported('prod')
    r = lift(1)
    for j in range(c):
        r = r * a.at(j)
    return r


def m_cumprod(a, **k):
    out, r = [], 1
    els = list(a) if isinstance(a, (list, tuple)) else [a.at(j) for j in range(conc(a.shape[0]))]
    for x in els:
        r = x * lift(r)
        out.append(r)
    return asarr(out)


def m_tensordot(a, b, axes):
    if axes != 1:
        raise Unsupported('tensordot')
    a, b = asarr(a), asarr(b)
    c = conc(a.shape[0])
    if a.ndim != 1 or b.ndim != 2 or c is None:
        raise Unsupported('tensordot')
    af, bf = a._snapshot(), b._snapshot()

    def fn(i):
        r = lift(0)
        for q in range(c):
            r = r + lift(af((z3.IntVal(q),))) * bf((z3.IntVal(q), i[0]))
        return r
    if a.kind != 'i' or b.kind != 'i':
        return SArr((b.shape[1],), fn, 'r')
    # the sum of products is named, so that it is only unfolded where it matters
    E = eng.CUR
    dot, i = z3.Function(E.fresh('dot'), z3.IntSort(), z3.IntSort()), z3.Int(E.fresh('doti'))
    rows = [z3.Function(E.fresh('dotrow%d' % q), z3.IntSort(), z3.IntSort()) for q in range(c)]
    for q in range(c):
        E.assume(z3.ForAll([i], z3.Implies(in_range(i, b.shape[1]), rows[q](i) == iterm(bf((z3.IntVal(q), i)))),
                           patterns=[rows[q](i)]))
    total = lift(0)
    for q in range(c):
        total = total + lift(af((z3.IntVal(q),))) * Num(rows[q](i))
    E.assume(z3.ForAll([i], z3.Implies(in_range(i, b.shape[1]), dot(i) == total.e), patterns=[dot(i)]))
    E.memo['tensordot'] = (dot, rows)
    return SArr((b.shape[1],), lambda ix: Num(dot(ix[0])), 'i')


def m_searchsorted(a, v, side='left', sorter=None):
    """index p with a[p-1] <= v < a[p] (side right) / a[p-1] < v <= a[p] (side left), for ascending a"""
    E = eng.CUR
    a = asarr(a)
    if sorter is not None or a.ndim != 1:
        raise Unsupported('searchsorted')
    n = iterm(a.shape[0])
    k = z3.Int(E.fresh('ss'))
    # precondition of the trusted contract: ascending
    E.prove('requires searchsorted: first argument ascending',
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, k + 1 < n), zbool(lift(a.at(k)) <= a.at(k + 1)))))
    right = side == 'right'
    nm = E.fresh('searchsorted')

    def one(idx_terms, val):
        val = lift(val)
        f = z3.Function(nm, *([z3.IntSort()] * len(idx_terms) + [z3.IntSort()])) if idx_terms else None
        p = f(*idx_terms) if f is not None else z3.Int(nm)
        key = ('ssfact', nm)
        if key not in E.memo:
            E.memo[key] = True
            vs = [z3.Int(E.fresh('ssv')) for _ in idx_terms]
            q = z3.Int(E.fresh('ssq'))
            vv = lift(vals_at(vs)) if vs else val
            pp = f(*vs) if vs else p
            below = (lambda t: zbool(lift(t) <= vv)) if right else (lambda t: zbool(lift(t) < vv))
            body = z3.And(
                pp >= 0, pp <= n,
                z3.Implies(pp > 0, below(a.at(pp - 1))),
                z3.Implies(pp < n, z3.Not(below(a.at(pp)))))
            E.axiom('np.searchsorted on an ascending array returns the insertion point', z3.BoolVal(True))
            E.assume(z3.ForAll(vs, body, patterns=[pp]) if vs else body)
        return Num(p)
    if isinstance(v, (SArr, np.ndarray, list, tuple)):
        v = asarr(v)
        vals_at = lambda vs: v.at(*vs)
        return SArr(v.shape, lambda i: one(list(i), v.at(*i)), 'i')
    vals_at = lambda vs: v
    return one([], v)


def m_argsort(a, **k):
    """a permutation that sorts the array"""
    E = eng.CUR
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('argsort')
    n = iterm(a.shape[0])
    nm = E.fresh('argsort')
    p = z3.Function(nm, z3.IntSort(), z3.IntSort())
    q = z3.Function(nm + '.inv', z3.IntSort(), z3.IntSort())
    i, j = z3.Int(nm + 'i'), z3.Int(nm + 'j')
    E.axiom('np.argsort returns a permutation of the positions that orders the values', z3.BoolVal(True))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)),
                       patterns=[p(i)]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)),
                       patterns=[q(i)]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), zbool(lift(a.at(p(i))) <= a.at(p(j)))),
                       patterns=[z3.MultiPattern(p(i), p(j))]))
    r = SArr((a.shape[0],), lambda ix: Num(p(ix[0])), 'i')
    r.ghost_perm = (p, q)
    return r


def m_argmin(a, axis=None, **k):
    E = eng.CUR
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('argmin')
    n = iterm(a.shape[0])
    if E.decide(n == 0):
        raise ValueError('attempt to get argmin of an empty sequence')
    p = Int('argmin', track=False)
    i = z3.Int(E.fresh('am'))
    E.axiom('np.argmin is the first position of the least value', z3.And(p.e >= 0, p.e < n))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
        zbool(lift(a.at(p.e)) <= a.at(i)),
        z3.Implies(i < p.e, zbool(lift(a.at(p.e)) < a.at(i)))))))
    return p


def m_size(a, axis=None):
    if isinstance(a, SArr):
        return a.size
    return 1


def m_shape(a):
    return a.shape


def m_ndim(a):
    return a.ndim


def m_copy(a):
    return a.copy()


def m_diff(a):
    a = asarr(a)
    f = a._snapshot()
    n = a.shape[0]
    m = Num(z3.simplify(z3.If(iterm(n) > 0, iterm(n) - 1, 0)))
    return SArr((m,), lambda i: lift(f((i[0] + 1,))) - f((i[0],)), a.kind)


def m_fliplr(a):
    return a[:, ::-1]


def m_flip(a, axis=None):
    if a.ndim == 1:
        return a[::-1]
    key = [slice(None)] * a.ndim
    key[axis] = slice(None, None, -1)
    return a[tuple(key)]


def m_roll(a, shift, axis=None):
    """result[i] = a[(i - shift) mod n] along the axis"""
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll of a flattened array')
        axis = 0
    sh = lift(shift)
    n = lift(a.shape[axis])
    f, mf = a._snapshot(), a._mask_snapshot()
    small = eng.CUR.decide(z3.And(sh.e >= -n.e, sh.e <= n.e))

    def mp(i):
        k = i[axis] - sh.e
        k = z3.If(k < 0, k + n.e, z3.If(k >= n.e, k - n.e, k)) if small else k % n.e
        return tuple(i[:axis]) + (z3.simplify(k),) + tuple(i[axis + 1:])
    return SArr(a.shape, lambda i: f(mp(i)), a.kind, None if mf is None else (lambda i: mf(mp(i))), a.is_masked)


def m_empty_like(a, *x, **k):
    a = asarr(a)
    return fresh_array('uninit', a.shape, a.kind if a.kind != 'o' else 'r', track=False)


def m_clip(a, lo, hi):
    return m_minimum(m_maximum(a, lo), hi)


# ---- masked arrays --------------------------------------------------------------------------------------------------
def ma_isMaskedArray(a):
    return asarr(a).is_masked


ma_isMA = ma_isMaskedArray


def ma_getmaskarray(a):
    a = asarr(a)
    mf = a._mask_snapshot()
    if mf is None:
        return SArr(a.shape, lambda i: Bool(z3.BoolVal(False)), 'b')
    return SArr(a.shape, mf, 'b')


def ma_getmask(a):
    if isinstance(a, SArr) and a.mbuf is not None:
        return a.mask
    return np.ma.nomask


def ma_getdata(a, subok=True):
    return asarr(a).data


def ma_copy(a):
    return ma_array(a, copy=True)


def ma_array(data, mask=np.ma.nomask, fill_value=None, copy=False, keep_mask=True, dtype=None, **k):
    d = asarr(data)
    f, mf = d._snapshot(), d._mask_snapshot()
    shared = d.buf if not copy and d._idx is None else None
    m2 = None
    if mask is not np.ma.nomask and mask is not None:
        m = asarr(mask)
        if m.ndim == 0:
            v = m.at()
            m2 = lambda i: Bool(zbool(v))
        else:
            mb = broadcast_to(m, d.shape)
            m2 = mb._snapshot()
            if m.kind != 'b':
                raw = m2
                m2 = lambda i: Bool(zbool(lift(raw(i)) != 0))
    if mf is not None and m2 is not None:
        if keep_mask:
            mask_fn = lambda i: Bool(or_(mf(i), m2(i)))
        else:
            mask_fn = m2
    else:
        mask_fn = mf or m2
    r = SArr(d.shape, f, d.kind, mask_fn, True, buf=shared)
    if fill_value is not None:
        r.fill_value = fill_value
    return r


def ma_masked_where(cond, a, copy=True):
    c = asarr(cond)
    if c.ndim == 0:
        raise IndexError('Inconsistent shape between the condition and the input')
    cm = c._mask_snapshot()
    d = asarr(a)
    f, mf, cf = d._snapshot(), d._mask_snapshot(), c._snapshot()
    # a masked condition counts as False (numpy: make_mask(filled cond))
    g = cf if cm is None else (lambda i: Bool(z3.And(zbool(cf(i)), z3.Not(zbool(cm(i))))))
    if len(c.shape) != len(d.shape) or not all(dim_eq(x, y) for x, y in zip(c.shape, d.shape)):
        raise IndexError('Inconsistent shape between the condition and the input')
    mask = (lambda i: Bool(zbool(g(i)))) if mf is None else (lambda i: Bool(or_(g(i), mf(i))))
    return SArr(d.shape, f, d.kind, mask, True)


def _pt_masked(test):
    def g(a, *args, **k):
        d = asarr(a)
        f, mf = d._snapshot(), d._mask_snapshot()
        args = [x.at() if isinstance(x, SArr) and x.ndim == 0 else x for x in args]
        c = lambda i: test(lift(f(i)), *args)
        mask = (lambda i: Bool(zbool(c(i)))) if mf is None else (lambda i: Bool(or_(c(i), mf(i))))
        return SArr(d.shape, f, d.kind, mask, True)
    return g


def _notfinite(v):
    return Bool(z3.BoolVal(True)) if isinstance(v, Inf) else v.isnan()


ma_masked_invalid = _pt_masked(_notfinite)
ma_masked_equal = _pt_masked(lambda v, x: v == x)
ma_masked_greater = _pt_masked(lambda v, x: v > x)
ma_masked_less = _pt_masked(lambda v, x: v < x)
ma_masked_less_equal = _pt_masked(lambda v, x: v <= x)
ma_masked_greater_equal = _pt_masked(lambda v, x: v >= x)
ma_masked_not_equal = _pt_masked(lambda v, x: v != x)
# (numpy swaps the limits if they are the wrong way around)
ma_masked_outside = _pt_masked(lambda v, lo, hi: Bool(and_(or_(v < lo, v > hi), or_(v < hi, v > lo))))
ma_masked_inside = _pt_masked(lambda v, lo, hi: Bool(or_(and_(v >= lo, v <= hi), and_(v >= hi, v <= lo))))


def ma_asarray(a, *x, **k):
    if isinstance(a, SArr) and a.is_masked:
        return a
    return ma_array(a)


def ma_zeros(shape, **k):
    return SArr(_shape(shape), lambda i: 0.0, 'r', None, True)


def ma_masked_all(shape, **k):
    return SArr(_shape(shape), lambda i: Num(z3.Real('uninit')), 'r', lambda i: Bool(z3.BoolVal(True)), True)


def ma_is_masked(a):
    if isinstance(a, SArr):
        return m_any(ma_getmaskarray(a))
    return False


def ma_mask_or(a, b, **k):
    if a is np.ma.nomask:
        return b
    if b is np.ma.nomask:
        return a
    return asarr(a) | asarr(b)


def ma_filled(a, v=None):
    return a.filled(v) if isinstance(a, SArr) else a


def m_repeat(a, repeats, axis=None):
    """numpy.repeat over the flattened array; the place of an element is kept for the reshape which follows (arr.reshape)"""
    a = asarr(a)
    if axis is not None or isinstance(repeats, (list, tuple, SArr)):
        raise Unsupported('repeat')
    if conc(repeats) == 1:
        r = a.flatten()
        r._repeat = (a.copy(), lift(1))
        return r
    N = arr.flatmap(a.shape)[0] if a.ndim > 1 else a.shape[0]
    fl = a.flatten()
    f, mf = fl._snapshot(), fl._mask_snapshot()
    r = SArr((lift(N) * lift(repeats),), lambda i: f((i[0] / iterm(repeats),)), a.kind,
             None if mf is None else (lambda i: mf((i[0] / iterm(repeats),))), a.is_masked)
    r._repeat = (a.copy(), lift(repeats))
    return r


NP = {k[2:]: v for k, v in list(globals().items()) if k.startswith('m_')}
NP.update(amin=m_min, amax=m_max, cumproduct=m_cumprod, product=m_prod, power=lambda a, b: asarr(a) ** b,
          bitwise_and=m_logical_and, bitwise_or=m_logical_or, invert=m_logical_not, absolute=m_abs, fabs=m_abs,
          deg2rad=m_radians, arcsin=m_asin, empty=m_zeros, count_nonzero=m_count_nonzero, float64=lambda x: lift(x).tofloat())
def np_concatenate(arrs, axis=0):
    # numpy.concatenate (unlike numpy.ma.concatenate) loses the masks
    return m_concatenate([(a.data if a.is_masked else a) if isinstance(a, SArr) else np.asarray(a) for a in arrs], axis)


def np_append(arr, values, axis=None):
    if axis is None:
        values = values if isinstance(values, (SArr, np.ndarray, list, tuple)) else [values]
        return np_concatenate([m_ravel(arr), m_ravel(asarr(values))])
    return np_concatenate([arr, values], axis)


NP.update(concatenate=np_concatenate, append=np_append)
NP.update(floor=np_floor, ceil=np_ceil)
MA = {k[3:]: v for k, v in list(globals().items()) if k.startswith('ma_')}
MA.update(masked_array=ma_array, concatenate=m_concatenate, logical_or=m_logical_or, masked_less=ma_masked_less)
MATH = dict(sin=m_sin, cos=m_cos, asin=m_asin, sqrt=m_sqrt, radians=m_radians, fabs=m_abs, floor=m_floor,
            ceil=m_ceil, fmod=m_fmod, isnan=m_isnan, log=m_log, exp=m_exp)


class _MetaMA(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ma.MaskedArray) or (isinstance(x, SArr) and x.is_masked)

    def __call__(cls, *a, **k):
        return ma_array(*a, **k) if has_sym(a) or has_sym(k) else np.ma.MaskedArray(*a, **k)


class MaskedArrayModel(metaclass=_MetaMA):
    pass


class _MetaND(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SArr))


class NdArrayModel(metaclass=_MetaND):
    pass


class ModelModule(types.ModuleType):
    """Stands for a library module inside shadow code: real functions on concrete arguments, models on symbolic ones."""

    def __init__(self, name, real, models, sub=None):
        types.ModuleType.__init__(self, name)
        d = self.__dict__
        d['_real'], d['_models'], d['_sub'], d['_cache'] = real, models, sub or {}, {}

    def __getattr__(self, n):
        if n in self._sub:
            return self._sub[n]
        if n in self._cache:
            return self._cache[n]
        try:
            real = getattr(self._real, n)
        except AttributeError:
            # numpy aliases removed from newer releases
            if n not in self._models:
                raise
            real = None
        if n in self._models or (callable(real) and not isinstance(real, type)):
            r = self._wrap(n, real)
        else:
            r = real
        self._cache[n] = r
        return r

    def _wrap(self, n, real):
        model = self._models.get(n)
        name = self.__name__ + '.' + n

        def call(*a, **k):
            E = eng.CUR
            if E is not None:
                st = E.memo.get(('stub', name))
                if st is not None:
                    return st(*a, **k)
            if E is None or not (has_sym(a) or has_sym(k)):
                return real(*a, **k)
            if model is None:
                raise Unsupported('%s on symbolic arguments' % name)
            E.trusted.add(name)
            return model(*a, **k)
        call.__name__ = n
        call._vc_real = real
        call._vc_model = name
        return call


ma_mod = ModelModule('numpy.ma', np.ma, MA, {'MaskedArray': MaskedArrayModel})
np_mod = ModelModule('numpy', np, NP, {'ma': ma_mod, 'ndarray': NdArrayModel})
math_mod = ModelModule('math', _math, MATH)
