"""Symbolic numpy arrays: a (possibly symbolic) shape and a function from index tuples to scalars (plus a mask function
for masked arrays).  All operations are pointwise closures, so nothing bounds the sizes."""
import numpy as np
import z3
from . import engine as eng
from .engine import Unsupported
from .sym import Num, Bool, Sym, Int, lift, ite, iterm, and_, or_, not_, zbool, Inf

N0 = slice(None)


def conc(x):
    """int if x is a concrete integer, else None"""
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, Num):
        s = z3.simplify(x.e)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def dim_eq(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca == cb
    if z3.simplify(iterm(a)).eq(z3.simplify(iterm(b))):
        return True
    return bool(lift(a) == lift(b))


class Buf(object):
    """A mutable buffer: fn maps a tuple of z3 Int terms to a scalar."""
    __slots__ = ('fn', 'label')

    def __init__(self, fn, label=None):
        self.fn = fn
        self.label = label


class SArr(object):
    _view = None
    __array_ufunc__ = None
    __array_priority__ = 1e8
    _vc_elementwise = True

    def __init__(self, shape, fn, kind='r', mask=None, masked=None, buf=None, maskbuf=None):
        self.shape = tuple(shape)
        self.kind = kind
        self.buf = buf if buf is not None else Buf(fn)
        if maskbuf is not None:
            self.mbuf = maskbuf
        else:
            self.mbuf = None if mask is None else Buf(mask)
        self.is_masked = bool(masked) if masked is not None else (self.mbuf is not None)
        self.fill_value = 1e20
        self._idx = None     # view: index map into buf
        self.dtype = DType(kind)

    # -- element access ------------------------------------------------------------------------------------------
    def at(self, *idx):
        idx = tuple(iterm(i) for i in idx)
        if self._idx is not None:
            idx = self._idx(idx)
        return self.buf.fn(idx)

    def mask_at(self, *idx):
        if self.mbuf is None:
            return Bool(z3.BoolVal(False))
        idx = tuple(iterm(i) for i in idx)
        if self._idx is not None:
            idx = self._idx(idx)
        m = self.mbuf.fn(idx)
        return m if isinstance(m, Bool) else Bool(zbool(m))

    def _snapshot(self):
        f, ix = self.buf.fn, self._idx
        return (lambda i: f(i)) if ix is None else (lambda i: f(ix(i)))

    def _mask_snapshot(self):
        if self.mbuf is None:
            return None
        f, ix = self.mbuf.fn, self._idx
        return (lambda i: f(i)) if ix is None else (lambda i: f(ix(i)))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        if self.ndim == 1:
            return self.shape[0]
        if self.ndim > 1:
            return flatmap(self.shape)[0]
        return 1

    @property
    def data(self):
        """plain ndarray view"""
        a = SArr(self.shape, None, self.kind, buf=self.buf)
        a._idx = self._idx
        return a

    @property
    def values(self):
        return self

    @property
    def mask(self):
        if not self.is_masked:
            raise AttributeError("'numpy.ndarray' object has no attribute 'mask'")
        if self.mbuf is None:
            return np.ma.nomask
        a = SArr(self.shape, None, 'b', buf=self.mbuf)
        a._idx = self._idx
        return a

    @mask.setter
    def mask(self, m):
        if not self.is_masked:
            raise AttributeError('mask')
        if self._idx is not None:
            raise Unsupported('setting the mask of a view')
        m = asarr(m)
        m = broadcast_to(m, self.shape)
        self.mbuf = Buf(m._snapshot())     # (sharing of mask buffers is not modelled)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        return self.transpose()

    @property
    def flat(self):
        return self.flatten()

    def flatten(self, order='C'):
        if self.ndim == 1:
            return self.copy()
        if order not in ('C', 'c'):
            if order in ('F', 'f') or eng.CUR.choose('%s in memory column by column' % order):
                return self.T.flatten()
        N, un, fl = flatmap(self.shape)
        f, mf = self._snapshot(), self._mask_snapshot()
        return SArr((N,), lambda i: f(un(i[0])), self.kind, None if mf is None else (lambda i: mf(un(i[0]))),
                    self.is_masked)
    ravel = flatten

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = tuple(axes[0] or ())
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        f, mf = self._snapshot(), self._mask_snapshot()

        def inv(i):
            r = [None] * len(axes)
            for k, a in enumerate(axes):
                r[a] = i[k]
            return tuple(r)
        return SArr(tuple(self.shape[a] for a in axes), lambda i: f(inv(i)), self.kind,
                    None if mf is None else (lambda i: mf(inv(i))), self.is_masked)

    def copy(self, *a, **k):
        return SArr(self.shape, self._snapshot(), self.kind, self._mask_snapshot(), self.is_masked)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, **k):
        f, mf = self._snapshot(), self._mask_snapshot()
        k2 = dtkind(t)
        g = {'i': lambda i: toint(f(i)), 'r': lambda i: lift(f(i)).tofloat(), 'b': lambda i: Bool(zbool(f(i)))}[k2]
        return SArr(self.shape, g, k2, mf, self.is_masked)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        rep = getattr(self, '_repeat', None)
        if rep is not None:
            # every element repeated, in row-major order: the further (trailing) dimensions are the repetitions
            o, r = rep
            p, prod = o.ndim, lift(1)
            for x in shape[p:]:
                prod = prod * lift(x)
            if len(shape) >= p and all(dim_eq(a, b) for a, b in zip(shape[:p], o.shape)) and dim_eq(prod, r):
                f, mf = o._snapshot(), o._mask_snapshot()
                return SArr(tuple(shape), lambda i: f(tuple(i[:p])), o.kind,
                            None if mf is None else (lambda i: mf(tuple(i[:p]))), o.is_masked)
            raise Unsupported('reshape of repeated elements')
        if self.ndim == 1 and len(shape) == 2 and conc(shape[1]) == 1:
            f, mf = self._snapshot(), self._mask_snapshot()
            return SArr((self.shape[0], 1), lambda i: f((i[0],)), self.kind,
                        None if mf is None else (lambda i: mf((i[0],))), self.is_masked)
        if self.ndim == 1 and len(shape) == 2 and conc(shape[0]) == 1:
            f, mf = self._snapshot(), self._mask_snapshot()
            return SArr((1, self.shape[0]), lambda i: f((i[1],)), self.kind,
                        None if mf is None else (lambda i: mf((i[1],))), self.is_masked)
        if len(shape) == self.ndim and all(dim_eq(a, b) for a, b in zip(shape, self.shape)):
            return self
        if self.ndim == 1 and len(shape) == 1 and (conc(shape[0]) == -1 or dim_eq(shape[0], self.shape[0])):
            return self
        if len(shape) == 1 and (conc(shape[0]) == -1 or dim_eq(shape[0], self.size)):
            return self.flatten()
        p = len(shape) - 1
        if 0 < p < self.ndim - 1 and all(dim_eq(a, b) for a, b in zip(shape[:p], self.shape[:p])):
            # the trailing dimensions flattened into one
            rest = self.shape[p:]
            N, un, fl = flatmap(rest)
            prod = lift(rest[0])
            for x in rest[1:]:
                prod = prod * lift(x)
            if conc(shape[p]) == -1 or z3.simplify(iterm(shape[p])).eq(z3.simplify(iterm(prod))) or dim_eq(shape[p], N):
                f, mf = self._snapshot(), self._mask_snapshot()
                at = lambda i: tuple(i[:p]) + tuple(un(i[p]))
                return SArr(tuple(shape[:p]) + (N,), lambda i: f(at(i)), self.kind,
                            None if mf is None else (lambda i: mf(at(i))), self.is_masked)
        if len(shape) > 1 and all(conc(x) != -1 for x in shape) and dim_eq(
                flatmap(shape)[0], self.shape[0] if self.ndim == 1 else self.size):
            v = self if self.ndim == 1 else self.flatten()
            N, un, fl = flatmap(shape)
            f, mf = v._snapshot(), v._mask_snapshot()
            return SArr(shape, lambda i: f((fl(i),)), self.kind,
                        None if mf is None else (lambda i: mf((fl(i),))), self.is_masked)
        if self.ndim == 1 and len(shape) == 2 and conc(shape[1]) == -1 and conc(shape[0]):
            r, n = conc(shape[0]), iterm(self.shape[0])
            if not eng.CUR.decide(n % r == 0):
                raise ValueError('cannot reshape array')
            w = Int('row', track=False)
            eng.CUR.assume(r * w.e == n)
            f, mf = self._snapshot(), self._mask_snapshot()
            at = lambda i: (i[0] * w.e + i[1],)
            return SArr((r, w), lambda i: f(at(i)), self.kind, None if mf is None else (lambda i: mf(at(i))), self.is_masked)
        raise Unsupported('reshape')

    def set_fill_value(self, v=None):
        self.fill_value = v

    def filled(self, v=None):
        if v is None:
            v = self.fill_value
        f, mf = self._snapshot(), self._mask_snapshot()
        if mf is None:
            return SArr(self.shape, f, self.kind)
        return SArr(self.shape, lambda i: ite(mf(i), v, f(i)), self.kind)

    # -- indexing -------------------------------------------------------------------------------------------------
    def __len__(self):
        c = conc(self.shape[0])
        if c is None:
            raise Unsupported('len() escaping to C')
        return c

    def __iter__(self):
        c = conc(self.shape[0])
        if c is None:
            raise Unsupported('native iteration over a symbolic array')
        return iter([self[i] for i in range(c)])

    def _norm(self, i, n):
        """normalise an index and prove it is in range"""
        E = eng.CUR
        c, cn = conc(i), conc(n)
        if c is not None and cn is not None:
            if not -cn <= c < cn:
                raise IndexError('index %d is out of bounds' % c)
            return c % cn if c < 0 else c
        i, n = lift(i), lift(n)
        if not E.decide(z3.And(i.e >= -n.e, i.e < n.e)):
            raise IndexError('index out of bounds')
        if c is not None:
            return Num(n.e + c) if c < 0 else i
        return Num(z3.simplify(z3.If(i.e < 0, i.e + n.e, i.e)))

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + (N0,) * (self.ndim - len(key) + 1) + key[p + 1:]
        key = key + (N0,) * (self.ndim - sum(1 for k in key if k is not None))
        return key

    def __getitem__(self, key):
        if isinstance(key, (SArr, np.ndarray, list)) or (isinstance(key, tuple) and len(key) == 1 and
                                                         isinstance(key[0], (SArr, np.ndarray, list))):
            k = key[0] if isinstance(key, tuple) else key
            k = asarr(k)
            if k.kind == 'b':
                return compress(self, k)
            return take(self, k)
        key = self._key(key)
        if any(isinstance(k, (SArr, np.ndarray, list)) for k in key):
            adv = [j for j, k in enumerate(key) if isinstance(k, (SArr, np.ndarray, list))]
            if adv == list(range(len(adv))) and len(adv) > 1 and len(key) == self.ndim and all(
                    asarr(key[j]).ndim == 1 and asarr(key[j]).kind == 'i' for j in adv) and all(
                    isinstance(k, slice) and k == N0 for k in key[len(adv):]):
                return take_all(self, [asarr(key[j]) for j in adv])
            if len(adv) == 1 and all(isinstance(k, slice) and k == N0 for j, k in enumerate(key) if j != adv[0]):
                k = asarr(key[adv[0]])
                if k.kind == 'b':
                    k = nonzero(k)
                return take(self, k, axis=adv[0])
            raise Unsupported('mixed advanced indexing')
        maps, shape, dim = [], [], 0
        for k in key:
            if k is None:
                maps.append(('new',))
                shape.append(1)
                continue
            n = self.shape[dim]
            dim += 1
            if isinstance(k, slice):
                start, ln, step = self._slice(k, n)
                maps.append(('sl', start, step))
                shape.append(ln)
            elif isinstance(k, (int, np.integer, Num)):
                if isinstance(k, Num) and not k.is_int:
                    raise IndexError('only integers... are valid indices')
                maps.append(('ix', iterm(self._norm(k, n))))
            else:
                raise Unsupported('index %r' % (k,))

        outer = self._idx

        def remap(i):
            r, p = [], 0
            for m in maps:
                if m[0] == 'new':
                    p += 1
                elif m[0] == 'ix':
                    r.append(m[1])
                else:
                    r.append(z3.simplify(m[1] + m[2] * i[p]))
                    p += 1
            r = tuple(r)
            return r if outer is None else outer(r)
        if not shape:
            v = self.buf.fn(remap(()))
            if self.is_masked and self.mbuf is not None:
                if zdecide(self.mbuf.fn(remap(()))):
                    return np.ma.masked
            return v
        a = SArr(shape, None, self.kind, buf=self.buf, maskbuf=self.mbuf, masked=self.is_masked)
        a._idx = remap
        if outer is None and all(m[0] != 'sl' or m[2] in (1, -1) for m in maps):
            sh = tuple(shape)

            def view(i):
                # position in the array -> is it in the view, and where
                cs, back, p, d = [], [], 0, 0
                for m in maps:
                    if m[0] == 'new':
                        back.append(z3.IntVal(0))
                        p += 1
                        continue
                    if m[0] == 'ix':
                        cs.append(i[d] == m[1])
                    else:
                        t = (i[d] - m[1]) * m[2]
                        back.append(z3.simplify(t))
                        cs.append(in_range(t, sh[p]))
                        p += 1
                    d += 1
                return z3.And(*cs) if cs else z3.BoolVal(True), tuple(back)
            a._view = view
        return a

    def _slice(self, k, n):
        step = 1 if k.step is None else conc(k.step)
        if step is None:
            raise Unsupported('symbolic step')
        if step == 1:
            if k.start is None and k.stop is None:
                return z3.IntVal(0), n, 1

            def bound(v, dflt):
                if v is None:
                    return lift(dflt)
                v = lift(v)
                nn = lift(n)
                e = z3.If(v.e < 0, z3.If(v.e + nn.e < 0, 0, v.e + nn.e), z3.If(v.e > nn.e, nn.e, v.e))
                return Num(z3.simplify(e))
            lo, hi = bound(k.start, 0), bound(k.stop, n)
            ln = Num(z3.simplify(z3.If(hi.e > lo.e, hi.e - lo.e, 0)))
            c = conc(ln)
            return lo.e, (c if c is not None else ln), 1
        if step == -1 and k.start is None and k.stop is None:
            return z3.simplify(iterm(n) - 1), n, -1
        cn = conc(n)
        if cn is not None:
            r = range(*slice(k.start, k.stop, k.step).indices(cn))
            return z3.IntVal(r.start), len(r), step
        raise Unsupported('slice step %r' % step)

    def __setitem__(self, key, value):
        if isinstance(key, (SArr, np.ndarray)) and asarr(key).kind == 'b':
            if isinstance(value, (SArr, np.ndarray)) and asarr(value).ndim > 0:
                k1, v = asarr(key), asarr(value)
                if k1.ndim != 1 or v.ndim != self.ndim:
                    raise Unsupported('masked assignment of an array')
                k2 = SArr(k1.shape, None, 'b', buf=k1.buf) if k1._idx is None else k1.copy()
                sig, tau, m = _sel_map(k2)
                if not (v.ghost_sel[2] is m if hasattr(v, 'ghost_sel') else dim_eq(v.shape[0], m)):
                    raise ValueError('NumPy boolean array indexing assignment: wrong number of values')
                kf, vf = k2._snapshot(), v._snapshot()
                vm = v._mask_snapshot() if v.is_masked else None
                self._update(lambda i: zbool(kf((i[0],))), lambda i: vf((tau(i[0]),) + tuple(i[1:])), False,
                             None if vm is None else (lambda i: vm((tau(i[0]),) + tuple(i[1:]))))
                return
            k = broadcast_to(asarr(key), self.shape) if asarr(key).ndim != 1 or self.ndim == 1 else None
            if k is None:
                k1 = asarr(key)
                kf = lambda i, g=k1._snapshot(): g((i[0],))
            else:
                kf = k._snapshot()
            self._update(lambda i: zbool(kf(i)), lambda i: value, value is np.ma.masked)
            return
        key = self._key(key)
        adv = [j for j, k in enumerate(key) if isinstance(k, (SArr, np.ndarray))]
        if len(adv) == 1 and asarr(key[adv[0]]).kind == 'b' and asarr(key[adv[0]]).ndim == 1 and (
                value is np.ma.masked or not isinstance(value, (SArr, np.ndarray, list, tuple))):
            # one boolean selection along a dimension, whole slices or positions along the others
            a, bs = adv[0], asarr(key[adv[0]])
            if not dim_eq(bs.shape[0], self.shape[a]):
                raise IndexError('boolean index did not match indexed array')
            bf = bs._snapshot()
            fix = []
            for j, (k, n) in enumerate(zip(key, self.shape)):
                if j == a or (isinstance(k, slice) and k == N0):
                    continue
                if not isinstance(k, (int, np.integer, Num)):
                    raise Unsupported('assignment index')
                fix.append((j, iterm(self._norm(k, n))))
            self._update(lambda i: z3.And(zbool(bf((i[a],))), *[i[j] == e for j, e in fix]), lambda i: value,
                         value is np.ma.masked)
            return
        if any(isinstance(k, SArr) for k in key):
            ks = [asarr(k) for k in key]
            if isinstance(value, (SArr, np.ndarray, list, tuple)) or any(k.ndim != 1 or k.kind != 'i' for k in ks):
                raise Unsupported('assignment index')
            _in_bounds(self, ks)
            gs = [k._snapshot() for k in ks]
            m = ks[0].shape[0]

            def hit(i):
                w = z3.Int(eng.CUR.fresh('w'))
                return z3.Exists([w], z3.And(in_range(w, m), *[lift(g((w,))).e == x for g, x in zip(gs, i)]))
            self._update(hit, lambda i: value, value is np.ma.masked)
            return
        conds, pos = [], 0
        loc = []
        for k, n in zip(key, self.shape):
            if isinstance(k, slice) and k == N0:
                loc.append(pos)
                pos += 1
                conds.append(None)
            elif isinstance(k, (int, np.integer, Num)):
                conds.append(iterm(self._norm(k, n)))
                loc.append(None)
            else:
                raise Unsupported('assignment index %r' % (k,))
        val, mask_at = value, None
        if isinstance(value, (SArr, np.ndarray, list, tuple)):
            va = asarr(value)
            free = [n for n, c in zip(self.shape, conds) if c is None]
            va = broadcast_to(va, free)
            vf = va._snapshot()

            def val_at(i):
                return vf(tuple(x for x, c in zip(i, conds) if c is None))
            vm = va._mask_snapshot() if va.is_masked else None
            if vm is not None:
                def mask_at(i):
                    return vm(tuple(x for x, c in zip(i, conds) if c is None))
        else:
            def val_at(i):
                return val

        def cond(i):
            cs = [x == c for x, c in zip(i, conds) if c is not None]
            return z3.And(*cs) if cs else z3.BoolVal(True)
        self._update(cond, val_at, value is np.ma.masked, mask_at)

    def _update(self, cond, val_at, masking, mask_at=None):
        eng.CUR.memo.setdefault('mutlog', []).append(self)
        if self._idx is not None:
            if self._view is None or self.is_masked or masking:
                raise Unsupported('assignment through a view')
            view, c0, v0 = self._view, cond, val_at
            cond = lambda i: z3.And(view(i)[0], c0(view(i)[1]))
            val_at = lambda i: v0(view(i)[1])
        if masking:
            m = self.mbuf
            old = m.fn if m is not None else (lambda i: Bool(z3.BoolVal(False)))
            nb = lambda i: Bool(z3.Or(cond(i), zbool(old(i))))
            if m is None:
                self.mbuf = Buf(nb)
            else:
                m.fn = nb
            return
        old = self.buf.fn
        kind = self.kind

        def new(i):
            v = val_at(i)
            if kind == 'i' and isinstance(v, Num) and not v.is_int:
                v = v.toint()
            return ite(cond(i), v, old(i)) if kind != 'o' else (v if zdecide(cond(i)) else old(i))
        self.buf.fn = new
        if mask_at is not None and self.is_masked:
            oldm = self.mbuf.fn if self.mbuf is not None else (lambda i: Bool(z3.BoolVal(False)))
            nm = lambda i: Bool(z3.If(cond(i), zbool(mask_at(i)), zbool(oldm(i))))
            if self.mbuf is None:
                self.mbuf = Buf(nm)
            else:
                self.mbuf.fn = nm
        elif self.mbuf is not None:
            oldm = self.mbuf.fn
            self.mbuf.fn = lambda i: Bool(z3.And(z3.Not(cond(i)), zbool(oldm(i))))

    # -- pointwise operators -------------------------------------------------------------------------------------
    def _bin(self, o, f, kind=None, swap=False):
        if isinstance(o, (str, bytes)) or o is None:
            return NotImplemented
        return pointwise((lambda a, b: f(b, a)) if swap else f, kind, self, o)

    def __add__(self, o):
        if self.kind == 'b' and isinstance(o, (SArr, np.ndarray)) and asarr(o).kind == 'b':
            return self | o
        return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, swap=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, swap=True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, swap=True)
    def __truediv__(self, o): return self._bin(o, npdiv, 'r')
    def __rtruediv__(self, o): return self._bin(o, npdiv, 'r', swap=True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, 'b')

    def __eq__(self, o):
        if o is None:       # elementwise, like numpy
            return SArr(self.shape, lambda i: False, 'b')
        return self._bin(o, lambda a, b: lift_eq(a, b), 'b')

    def __ne__(self, o):
        if o is None:
            return SArr(self.shape, lambda i: True, 'b')
        return self._bin(o, lambda a, b: Bool(z3.Not(zbool(lift_eq(a, b)))), 'b')
    __hash__ = object.__hash__

    def __and__(self, o): return self._bin(o, lambda a, b: Bool(and_(a, b)), 'b')
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: Bool(or_(a, b)), 'b')
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: Bool(z3.Xor(zbool(a), zbool(b))), 'b')
    def __invert__(self): return pointwise(lambda a: Bool(not_(a)), 'b', self)
    def __neg__(self): return pointwise(lambda a: -a, None, self)
    def __abs__(self): return pointwise(abs, None, self)

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if self._idx is not None:
            if self._view is None or self.is_masked:
                raise Unsupported('in-place operation through a view')
            if len(r.shape) != self.ndim:
                raise ValueError('non-broadcastable output operand')
            if r.kind == 'r' and self.kind == 'i':
                raise TypeError('Cannot cast ufunc output')
            f = r._snapshot()
            self._update(lambda i: z3.BoolVal(True), f, False)
            return self
        if len(r.shape) != self.ndim:
            raise ValueError('non-broadcastable output operand')
        eng.CUR.memo.setdefault('mutlog', []).append(self)
        self.buf.fn = r._snapshot()
        if r.kind == 'r' and self.kind == 'i':
            raise TypeError('Cannot cast ufunc output')
        if self.is_masked and r.is_masked:
            ms = r._mask_snapshot()
            if ms is not None:
                self.mbuf = Buf(ms) if self.mbuf is None else self.mbuf
                self.mbuf.fn = ms
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)

    def __bool__(self):
        if conc(self.size) == 1:
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    # -- reductions (trusted contracts of numpy) ------------------------------------------------------------------
    def min(self, *a, **k):
        from . import npmodel
        return npmodel.m_min(self, *a, **k)

    def max(self, *a, **k):
        from . import npmodel
        return npmodel.m_max(self, *a, **k)

    def any(self, *a, **k):
        from . import npmodel
        return npmodel.m_any(self, *a, **k)

    def all(self, *a, **k):
        from . import npmodel
        return npmodel.m_all(self, *a, **k)

    def sum(self, *a, **k):
        from . import npmodel
        return npmodel.m_sum(self, *a, **k)

    def compressed(self):
        f = self.flatten()
        if not f.is_masked:
            return f
        m = f._mask_snapshot()
        return f.data[SArr(f.shape, (lambda i: Bool(z3.BoolVal(True))) if m is None else (lambda i: Bool(z3.Not(zbool(m(i))))), 'b')]

    def count(self, *a, **k):
        raise Unsupported('count')

    def to_numpy(self):
        return self

    def tolist(self):
        h = eng.CUR.memo.get('tolist')
        if h is None:
            raise Unsupported('tolist')
        return h(self)

    def nonzero(self):
        return (nonzero(self),)

    def __repr__(self):
        return '<SArr %s %s>' % (self.kind, self.shape)
    __str__ = __repr__

    def __format__(self, spec):
        return '<SArr>'


class DType(object):
    _vc_symbolic = True

    def __init__(self, kind):
        self.kind = {'r': 'f', 'i': 'i', 'b': 'b', 'o': 'O'}[kind]
        self.char = self.kind

    def __eq__(self, o):
        return getattr(o, 'kind', None) == self.kind or (self.kind == 'f' and o in (float, np.float64)) or \
            (self.kind == 'b' and o is bool) or (self.kind == 'i' and o is int)

    def __hash__(self):
        return hash(self.kind)

    def __str__(self):
        return {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[self.kind]


def dtkind(t):
    """element kind of a dtype argument"""
    if t is None:
        return 'r'
    if isinstance(t, DType):
        return {'f': 'r', 'i': 'i', 'b': 'b'}.get(t.kind, 'o')
    t = getattr(t, '_real', t)
    tn = getattr(t, '__name__', None) or str(t)
    if 'int' in tn or tn in ('i', 'i4', 'i8'):
        return 'i'
    if 'float' in tn or tn in ('f', 'd', 'f8', 'f4'):
        return 'r'
    if 'bool' in tn:
        return 'b'
    raise Unsupported('dtype %r' % (t,))


def npdiv(a, b):
    b = lift(b)
    s = z3.simplify(b.e == 0)
    if not z3.is_false(s):
        # numpy yields inf/nan: the quotient of a zero divisor is left unspecified, flagged as NaN
        a = lift(a)
        z = b.e == 0
        nan = z if a.nan is None else z3.Or(a.nan, z)
        nan = nan if b.nan is None else z3.Or(nan, b.nan)
        return Num(a.real() / z3.If(z, z3.RealVal(1), b.real()), nan)
    return lift(a) / b


def lift_eq(a, b):
    r = a == b
    return r if isinstance(r, Bool) else Bool(zbool(r))


def zdecide(c):
    return eng.CUR.decide(zbool(c))


def toint(x):
    n = lift(x)
    return n.toint()


def kind_of(x):
    if isinstance(x, SArr):
        return x.kind
    if isinstance(x, (bool, np.bool_, Bool)):
        return 'b'
    if isinstance(x, Num):
        return 'i' if x.is_int else 'r'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Inf)):
        return 'r'
    return 'o'


def asarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple)):
        els = list(x)
        if els and all(isinstance(e, (SArr, list, tuple, np.ndarray)) for e in els):
            rows = [asarr(e) for e in els]
            return stack0(rows)
        kinds = {kind_of(e) for e in els}
        kind = 'o' if 'o' in kinds else 'r' if ('r' in kinds or not els) else 'i' if 'i' in kinds else 'b'
        return SArr((len(els),), lambda i: select(els, i[0]), kind)
    if isinstance(x, np.ma.MaskedArray):
        d, m = x.data, np.ma.getmaskarray(x)
        return SArr(x.shape, lambda i: select_nd(d, i), nkind(d), lambda i: select_nd(m, i), True)
    if isinstance(x, np.ndarray):
        return SArr(x.shape, lambda i: select_nd(x, i), nkind(x))
    if isinstance(x, (int, float, bool, np.generic, Sym, Inf)):
        return SArr((), lambda i: x, kind_of(x))
    if hasattr(x, '_vc_array'):
        return x._vc_array()
    raise Unsupported('as array: %r' % (type(x),))


def nkind(a):
    return {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}.get(a.dtype.kind, 'o')


def select(els, i):
    s = z3.simplify(i)
    if z3.is_int_value(s):
        return els[s.as_long()]
    r = els[-1]
    for k in range(len(els) - 2, -1, -1):
        r = ite(i == k, els[k], r)
    return r


def select_nd(a, i):
    if len(i) == 0:
        return a[()] if isinstance(a, np.ndarray) else a
    s = z3.simplify(i[0])
    if z3.is_int_value(s):
        return select_nd(a[s.as_long()], i[1:])
    if len(a) > 64:
        raise Unsupported('symbolic index into a large concrete array')
    r = select_nd(a[len(a) - 1], i[1:])
    for k in range(len(a) - 2, -1, -1):
        r = ite(i[0] == k, select_nd(a[k], i[1:]), r)
    return r


def stack0(rows):
    shape = rows[0].shape
    for r in rows[1:]:
        if len(r.shape) != len(shape) or not all(dim_eq(a, b) for a, b in zip(r.shape, shape)):
            raise ValueError('all the input array dimensions must match')
    fs = [r._snapshot() for r in rows]
    kind = 'r' if any(r.kind == 'r' for r in rows) else rows[0].kind

    def fn(i):
        s = z3.simplify(i[0])
        if z3.is_int_value(s):
            return fs[s.as_long()](i[1:])
        r = fs[-1](i[1:])
        for k in range(len(fs) - 2, -1, -1):
            r = ite(i[0] == k, fs[k](i[1:]), r)
        return r
    return SArr((len(rows),) + tuple(shape), fn, kind)


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if conc(d) == 1:
                continue
            if conc(cur) == 1:
                cur = d
            elif not dim_eq(cur, d):
                raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bindex(shape, nd, i):
    """index into an operand of this shape from an index into the broadcast result"""
    off = nd - len(shape)
    return tuple(z3.IntVal(0) if conc(shape[j]) == 1 else i[off + j] for j in range(len(shape)))


def pointwise(f, kind, *args):
    arrs = []
    for a in args:
        if isinstance(a, (SArr, np.ndarray, list, tuple)):
            arrs.append(asarr(a))
        elif a is np.ma.masked:
            raise Unsupported('arithmetic with masked')
        else:
            v = a
            arrs.append(SArr((), (lambda v: lambda i: v)(v), kind_of(v)))
    shape = bshape([a.shape for a in arrs])
    nd = len(shape)
    fns = [(a._snapshot(), a.shape) for a in arrs]

    def fn(i):
        return f(*[g(bindex(s, nd, i)) for g, s in fns])
    if kind is None:
        kinds = [a.kind for a in arrs]
        kind = 'o' if 'o' in kinds else 'r' if 'r' in kinds else 'i' if 'i' in kinds else 'b'
    masked = any(a.is_masked for a in arrs)
    mfs = [(a._mask_snapshot(), a.shape) for a in arrs if a.mbuf is not None]
    mask = None
    if mfs:
        def mask(i):
            return Bool(z3.Or(*[zbool(m(bindex(s, nd, i))) for m, s in mfs]))
    return SArr(shape, fn, kind, mask, masked)


def broadcast_to(a, shape):
    a = asarr(a)
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    r = bshape([a.shape, shape])
    if len(r) != len(shape) or not all(dim_eq(x, y) for x, y in zip(r, shape)):
        raise ValueError('could not broadcast')
    f, mf, s, nd = a._snapshot(), a._mask_snapshot(), a.shape, len(shape)
    return SArr(shape, lambda i: f(bindex(s, nd, i)), a.kind,
                None if mf is None else (lambda i: mf(bindex(s, nd, i))), a.is_masked)


def in_range(i, n):
    return z3.And(iterm(i) >= 0, iterm(i) < iterm(n))


def flatmap(shape):
    """row-major flattening of an n-d shape: (number of elements, flat -> indices, indices -> flat).
    For symbolic shapes the maps are functions known to be inverse to each other, in range and order preserving."""
    E = eng.CUR
    cs = [conc(x) for x in shape]
    if all(c is not None for c in cs):
        N = 1
        for c in cs:
            N *= c

        def un(f):
            out, rest = [], f
            for c in reversed(cs):
                out.append(z3.simplify(rest % c) if c > 1 else z3.IntVal(0))
                rest = rest / max(c, 1)
            return tuple(reversed(out))

        def fl(i):
            r = z3.IntVal(0)
            for c, x in zip(cs, i):
                r = r * c + x
            return z3.simplify(r)
        return N, un, fl
    big = [k for k, c in enumerate(cs) if c != 1]
    if len(big) == 1:
        return shape[big[0]], (lambda f: tuple(f if k == big[0] else z3.IntVal(0) for k in range(len(cs)))), \
            (lambda i: i[big[0]])
    key = ('flat',) + tuple(z3.simplify(iterm(x)).sexpr() for x in shape)
    if key in E.memo:
        return E.memo[key]
    k = len([1 for q in E.memo if isinstance(q, tuple) and q[0] == 'flat'])
    d = len(shape)
    N = Int('nflat%d' % k, track=False)
    us = [z3.Function('unflat%d_%d' % (k, j), z3.IntSort(), z3.IntSort()) for j in range(d)]
    flf = z3.Function('flat%d' % k, *([z3.IntSort()] * (d + 1)))
    f = z3.Int('f!flat%d' % k)
    vs = [z3.Int('i%d!flat%d' % (j, k)) for j in range(d)]
    ws = [z3.Int('w%d!flat%d' % (j, k)) for j in range(d)]
    E.axiom('row-major flattening is a one to one, order preserving map of the index tuples onto 0..size-1',
            z3.And(N.e >= 0, z3.Or(*[iterm(x) == 0 for x in shape]) == (N.e == 0)))
    for u in us:
        E.assume(z3.ForAll([f], z3.Implies(z3.And(0 <= f, f < N.e), z3.And(
            *[in_range(g(f), n) for g, n in zip(us, shape)] + [flf(*[g(f) for g in us]) == f])), patterns=[u(f)]))
    E.assume(z3.ForAll(vs, z3.Implies(z3.And(*[in_range(v, n) for v, n in zip(vs, shape)]), z3.And(
        0 <= flf(*vs), flf(*vs) < N.e, *[u(flf(*vs)) == v for u, v in zip(us, vs)])), patterns=[flf(*vs)]))
    lex = z3.BoolVal(False)
    for v, w in reversed(list(zip(vs, ws))):
        lex = z3.Or(v < w, z3.And(v == w, lex))
    E.assume(z3.ForAll(vs + ws, z3.Implies(z3.And(*[in_range(v, n) for v, n in zip(vs + ws, tuple(shape) * 2)]),
                                           (flf(*vs) < flf(*ws)) == lex),
                       patterns=[z3.MultiPattern(flf(*vs), flf(*ws))]))
    r = (N, lambda x: tuple(u(x) for u in us), lambda i: flf(*i))
    E.memo[key] = r
    return r


def _sel_map(mask):
    """Ghost maps of boolean selection over a 1-d mask: sigma enumerates the selected positions in increasing order."""
    E = eng.CUR
    key = ('sel', id(mask.buf), id(mask.buf.fn))
    if key in E.memo:
        return E.memo[key][:3]
    n = z3.simplify(iterm(mask.shape[0]))
    # masks with the same elements have the same selection
    el = z3.simplify(zbool(mask.at(z3.Int('sel!element'))))
    same = ('sel of', n.get_id(), el.get_id())
    if same in E.memo:
        E.memo[key] = E.memo[same][:3] + (mask.buf.fn, mask)
        return E.memo[key][:3]
    e0 = z3.Int('sel!element')
    for q in [q for q in E.memo if isinstance(q, tuple) and q[0] == 'sel of' and q[1] == n.get_id()]:
        if E.feasible(z3.And(0 <= e0, e0 < n, E.memo[q][6] != el), 500) == z3.unsat:
            # equal element by element, though written differently
            E.memo[same] = E.memo[q][:3] + (mask.buf.fn, mask, n, el)
            E.memo[key] = E.memo[q][:3] + (mask.buf.fn, mask)
            return E.memo[key][:3]
    k = len([1 for q in E.memo if isinstance(q, tuple) and q[0] == 'sel of'])
    sig = z3.Function('sel%d' % k, z3.IntSort(), z3.IntSort())
    tau = z3.Function('selinv%d' % k, z3.IntSort(), z3.IntSort())
    m = Int('nsel%d' % k, track=False)
    E.axiom('numpy boolean selection keeps exactly the True positions, in order, once each',
            z3.And(m.e >= 0, m.e <= n))
    j = z3.Int('j!sel%d' % k)
    i = z3.Int('i!sel%d' % k)
    j2 = z3.Int('j2!sel%d' % k)
    E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m.e),
                                       z3.And(0 <= sig(j), sig(j) < n, zbool(mask.at(sig(j))), tau(sig(j)) == j)),
                       patterns=[sig(j)]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, zbool(mask.at(i))),
                                       z3.And(0 <= tau(i), tau(i) < m.e, sig(tau(i)) == i)),
                       patterns=[tau(i)]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Not(zbool(mask.at(i)))), m.e < n), patterns=[tau(i)]))
    E.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m.e), sig(j) < sig(j2)),
                       patterns=[z3.MultiPattern(sig(j), sig(j2))]))
    E.memo[key] = E.memo[same] = (sig, tau, m, mask.buf.fn, mask, n, el)   # keep ids alive
    return sig, tau, m


def compress(a, mask):
    if mask.ndim != 1:
        if mask.ndim != a.ndim or not all(dim_eq(x, y) for x, y in zip(mask.shape, a.shape)):
            raise IndexError('boolean index did not match')
        k = ('flatmask', id(mask.buf.fn), id(mask._idx))
        m1 = eng.CUR.memo.get(k)
        if m1 is None:
            m1 = eng.CUR.memo[k] = mask.flatten()
            eng.CUR.memo[k + ('keep',)] = (mask.buf.fn, mask._idx)
        return compress(a.flatten(), m1)
    if not dim_eq(mask.shape[0], a.shape[0]):
        raise IndexError('boolean index did not match')
    m2 = SArr(mask.shape, None, 'b', buf=mask.buf) if mask._idx is None else mask.copy()
    sig, tau, m = _sel_map(m2)
    f, mf = a._snapshot(), a._mask_snapshot()
    mp = lambda i: (sig(i[0]),) + tuple(i[1:])
    r = SArr((m,) + a.shape[1:], lambda i: f(mp(i)), a.kind, None if mf is None else (lambda i: mf(mp(i))), a.is_masked)
    r.ghost_sel = (sig, tau, m)
    g = getattr(a, 'ghost_inv', None)
    if g is not None and a.ndim == 1:
        r.ghost_inv = lambda v: tau(g(v))
    return r


def nonzero(mask):
    if mask.ndim != 1:
        raise Unsupported('n-d nonzero')
    if mask.kind != 'b':
        mask = pointwise(lambda v: Bool(zbool(v != 0)), 'b', mask)
    m2 = SArr(mask.shape, None, 'b', buf=mask.buf) if mask._idx is None else mask.copy()
    sig, tau, m = _sel_map(m2)
    r = SArr((m,), lambda i: Num(sig(i[0])), 'i')
    r.ghost_sel = (sig, tau, m)
    r.ghost_inv = tau        # value -> position
    return r


def _in_bounds(a, ks):
    """integer index arrays, one per dimension: in range (non-negative) or IndexError"""
    E = eng.CUR
    for j, k in enumerate(ks):
        if not dim_eq(k.shape[0], ks[0].shape[0]):
            raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
        q = z3.Int(E.fresh('ib'))
        v = lift(k.at(q))
        if E.decide(z3.And(in_range(q, k.shape[0]), z3.Not(in_range(v.e, a.shape[j])))):
            raise Unsupported('index array which may be negative or out of range')
        E.assume(z3.ForAll([q], z3.Implies(in_range(q, k.shape[0]), in_range(v.e, a.shape[j]))))


def take_all(a, ks):
    """a[k0, k1, ...] with one integer array per dimension"""
    _in_bounds(a, ks)
    f, mf = a._snapshot(), a._mask_snapshot()
    gs = [k._snapshot() for k in ks]
    mp = lambda i: tuple(lift(g(i[:1])).e for g in gs) + tuple(i[1:])
    return SArr(tuple(ks[0].shape) + tuple(a.shape[len(ks):]), lambda i: f(mp(i)), a.kind, None if mf is None else (lambda i: mf(mp(i))), a.is_masked)


def take(a, idx, axis=0):
    """integer-array indexing along one axis; indices are proved in range"""
    E = eng.CUR
    if idx.ndim != 1:
        raise Unsupported('n-d integer selection')
    n = a.shape[axis]
    k = z3.Int(E.fresh('take'))
    v = lift(idx.at(k))
    bad = z3.And(in_range(k, idx.shape[0]), z3.Or(v.e < -iterm(n), v.e >= iterm(n)))
    if E.decide(bad):
        raise IndexError('index out of bounds')
    E.assume(z3.ForAll([k], z3.Implies(in_range(k, idx.shape[0]),
                                       z3.And(lift(idx.at(k)).e >= -iterm(n), lift(idx.at(k)).e < iterm(n)))))
    f, mf, g = a._snapshot(), a._mask_snapshot(), idx._snapshot()

    def mp(i):
        e = lift(g((i[axis],))).e
        return i[:axis] + (z3.If(e < 0, e + iterm(n), e),) + i[axis + 1:]
    shape = list(a.shape)
    shape[axis] = idx.shape[0]
    r = SArr(shape, lambda i: f(mp(i)), a.kind, None if mf is None else (lambda i: mf(mp(i))), a.is_masked)
    ga, gi = getattr(a, 'ghost_inv', None), getattr(idx, 'ghost_inv', None)
    if ga is not None and gi is not None and a.ndim == 1:
        r.ghost_inv = lambda v: gi(ga(v))
    return r


# ---- fresh arrays ---------------------------------------------------------------------------------------------------
def fresh_array(name, shape, kind='r', masked=False, nan=False, track=True):
    E = eng.CUR
    nm = E.fresh(name)
    dom = [z3.IntSort()] * len(shape)
    rng = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
    f = z3.Function(nm, *(dom + [rng]))
    nf = z3.Function(nm + '.nan', *(dom + [z3.BoolSort()])) if nan else None
    mf = z3.Function(nm + '.mask', *(dom + [z3.BoolSort()])) if masked else None
    if kind == 'b':
        fn = lambda i: Bool(f(*i))
    else:
        fn = lambda i: Num(f(*i), None if nf is None else nf(*i))
    a = SArr(shape, fn, kind, None if mf is None else (lambda i: Bool(mf(*i))), masked)
    a.buf.label = nm
    if track:
        def show(m):
            dims = [eng.model_value(m, iterm(s)) for s in shape]
            dims = [min(int(d), 40) for d in dims]
            out = dict(shape=dims)
            idxs = list(np.ndindex(*dims))
            out['data'] = [eng.model_value(m, f(*[z3.IntVal(int(x)) for x in ix])) for ix in idxs]
            if nf is not None:
                out['nan'] = [eng.model_value(m, nf(*[z3.IntVal(int(x)) for x in ix])) for ix in idxs]
            if mf is not None:
                out['mask'] = [eng.model_value(m, mf(*[z3.IntVal(int(x)) for x in ix])) for ix in idxs]
            return out
        E.input(nm, show)
    return a


def havoc_array(a):
    """arbitrary elements (of the same shape and kind) in place"""
    h = fresh_array('h', a.shape, a.kind, track=False)
    a.buf.fn = h.buf.fn
    return [a, a.buf]
