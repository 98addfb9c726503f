"""Model (trusted contract) of pandas.DataFrame as used by the collocation code: equally long named columns with row labels
0..n-1 in order, selected by position.  A frame remembers, as ghost state, which rows of its base frame it consists of."""
import z3
import numpy as np
from . import engine as eng, arr, npmodel
from .engine import Unsupported, zbool
from .sym import Num, Bool, lift, iterm
from .arr import SArr, asarr, take, in_range
from .shadow import SSeq, SIter


class Row(object):
    """one row (pandas.Series) of a frame"""
    _vc_symbolic = True

    def __init__(self, frame, k):
        self.__dict__.update(_f=frame, _k=k)

    def __getattr__(self, n):
        f = self.__dict__['_f']
        if n in f.cols:
            return f.cols[n][Num(iterm(self.__dict__['_k']))]
        if n == 'values':
            return [self[c] for c in f.cols]
        if n == 'index':
            return list(f.cols)
        raise AttributeError(n)

    def __getitem__(self, n):
        if isinstance(n, (list, tuple)):
            return Row(self._f[n], self._k)
        if n not in self._f.cols:
            raise KeyError(n)
        return self._f.cols[n][Num(iterm(self._k))]

    def get(self, n, d=None):
        return self[n] if n in self._f.cols else d

    def __contains__(self, n):
        return n in self._f.cols


class ILoc(object):
    _vc_symbolic = True

    def __init__(self, f):
        self.f = f

    def __getitem__(self, idx):
        f = self.f
        if isinstance(idx, tuple):
            raise Unsupported('iloc with columns')
        if isinstance(idx, (int, Num)):
            return Row(f, idx)
        g = getattr(idx, 'ghost_inv', None)
        idx = asarr(idx)
        if idx.kind == 'b':
            idx = arr.nonzero(idx)
            g = idx.ghost_inv
        if g is None:
            g = getattr(idx, 'ghost_inv', None)
        if idx.kind != 'i':
            raise Unsupported('iloc index')
        E = eng.CUR
        m, snap, n = iterm(idx.shape[0]), idx._snapshot(), iterm(f.n)
        at = lambda k: lift(snap((k,))).e
        q = z3.Int(E.fresh('q'))
        if E.decide(z3.And(in_range(q, m), z3.Not(in_range(at(q), n)))):
            if E.decide(z3.And(at(q) < n, at(q) >= -n)):
                raise Unsupported('negative positions')
            raise IndexError('positional indexers are out-of-bounds')

        def pick(c):
            f = c._snapshot()
            return SArr((idx.shape[0],), lambda i: f((at(i[0]),)), c.kind)
        r = SFrame({k: pick(c) for k, c in f.cols.items()}, n=idx.shape[0])
        base = f.pos
        r.base, r.pos = f.base, lambda k: base(at(k))
        inv = f.inv
        r.inv = None if inv is None or g is None else (lambda i: g(inv(i)))
        return r


class SFrame(object):
    _vc_symbolic = True

    def __init__(self, cols, n=None):
        self.__dict__['cols'] = dict(cols)
        self.__dict__['n'] = n if n is not None else next(iter(cols.values())).shape[0]
        self.__dict__['base'] = self
        self.__dict__['pos'] = lambda k: k
        self.__dict__['inv'] = lambda i: i

    def __setattr__(self, n, v):
        if n in ('base', 'pos', 'inv'):
            self.__dict__[n] = v
        else:
            raise Unsupported('assignment of a frame attribute')

    def __getattr__(self, n):
        cols = self.__dict__['cols']
        if n in cols:
            return cols[n]
        raise AttributeError(n)

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def columns(self):
        return list(self.cols)

    @property
    def index(self):
        return SSeq(self.n, lambda k: Num(iterm(k)))

    def __contains__(self, n):
        return n in self.cols

    def __getitem__(self, n):
        if isinstance(n, (list, tuple)) and all(isinstance(x, str) for x in n):
            for x in n:
                if x not in self.cols:
                    raise KeyError(x)
            r = SFrame({k: self.cols[k] for k in n}, self.n)
            r.base, r.pos, r.inv = self.base, self.pos, self.inv
            return r
        if isinstance(n, str):
            if n not in self.cols:
                raise KeyError(n)
            return self.cols[n]
        if isinstance(n, SArr) and n.kind == 'b':
            return self.iloc[n]
        raise Unsupported('frame index %r' % (n,))

    def _vc_len(self):
        return Num(iterm(self.n))

    def __len__(self):
        c = arr.conc(self.n)
        if c is None:
            raise Unsupported('len() escaping to C')
        return c

    @property
    def shape(self):
        return (Num(iterm(self.n)), len(self.cols))

    def iterrows(self):
        return SIter(SSeq(self.n, lambda k: (Num(iterm(k)), Row(self, k))))

    def copy(self, **k):
        return self

    def dropna(self, axis=0, **k):
        if axis != 0 or k:
            raise Unsupported('dropna')
        cols = [c._snapshot() for c in self.cols.values() if c.kind == 'r']
        keep = SArr((self.n,), lambda i: Bool(z3.And(*[z3.Not(zbool(lift(c(i)).isnan())) for c in cols])), 'b')
        return self.iloc[arr.nonzero(keep)]
