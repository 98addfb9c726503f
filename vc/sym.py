"""Symbolic scalars.  Python ints are mathematical integers; floats are reals with an explicit NaN flag (rounding and
overflow are not modelled: listed as an assumption in the evidence)."""
import datetime
import math
import numbers
import z3
from fractions import Fraction
from . import engine as eng
from .engine import Unsupported, zbool


def _np():
    import numpy
    return numpy


def is_sym(x):
    return isinstance(x, Sym)


def _is_array(o):
    """comparison with an array is elementwise: the array's own method does it"""
    if getattr(o, '_vc_elementwise', False):
        return True
    if isinstance(o, _np().ndarray):
        raise Unsupported('comparison of a symbolic value with a concrete array')
    return False


class Sym(object):
    __array_ufunc__ = None
    __array_priority__ = 1e7
    __slots__ = ('e',)

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<sym %s>' % self.e

    def __format__(self, spec):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Bool(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e if z3.is_expr(e) else z3.BoolVal(bool(e))

    def __bool__(self):
        return eng.CUR.decide(self.e)

    def _lift(self, o):
        if isinstance(o, Bool):
            return o.e
        if isinstance(o, (bool, _np().bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else Bool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else Bool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._lift(o)
        return NotImplemented if b is None else Bool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __invert__(self):      # element of a numpy boolean array
        return Bool(z3.Not(self.e))

    def __eq__(self, o):
        if _is_array(o):
            return NotImplemented
        b = self._lift(o)
        if b is None:
            if isinstance(o, (Num, int, float)):
                return self.num() == o
            return False
        return Bool(self.e == b)

    def __ne__(self, o):
        if _is_array(o):
            return NotImplemented
        r = self.__eq__(o)
        return Bool(z3.Not(r.e)) if isinstance(r, Bool) else not r
    __hash__ = Sym.__hash__

    def num(self):
        return Num(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__


def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    np = _np()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, Fraction):
        return x
    return None


def lift(x):
    """Num for a Python/numpy number or Num, else None."""
    if isinstance(x, Num):
        return x
    if isinstance(x, Bool):
        return x.num()
    np = _np()
    if isinstance(x, (bool, np.bool_)):
        return Num(z3.IntVal(int(x)))
    if isinstance(x, (int, np.integer)):
        return Num(z3.IntVal(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return Num(z3.RealVal(0), z3.BoolVal(True))
        if math.isinf(x):
            return Inf(x > 0)
        f = Fraction(x)
        # decimal literals are read as the rational they denote (reals, not doubles)
        d = Fraction(repr(x))
        return Num(z3.RealVal('%d/%d' % (d.numerator, d.denominator)))
    if isinstance(x, Fraction):
        return Num(z3.RealVal('%d/%d' % (x.numerator, x.denominator)))
    if type(x) is np.ndarray and x.ndim == 0 and x.dtype.kind in 'bif':
        return lift(x.item())
    return None


def _nan_or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


class Num(Sym):
    """Int or Real term with an optional NaN flag."""
    __slots__ = ('nan',)

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = None if nan is None or z3.is_false(nan) else nan

    @property
    def is_int(self):
        return z3.is_int(self.e)

    def real(self):
        return z3.ToReal(self.e) if self.is_int else self.e

    def isnan(self):
        return Bool(z3.BoolVal(False) if self.nan is None else self.nan)

    # numpy scalar odds and ends
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def astype(self, t):
        return self

    def item(self):
        return self

    def _bin(self, o, f, swap=False):
        if isinstance(o, Inf):
            raise Unsupported('arithmetic with infinity')
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = (b, self) if swap else (self, b)
        nan = _nan_or(x.nan, y.nan)
        if x.is_int and y.is_int:
            return Num(f(x.e, y.e), nan)
        return Num(f(x.real(), y.real()), nan)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def _div(self, o, swap):
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = (b, self) if swap else (self, b)
        if z3.is_true(z3.simplify(y.e != 0)):
            pass
        elif eng.CUR.decide(y.e == 0):
            if getattr(eng.CUR, 'np_division', False):     # numpy semantics (inf/nan): not modelled
                raise Unsupported('division by a possibly zero value')
            raise ZeroDivisionError('division by zero')
        return Num(x.real() / y.real(), _nan_or(x.nan, y.nan))

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _floor(self, o, swap, want_mod):
        b = lift(o)
        if b is None:
            return NotImplemented
        x, y = (b, self) if swap else (self, b)
        ys = z3.simplify(y.e)
        if z3.is_true(z3.simplify(ys == 0)):
            raise ZeroDivisionError
        if not (z3.is_int_value(ys) or z3.is_rational_value(ys)):
            if eng.CUR.decide(y.e == 0):
                raise ZeroDivisionError
        nan = _nan_or(x.nan, y.nan)
        if x.is_int and y.is_int:
            # Python floors; SMT-LIB div rounds so that the remainder is >= 0
            q = z3.If(y.e > 0, x.e / y.e, z3.If(x.e % y.e == 0, x.e / y.e, x.e / y.e - 1))
            if z3.is_int_value(ys) and ys.as_long() > 0:
                q = x.e / y.e
            return Num(x.e - q * y.e if want_mod else q, nan)
        q = z3.ToInt(x.real() / y.real())
        if want_mod:
            return Num(x.real() - z3.ToReal(q) * y.real(), nan)
        return Num(z3.ToReal(q), nan)

    def __floordiv__(self, o):
        return self._floor(o, False, False)

    def __rfloordiv__(self, o):
        return self._floor(o, True, False)

    def __mod__(self, o):
        return self._floor(o, False, True)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return self._floor(o, True, True)

    def __pow__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if o == int(o) and 0 <= o <= 8:
                r = Num(z3.IntVal(1)) if self.is_int else Num(z3.RealVal(1))
                for _ in range(int(o)):
                    r = r * self
                return r
            if o == 0.5:
                from . import npmodel
                return npmodel.m_sqrt(self)
            if o == -1:
                return 1 / self
        raise Unsupported('power')

    def __rpow__(self, o):
        raise Unsupported('power')

    def __neg__(self):
        return Num(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    def _cmp(self, o, f, on_nan, inf):
        if isinstance(o, Inf):
            r = z3.BoolVal(inf(o.pos))
            nan = self.nan
        else:
            if isinstance(o, float) and math.isinf(o):
                return self._cmp(Inf(o > 0), f, on_nan, inf)
            b = lift(o)
            if b is None:
                return None
            if isinstance(b, Inf):
                return self._cmp(b, f, on_nan, inf)
            nan = _nan_or(self.nan, b.nan)
            if self.is_int and b.is_int:
                r = f(self.e, b.e)
            else:
                r = f(self.real(), b.real())
        if nan is not None:
            r = z3.Or(nan, r) if on_nan else z3.And(z3.Not(nan), r)
        return Bool(r)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b, False, lambda pos: pos)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b, False, lambda pos: pos)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b, False, lambda pos: not pos)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b, False, lambda pos: not pos)
        return NotImplemented if r is None else r

    def __eq__(self, o):
        if _is_array(o):
            return NotImplemented
        r = self._cmp(o, lambda a, b: a == b, False, lambda pos: False)
        return False if r is None else r

    def __ne__(self, o):
        if _is_array(o):
            return NotImplemented
        r = self._cmp(o, lambda a, b: a != b, True, lambda pos: True)
        return True if r is None else r
    __hash__ = Sym.__hash__

    def __bool__(self):
        c = self.e != 0
        if self.nan is not None:
            c = z3.Or(self.nan, c)
        return eng.CUR.decide(c)

    def __index__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported('symbolic value used where a concrete index is needed')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s) or z3.is_rational_value(s):
            return float(s.as_fraction()) if z3.is_rational_value(s) else float(s.as_long())
        raise Unsupported('symbolic value used where a concrete float is needed')

    def toint(self):
        """int(x): truncation."""
        if self.is_int:
            return self
        return Num(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def tofloat(self):
        return Num(self.real(), self.nan)


class Inf(object):
    """+/- infinity appearing next to symbolic reals (bounds of collapsed cells)."""

    def __init__(self, pos):
        self.pos = pos
        self.nan = None


# ---- constructors ---------------------------------------------------------------------------------------------------
def Int(name, track=True):
    E = eng.CUR
    n = E.fresh(name)
    t = z3.Int(n)
    if track:
        E.input(n, t)
    return Num(t)


def Real(name, nan=False, track=True):
    E = eng.CUR
    n = E.fresh(name)
    t = z3.Real(n)
    if track:
        E.input(n, t)
    if nan:
        b = z3.Bool(n + '.nan')
        if track:
            E.input(n + '.nan', b)
        return Num(t, b)
    return Num(t)


def Boolean(name, track=True):
    E = eng.CUR
    n = E.fresh(name)
    t = z3.Bool(n)
    if track:
        E.input(n, t)
    return Bool(t)


def ite(c, a, b):
    """Pointwise choice without forking."""
    if isinstance(c, (bool, _np().bool_)):
        return a if c else b
    c = zbool(c)
    if isinstance(a, (Bool, bool, _np().bool_)) and isinstance(b, (Bool, bool, _np().bool_)):
        return Bool(z3.If(c, zbool(a), zbool(b)))
    x, y = lift(a), lift(b)
    if isinstance(x, Inf) or isinstance(y, Inf):
        raise Unsupported('conditional infinity')
    if x is None or y is None:
        raise Unsupported('conditional on non numbers: %r %r' % (a, b))
    nan = None
    if x.nan is not None or y.nan is not None:
        f = z3.BoolVal(False)
        nan = z3.If(c, f if x.nan is None else x.nan, f if y.nan is None else y.nan)
    if x.is_int and y.is_int:
        return Num(z3.If(c, x.e, y.e), nan)
    return Num(z3.If(c, x.real(), y.real()), nan)


def term(x):
    """z3 term of a scalar."""
    if isinstance(x, Sym):
        return x.e
    if z3.is_expr(x):
        return x
    if isinstance(x, (bool, _np().bool_)):
        return z3.BoolVal(bool(x))
    n = lift(x)
    if n is None or isinstance(n, Inf):
        raise Unsupported('no term for %r' % (x,))
    return n.e


def iterm(x):
    """z3 Int term of an index."""
    if isinstance(x, Num):
        if not x.is_int:
            raise Unsupported('non-integer index')
        return x.e
    if z3.is_expr(x):
        return x
    return z3.IntVal(int(x))


def and_(*cs):
    return z3.And(*[zbool(c) for c in cs])


def or_(*cs):
    return z3.Or(*[zbool(c) for c in cs])


def not_(c):
    return z3.Not(zbool(c))


def implies(a, b):
    return z3.Implies(zbool(a), zbool(b))


def iff(a, b):
    return zbool(a) == zbool(b)
