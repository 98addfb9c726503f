"""C19 arithmetic and evaluated expressions"""
import itertools
import math
import numpy as np
from vc.api import *
from props import common as C

ID = 'C19'
LEVEL = 'proof'
PROPERTY = dict(
    title='Arithmetic and evaluated expressions act on every point by itself',
    statement='The sum, difference, product, quotient, power, absolute value, exponential and logarithms of ungridded data or '
              'coordinates (with other data, an array or a number) have at every point the operation applied to the values of '
              'this point, missing exactly where a value is missing or, for data with missing values, the operation is undefined. '
              'The units are those which follow from the units of the operands; sums and differences of different units are '
              'refused, as is what does not fit the shape. The coordinates are copies of those of the data, and the operands are '
              'not changed. Done in place the data itself has this result, also as seen flattened, for any type and missing '
              'values. An evaluated expression has at every point its value for the values of the variables at this point, '
              'missing where one used is missing, with the coordinates of this point, and the name, units and attributes asked '
              'for; an expression without such a value at every point is refused.',
    over=['inputs'],
    text='any data, missing values, types, shapes, memory layouts, operations and operands',
    why='Tests use unmasked data of one type; what is wrong only for missing values in one operand, integers or data which has '
        'been looked at before shows as plausible numbers.',
    files=['cis/maths.py', 'cis/evaluate.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/gridded_data.py'],
    mechanism=[('operations', 'cis/maths.py'), ('operators', 'cis/data_io/ungridded_data.py: LazyData'),
               ('expressions', 'cis/evaluate.py: Calculator')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole expressions bounded'
NOTE = ('Proved for data of one or two dimensions of any sizes and values, with the functions of numpy as functions of every element '
        'by itself; any expression through the contract of eval, and some expressions themselves; more dimensions, types and '
        'the domains of functions bounded.')
ASSUMPTIONS = ['numpy: exp, log, power, abs act on every element by itself and keep what is missing (their domains bounded)',
               'numpy: broadcast_arrays gives arrays of the common shape or raises ValueError',
               'cf_units: units combine as an algebra of terms (checked bounded)',
               'eval gives the value of an expression for the names it is given',
               'divisors are not zero; reals instead of floating point; integers do not overflow']
MA = 'cis.maths'
EV = 'cis.evaluate'
UD = 'cis.data_io.ungridded_data'
GD = 'cis.data_io.gridded_data'
CO = 'cis.data_io.Coord'

from vc import arr as A  # noqa


class U(object):
    """units by their contract: an algebra of terms"""
    _vc_symbolic = True

    def __init__(self, t='?'):
        if isinstance(t, U):
            t = t.t
        if t == 'no units':
            raise ValueError('Failed to parse unit')
        self.t = t

    def __mul__(self, o): return U(('*', self.t, getattr(o, 't', o)))
    def __truediv__(self, o): return U(('/', self.t, getattr(o, 't', o)))
    def __pow__(self, o): return U(('**', self.t, o))
    def log(self, base): return U(('log', self.t, base))
    def __eq__(self, o): return self.t == getattr(o, 't', o)
    def __ne__(self, o): return self.t != getattr(o, 't', o)
    def __hash__(self): return hash(self.t)
    def __str__(self): return str(self.t)
    def is_time_reference(self): return False
    def __deepcopy__(self, memo): return self


class Box(object):
    """gridded data through what arithmetic needs of it"""
    _vc_symbolic = True

    def __init__(self, data, units):
        self.data, self.units, self.shape = data, units, data.shape

    def _vc_isinstance(self, t):
        import iris.cube
        return iris.cube.Cube in (t if isinstance(t, tuple) else (t,))


def pick(E, name, k):
    for j in range(k - 1):
        if E.choose('%s %d' % (name, j)):
            return j
    return k - 1


def quiet():
    patch(M(UD).LazyData, 'update_range', lambda self, range=None: None)


def begin(E):
    quiet()
    override('cf_units', Unit=U)
    patch(M(MA), 'Unit', U)
    history = []
    patch(M(UD).LazyData, 'add_history', lambda self, x: history.append((self, x)))


def the_data(E, shape, u='m', coords=True, kind='r'):
    """a data set (or, without coords, a coordinate), its coordinates and its values"""
    co, ud = M(CO), M(UD)
    v = fresh_array('values', shape, kind, masked=E.choose('missing values'))
    if not coords:
        return co.Coord(v, ud.Metadata('h', long_name='height', units=U(u)), 'Z'), [], v
    cs = [co.Coord(fresh_array(nm, shape, 'r'), ud.Metadata(nm[:3], standard_name=nm, units=U('degrees')), ax)
          for nm, ax in (('latitude', 'Y'), ('longitude', 'X'))]
    return ud.UngriddedData(v, ud.Metadata('v', long_name='value', units=U(u)), co.CoordList(cs)), cs, v


def shape_of(E):
    n, m = Int('n'), Int('m')
    E.assume(z3.And(n.e >= 1, m.e >= 1))
    return (n, m) if E.choose('two dimensions') else (n,)


def each(E, name, got, shape, value, mask):
    """got has this shape and at every place this value or is masked"""
    got = asarr(got)
    E.prove(name + ': shape', z3.And(z3.BoolVal(got.ndim == len(shape)), *[iterm(x) == iterm(y) for x, y in zip(got.shape, shape)]))
    at = [Int('at%d' % k) for k in range(len(shape))]
    h = z3.And(*[zbool(in_range(i, x)) for i, x in zip(at, shape)])
    mk = zbool(mask(*at))
    E.prove(name, Bool(z3.Implies(h, z3.And(zbool(got.mask_at(*at)) == mk, z3.Or(mk, zbool(same(got.at(*at), value(*at))))))))


def flat(E, name, got, full):
    """got is full, row by row"""
    got, w = asarr(got), asarr(full).flatten()
    k = Int('k')
    E.prove(name + ': shape', z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(w.shape[0])))
    mk = zbool(w.mask_at(k))
    E.prove(name, Bool(z3.Implies(zbool(in_range(k, w.shape[0])), z3.And(zbool(got.mask_at(k)) == mk, z3.Or(mk, zbool(same(got.at(k), w.at(k))))))))


def kept(E, name, a, orig):
    each(E, name, a, orig.shape, orig.at, orig.mask_at)


def broadcast_arrays(a, b):
    """numpy.broadcast_arrays: as far as the shapes go"""
    use('numpy.broadcast_arrays')
    E = A.eng.CUR if hasattr(A, 'eng') else None
    a, b = asarr(a), asarr(b)
    k = max(a.ndim, b.ndim)
    x, y = [lift(1)] * (k - a.ndim) + list(a.shape), [lift(1)] * (k - b.ndim) + list(b.shape)
    shape = []
    for p, q in zip(x, y):
        if iff(iterm(p) == iterm(q)):
            shape.append(p)
        elif iff(iterm(q) == 1):
            shape.append(p)
        elif iff(iterm(p) == 1):
            shape.append(q)
        else:
            raise ValueError('shape mismatch: objects cannot be broadcast to a single shape')
    r = fresh_array('view', tuple(shape), 'r')
    return [r, r]


def iff(c):
    from vc import engine
    return engine.CUR.decide(c)


UFN = {}


def ufunc(name):
    """a function of numpy, applied to every element by itself; missing elements stay missing (its domain is not modelled)"""
    R = z3.RealSort()
    f = UFN.setdefault(name, z3.Function('np.' + name, R, R))
    return lambda x: Num(f(lift(x).real()))


def stub_ufunc(name):
    def g(a, out=None):
        use('numpy.%s acts on every element by itself' % name)
        a = asarr(a)
        r = A.pointwise(ufunc(name), 'r', a)
        if out is None:
            return r
        if asarr(out).kind == 'i':
            raise TypeError('Cannot cast ufunc output')
        out[...] = r
        return out
    lib_contract('numpy.' + name, g)


def after(E, r, d, cs, c0, v, v0, shape, inplace, value, mask, want):
    """postconditions common to the operations"""
    each(E, 'the operation on the values of every point', r.data, shape, value, mask)
    flat(E, 'the flattened data', r.data_flattened, r.data)
    E.prove('units', z3.BoolVal(r.units == want))
    E.prove('kind of result', z3.BoolVal(type(r) is type(d) and (r is d) == inplace))
    E.prove('names', z3.BoolVal(r.var_name in ('v', 'h') and r.var_name == d.var_name and r.long_name == d.long_name))
    if cs:
        E.prove('the same coordinates', z3.BoolVal([x.name() for x in r.coords()] == [x.name() for x in cs]))
        for x, o in zip(r.coords(), c0):
            kept(E, 'coordinate ' + x.name(), x.data, o)
    if not inplace:
        E.prove('the units of the data are kept', z3.BoolVal(d.units == U('m')))
        # nothing is shared: changing the result changes neither the data nor its coordinates
        asarr(r.data)[...] = Real('other')
        for x in r.coords() if cs else []:
            asarr(x.data)[...] = Real('other')
            x.units = U('radians')
        kept(E, 'the data is not changed', d.data, v0)
        E.prove('the data keeps its array', z3.BoolVal(d.data is v))
        for x, o in zip(d.coords() if cs else [], c0):
            kept(E, 'coordinate %s of the data' % x.name(), x.data, o)
            E.prove('units of coordinate %s of the data' % x.name(), z3.BoolVal(x.units == U('degrees')))


OTHERS = ['a number', 'a row', 'an array of the same shape', 'gridded data', 'ungridded data', 'another shape']


def binary_unit(op, w):
    @unit(UNITS, '%s [with %s]' % (op, OTHERS[w]), [MA + ':' + op, MA + ':_binary_op_common', MA + ':_math_op_common', MA + ':_assert_compatible',
                      MA + ':_assert_is_ungridded_data', UD + ':UngriddedData.copy', CO + ':Coord.copy', CO + ':CoordList.copy',
                      UD + ':LazyData.data', UD + ':LazyData.data_flattened'] +
          ([MA + ':_add_subtract_common', MA + ':_assert_matching_units'] if op in ('add', 'subtract') else []),
          max_paths=6000, timeout_ms=20000)
    def u(E):
        begin(E)
        m = M(MA)
        lib_contract('numpy.broadcast_arrays', broadcast_arrays)
        inplace = E.choose('in place')
        shape = shape_of(E)
        two = len(shape) == 2
        if w == 1 and not two:
            return
        d, cs, v = the_data(E, shape, coords=two or not E.choose('a coordinate'))
        v0, c0 = v.copy(), [x.data.copy() for x in cs]
        if inplace and not two and E.choose('looked at before'):
            d.data_flattened
        ub = 's' if w >= 3 and (op in ('multiply', 'divide') or E.choose('of other units')) else 'm'
        if ub == 's' and E.choose('units which differ in the case of a letter'):
            ub = 'M'
        big = None
        if w == 0:
            other = Real('number')
            b0, bmask, ub = (lambda *i: other), (lambda *i: False), None
        elif w in (1, 5):
            # the last dimension only, or another length or one more dimension
            k = Int('k')
            E.assume(k.e >= 2)
            sh = (shape[-1],) if w == 1 else (k, shape[-1]) if not two else (k,)
            if w == 5 and two:
                if E.choose('rows and columns the other way round'):
                    sh = (shape[1], shape[0])
                    E.restrict(z3.And(shape[0].e != shape[1].e, shape[0].e >= 2, shape[1].e >= 2))
                else:
                    E.restrict(k.e != iterm(shape[-1]))
            big = None if w == 1 else sh
            other = fresh_array('other', sh, 'r', masked=w == 1 and E.choose('row with missing values'))
            oc = other.copy()
            b0, bmask, ub = (lambda *i: oc.at(*i[-oc.ndim:])), (lambda *i: oc.mask_at(*i[-oc.ndim:])), None
        else:
            arr_ = fresh_array('other', shape, 'r', masked=E.choose('missing values in the other'))
            oc = arr_.copy()
            b0, bmask = oc.at, oc.mask_at
            if w == 2:
                other, ub = arr_, None
            elif w == 3:
                other = Box(arr_, U(ub))
            else:
                other = M(UD).UngriddedData(arr_, M(UD).Metadata('o', units=U(ub)), M(CO).CoordList([
                    M(CO).Coord(fresh_array('other latitude', shape, 'r'), M(UD).Metadata('lat', standard_name='latitude', units=U('degrees')), 'Y')]))
        if op == 'divide':
            at = [Int('z%d' % k) for k in range(len(shape))]
            if w == 0:
                E.assume(other.e != 0)
            elif big is None:
                q = [z3.Int('q%d' % i) for i in range(oc.ndim)]
                E.assume(z3.ForAll(q, lift(oc.at(*q)).real() != 0))
        if w != 0 and big is None:
            other_arr = other if w in (1, 2, 5) else other.data
            ocopy = oc
        E.cover()
        f = getattr(m, op)
        if not inplace and w != 5 and not two and E.choose('as an operator'):
            nm = dict(add='__add__', subtract='__sub__', multiply='__mul__', divide='__truediv__')[op]
            if w == 0 and op in ('add', 'multiply') and E.choose('the number first'):
                nm = nm.replace('__', '__r', 1)
            call = lambda: getattr(type(d), nm)(d, other)
        else:
            call = (lambda: f(d, other, in_place=True)) if inplace else (lambda: f(d, other))
        r, e = raises(call)
        refused = op in ('add', 'subtract') and ub in ('s', 'M')
        if refused:
            E.prove('different units are refused', z3.BoolVal(isinstance(e, NotImplementedError)))
            kept(E, 'the data is kept if refused', d.data, v0)
            E.prove('the units are kept if refused', z3.BoolVal(d.units == U('m')))
            return
        if big is not None:
            E.prove('what does not fit is refused', z3.BoolVal(isinstance(e, ValueError)))
            kept(E, 'the data is kept if the other does not fit', d.data, v0)
            E.prove('the units are kept if the other does not fit', z3.BoolVal(d.units == U('m')))
            return
        if e is not None:
            raise e
        g = dict(add=lambda x, y: x + y, subtract=lambda x, y: x - y, multiply=lambda x, y: x * y, divide=lambda x, y: x / y)[op]
        want = U('m') if op in ('add', 'subtract') else U(('*' if op == 'multiply' else '/', 'm', ub or '1'))
        after(E, r, d, cs, c0, v, v0, shape, inplace, lambda *i: g(v0.at(*i), b0(*i)),
              lambda *i: z3.Or(zbool(v0.mask_at(*i)), zbool(bmask(*i))), want)
        if w != 0:
            kept(E, 'the other operand is not changed', other if w in (1, 2, 5) else other.data, ocopy)
            if w > 2:
                E.prove('the units of the other operand are kept', z3.BoolVal(other.units == U(ub)))


for _op in ('add', 'subtract', 'multiply', 'divide'):
    for _w in range(6):
        binary_unit(_op, _w)


def unary_unit(op, units):
    @unit(UNITS, op, [MA + ':' + op, MA + ':_math_op_common', MA + ':_assert_is_ungridded_data', UD + ':UngriddedData.copy',
                      CO + ':Coord.copy', CO + ':CoordList.copy', UD + ':LazyData.data', UD + ':LazyData.data_flattened'],
          max_paths=3000)
    def u(E):
        begin(E)
        m = M(MA)
        name = dict(exponentiate='power').get(op, op)
        p = Real('exponent')
        if op == 'exponentiate':
            R = z3.RealSort()
            fn = UFN.setdefault('power', z3.Function('np.power', R, R, R))

            def power(a, b, out=None):
                use('numpy.power acts on every element by itself')
                r = A.pointwise(lambda x: Num(fn(lift(x).real(), lift(b).real())), 'r', asarr(a))
                if out is None:
                    return r
                if asarr(out).kind == 'i':
                    raise TypeError('Cannot cast ufunc output')
                out[...] = r
                return out
            lib_contract('numpy.power', power)
            value = lambda x: Num(fn(lift(x).real(), p.e))
        else:
            stub_ufunc(name)
            value = ufunc(name)
        inplace = E.choose('in place')
        shape = shape_of(E)
        d, cs, v = the_data(E, shape, coords=not E.choose('a coordinate'), kind='i' if E.choose('integers') else 'r')
        v0, c0 = v.copy(), [x.data.copy() for x in cs]
        if inplace and E.choose('looked at before'):
            d.data_flattened
        E.cover()
        kw = dict(in_place=True) if inplace else {}
        if op == 'exponentiate':
            r = type(d).__pow__(d, p) if not inplace and E.choose('as an operator') else m.exponentiate(d, p, **kw)
        else:
            r = getattr(m, op)(d, **kw)
        after(E, r, d, cs, c0, v, v0, shape, inplace, lambda *i: value(v0.at(*i)), v0.mask_at,
              U(('**', 'm', p)) if op == 'exponentiate' else U(units))


unary_unit('abs', 'm')
unary_unit('exp', '1')
unary_unit('log', ('log', 'm', math.e))
unary_unit('log2', ('log', 'm', 2))
unary_unit('log10', ('log', 'm', 10))
unary_unit('exponentiate', None)


EVALS = [('a', lambda a, b: a, 'a'), ('a + b', lambda a, b: a + b, 'ab'), ('2*a - b*a', lambda a, b: a * 2 - b * a, 'ab'),
         ('(b - a)/4', lambda a, b: (b - a) / 4, 'ab'), ('abs(b) + 1', lambda a, b: Num(z3.If(lift(b).e < 0, -lift(b).e, lift(b).e)) + 1, 'b'),
         ('a**2', lambda a, b: a * a, 'a')]
SAFE = ['abs', 'all', 'any', 'bool', 'divmod', 'enumerate', 'filter', 'int', 'len', 'map', 'max', 'min', 'pow', 'range', 'reversed',
        'round', 'sorted', 'sum', 'zip']


class Bag(object):
    _vc_symbolic = True

    def __init__(self, **k):
        self.__dict__.update(k)


def size_of(E, shape):
    N, un, fl = A.flatmap(shape)
    if len(shape) > 1:
        E.axiom('an array has as many elements as the product of its sizes', iterm(N) == iterm(shape[0]) * iterm(shape[1]))
    return N, un, fl


class Grid(object):
    """gridded data through what evaluation needs of it; make_new_with_same_coordinates is under contract on its own"""
    _vc_symbolic = True
    is_gridded = True
    filenames = ['f.nc']

    def __init__(self, data, alias, name='v'):
        self.data, self.alias, self.shape, self.var_name, self.made = data, alias, data.shape, name, []

    def make_new_with_same_coordinates(self, **k):
        self.made.append(k)
        self.result = Bag(add_attributes=lambda a: k.update(attributes=a))
        return self.result


def prepare(E):
    begin(E)
    import builtins
    m = M(EV)
    if 'eval' not in m.__dict__:
        m.eval = builtins.eval
    return m


def variables(E, gridded, shape):
    if gridded:
        ds = [Grid(fresh_array(nm, shape, 'r', masked=E.choose('missing values in ' + nm)), nm) for nm in 'ab']
        return ds, [d.data for d in ds], []
    ds, vs = [], []
    for nm in 'ab':
        d, cs, v = the_data(E, shape)
        d.alias = nm
        d._filenames = []
        patch(type(d), 'filenames', ['f.nc'])
        if nm == 'a':
            first = cs
            if E.choose('looked at before'):
                d.data_flattened
        ds.append(d)
        vs.append(v)
    return ds, vs, first


def outcome(E, m, r, ds, vs, v0, first, c0, gridded, shape, got_value, got_mask, name, units):
    if gridded:
        E.prove('made from the first variable', z3.BoolVal(len(ds[0].made) == 1 and not ds[1].made and r is ds[0].result))
        k = ds[0].made[0]
        data = asarr(k['data'])
        each(E, 'value at every point', data, shape, got_value, got_mask)
        E.prove('name and units', z3.BoolVal(k['var_name'] == name and k['units'] == units and k['standard_name'] is None))
        E.prove('attributes', z3.BoolVal(k.get('attributes') == {'why': 'because'}))
    else:
        N, un, fl = A.flatmap(shape)
        pos = (lambda k: un(k)) if len(shape) > 1 else (lambda k: (k,))
        each(E, 'value at every point', r.data, (N,), lambda k: got_value(*pos(iterm(k))), lambda k: got_mask(*pos(iterm(k))))
        for x, o in zip(r.coords(), c0):
            flat(E, 'coordinate %s of every point' % x.name(), x.data, o)
        E.prove('the coordinates', z3.BoolVal([x.name() for x in r.coords()] == [x.name() for x in first]))
        E.prove('name and units', z3.BoolVal(r.var_name == name and r.units == U(units)))
        for x in r.coords():
            x.units = U('radians')
        for x, o in zip(ds[0].coords(), c0):
            kept(E, 'coordinate %s of the variable' % x.name(), x.data, o)
            E.prove('units of coordinate %s of the variable' % x.name(), z3.BoolVal(x.units == U('degrees')))
    for d, v, o in zip(ds, vs, v0):
        kept(E, 'variable %s is not changed' % d.alias, d.data, o)


def eval_unit(gridded):
    fns = [EV + ':Calculator.evaluate', EV + ':Calculator._post_process', EV + ':Calculator._make_history', EV + ':Calculator._make_var_info']
    if not gridded:
        fns += [UD + ':UngriddedData.make_new_with_same_coordinates', UD + ':LazyData.data_flattened']

    @unit(UNITS, 'evaluate [%s]' % ('gridded' if gridded else 'ungridded'), fns, max_paths=3000, timeout_ms=20000)
    def u(E):
        """any expression, through the contract of eval: a value of it for the names it is given"""
        m = prepare(E)
        shape = shape_of(E)
        ds, vs, first = variables(E, gridded, shape)
        v0, c0 = [v.copy() for v in vs], [x.data.copy() for x in first]
        N, un, fl = size_of(E, shape)
        want = shape if gridded else (N,)
        how = pick(E, 'eval', 5)
        other = Int('k')
        E.assume(other.e >= 1)
        value = fresh_array('value', want, 'r', masked=E.choose('missing values in the value'))
        val0 = value.copy()
        seen = []

        def ev(expr, g=None, l=None):
            use('eval: the value of an expression for the names given to it')
            seen.append((expr, g, l))
            if how == 1:
                raise NameError('name is not defined')
            if how == 2:
                raise ValueError('operands could not be broadcast together')
            if how == 3:
                return fresh_array('bad', (other,), 'r')
            if how == 4:
                return fresh_array('bad', tuple(want) + (other,), 'r')
            return value
        patch(m, 'eval', ev)
        E.cover()
        expr = 'some(expression)'
        r, e = raises(lambda: m.Calculator().evaluate(ds, expr, 'out', 'Pa', {'why': 'because'}))
        E.prove('evaluated once', z3.BoolVal(len(seen) == 1 and seen[0][0] == expr))
        g, l = seen[0][1:]
        E.prove('the names which it may use', z3.BoolVal(sorted(l) == ['a', 'b'] and sorted(g) == ['__builtins__', 'numpy'] and
                                                        sorted(g['__builtins__']) == SAFE))
        for nm, o in zip('ab', v0):
            if gridded:
                kept(E, 'the name %s is the data' % nm, l[nm], o)
            else:
                flat(E, 'the name %s is the data, row by row' % nm, l[nm], o)
        if how in (1, 2, 4):
            E.prove('an error in the expression is reported', z3.BoolVal(isinstance(e, m.EvaluationError)))
            return
        if how == 3:
            fits = iterm(other) == iterm(N) if not gridded else iterm(other) == iterm(shape[0]) if len(shape) == 1 else z3.BoolVal(False)
            if isinstance(e, m.EvaluationError):
                E.prove('only other shapes are refused', Bool(z3.Not(fits)))
            elif e is None:
                E.prove('other shapes are refused', Bool(fits))
            else:
                raise e
            return
        if e is not None:
            raise e
        if gridded:
            outcome(E, m, r, ds, vs, v0, first, c0, True, shape, val0.at, val0.mask_at, 'out', 'Pa')
        else:
            outcome(E, m, r, ds, vs, v0, first, c0, False, shape,
                    lambda *i: val0.at(fl(i) if len(shape) > 1 else i[0]), lambda *i: val0.mask_at(fl(i) if len(shape) > 1 else i[0]),
                    'out', 'Pa')

    @unit(UNITS, 'evaluated expressions [%s]' % ('gridded' if gridded else 'ungridded'), fns, max_paths=3000, timeout_ms=20000)
    def u2(E):
        """finite: the expressions; the data is arbitrary"""
        m = prepare(E)
        shape = shape_of(E)
        ds, vs, first = variables(E, gridded, shape)
        size_of(E, shape)
        v0, c0 = [v.copy() for v in vs], [x.data.copy() for x in first]
        text, f, names = EVALS[pick(E, 'expression', len(EVALS))]
        E.cover()
        r = m.Calculator().evaluate(ds, text, 'out', 'Pa', {'why': 'because'})
        outcome(E, m, r, ds, vs, v0, first, c0, gridded, shape, lambda *i: f(v0[0].at(*i), v0[1].at(*i)),
                lambda *i: z3.Or(*[zbool(v0['ab'.index(nm)].mask_at(*i)) for nm in names]), 'out', 'Pa')


eval_unit(True)
eval_unit(False)


@unit(UNITS, 'evaluate: refused names', [EV + ':Calculator.evaluate'])
def u_refuse(E):
    m = prepare(E)
    d = Grid(fresh_array('v', (Int('n'),), 'r'), 'a')
    called = []
    patch(m, 'eval', lambda *a: called.append(a))
    E.cover()
    text = ['a.__class__', '__import__("os")', 'a + b__', '__', 'a.x__y'][pick(E, 'text', 5)]
    r, e = raises(lambda: m.Calculator().evaluate([d], text))
    E.prove('double underscores are refused', z3.BoolVal(isinstance(e, m.EvaluationError) and not called))


@unit(UNITS, 'GriddedData.make_new_with_same_coordinates', [GD + ':GriddedData.make_new_with_same_coordinates'])
def u_gnew(E):
    gd = M(GD)
    f = gd.GriddedData.make_new_with_same_coordinates
    made = []

    class New(object):
        _vc_symbolic = True

        def __init__(self, **k):
            made.append(k)
            self.k, self.history = k, []

        def add_history(self, h):
            self.history.append(h)
    patch(gd, 'GriddedData', New)
    shape = shape_of(E)
    me = Bag(shape=shape, _dim_coords_and_dims=[('lat', 0)], _aux_coords_and_dims=[('tag', (0,))], _aux_factories=['factory'])
    data = fresh_array('data', shape, 'r', masked=E.choose('missing'))
    d0 = data.copy()
    given = E.choose('data given')
    E.cover()
    r = f(me, data=data if given else None, var_name='v', standard_name='air_pressure', long_name='l', history='h', units='Pa', flatten=E.choose('flatten'))
    k = made[0]
    E.prove('one', z3.BoolVal(len(made) == 1 and isinstance(r, New)))
    if given:
        kept(E, 'the data', k['data'], d0)
    else:
        each(E, 'zeros', k['data'], shape, lambda *i: lift(0), lambda *i: False)
    E.prove('coordinates', z3.BoolVal(list(k['dim_coords_and_dims']) == [('lat', 0)] and list(k['aux_coords_and_dims']) == [('tag', (0,))] and
                                      list(k['aux_factories']) == ['factory']))
    E.prove('names and units', z3.BoolVal((k['var_name'], k['standard_name'], k['long_name'], k['units']) == ('v', 'air_pressure', 'l', 'Pa')))
    E.prove('history', z3.BoolVal(r.history == ['h']))


RULE = ('every kind of operation, data type, memory layout, missing values of either operand, in place or not, looked at before or '
        'not; random expressions of up to three variables of gridded and ungridded data of one to three dimensions')
BOUNDED_FUNCTIONS = [MA + ':abs', MA + ':exp', MA + ':log', MA + ':log2', MA + ':log10', EV + ':Calculator.evaluate']

DT = ['f8', 'f8', 'f4', 'i8', 'i4', 'i2', '>f8']
BIN = ['add', 'subtract', 'multiply', 'divide']
UN = ['abs', 'exp', 'log', 'log2', 'log10', 'exponentiate']


def cases(rng, tier, scale):
    k = 0
    while True:
        kind = ['op', 'op', 'eval'][k % 3]
        k += 1
        shape = rng.choice([[3], [1], [2, 3], [4], [3, 2], [2, 2, 2], [5]])
        n = int(np.prod(shape))

        def var():
            return dict(vals=[rng.choice([1, -1]) * rng.randint(1, 9) for _ in range(n)] if rng.random() < .5 else
                        [rng.randint(1, 90) for _ in range(n)], mask=C.maybe_mask(rng, n, .6), dtype=rng.choice(DT),
                        layout=rng.choice(['C', 'C', 'F', 'strided', 'reversed']))
        c = dict(kind=kind, shape=shape, a=var(), b=var(), coords=[rng.sample(range(40), n), rng.sample(range(-40, 40), n)],
                 seen=rng.random() < .5)
        if kind == 'op':
            c['op'] = (BIN + UN)[(k // 3) % (len(BIN) + len(UN))]
            c['with'] = rng.choice(['data', 'data', 'array', 'number', 'row', 'coord', 'cube'])
            c['number'] = rng.choice([2, 3, .5, -1.5, 10])
            c['power'] = rng.choice([2, 3, 1, .5, 2.])
            c['in_place'] = rng.choice([False, True, 'operator', 'operator='])
            c['swap'] = rng.random() < .5
            c['of'] = rng.choice(['data', 'data', 'coord'])
            c['units'] = rng.choice([['m', 'm'], ['K', 'K'], ['m', 's'], ['1', '1'], ['m', 'cm'], ['unknown', 'unknown'], ['Mm', 'mm'], ['mPa', 'MPa'], ['K', 'degC'], ['m', 'm2']])
            c['turned'] = rng.random() < .15
            if c['op'] == 'exponentiate' and c['power'] == .5:
                c['units'] = ['m2', 'm2']
        else:
            c['gridded'] = rng.random() < .4
            c['c'] = var()
            c['alias'] = rng.random() < .5
            c['expr'] = expression(rng, 3)
            c['lone'] = rng.random() < .05
            c['lists'] = rng.random() < .5
        yield c


def expression(rng, depth):
    r = rng.random()
    if depth == 0 or r < .15:
        return rng.choice(['a', 'b', 'c', 'a', 'b', 'c', '2', '0.5', '3.25'])
    if r < .7:
        return '(%s %s %s)' % (expression(rng, depth - 1), rng.choice('+-*'), expression(rng, depth - 1))
    if r < .8:
        return '(%s / (abs(%s) + 1))' % (expression(rng, depth - 1), expression(rng, depth - 1))
    if r < .9:
        return 'abs(%s)' % expression(rng, depth - 1)
    return 'numpy.sqrt(abs(%s))' % expression(rng, depth - 1)


def array(v, shape):
    a = np.array(v['vals'], dtype=v['dtype']).reshape(shape)
    m = None if v['mask'] is None else np.array(v['mask'], bool).reshape(shape)
    if v['layout'] == 'F':
        a, m = np.asfortranarray(a), None if m is None else np.asfortranarray(m)
    r = a if m is None else np.ma.array(a, mask=m)
    if v['layout'] == 'strided':
        w = np.ma.zeros(tuple(shape) + (2,), dtype=v['dtype']) if m is not None else np.zeros(tuple(shape) + (2,), dtype=v['dtype'])
        w[..., 0] = r
        w[..., 1] = 77
        r = w[..., 0]
    if v['layout'] == 'reversed':
        w = r[::-1].copy()
        r = w[::-1]
    return r


def make(v, c, units, name):
    from cis.data_io.ungridded_data import UngriddedData, Metadata
    from cis.data_io.Coord import Coord, CoordList
    cs = CoordList([Coord(np.array(x, float).reshape(c['shape']), Metadata(standard_name=nm, units='degrees', name=nm), ax)
                    for x, nm, ax in zip(c['coords'], ['latitude', 'longitude'], 'YX')])
    return UngriddedData(array(v, c['shape']), Metadata(name=name, long_name=name + ' value', units=units), cs)


def values(a):
    return C.vals(a)


OPS = dict(add=lambda x, y: x + y, subtract=lambda x, y: x - y, multiply=lambda x, y: x * y, divide=lambda x, y: x / y)
FNS = dict(abs=abs, exp=math.exp, log=math.log, log2=lambda x: math.log(x) / math.log(2), log10=math.log10)


def compare(what, got, want, shape, tol):
    if tuple(got.shape) != tuple(shape):
        return what + ': shape %s' % (got.shape,)
    g = values(got)
    for i, (x, y) in enumerate(zip(g, want)):
        if y is None:
            if x is not None:
                return '%s: value %d is %s, which is missing in the data' % (what, i, x)
        elif x is None or not abs(x - y) <= tol * max(1., abs(y)):
            return '%s: value %d is %s, not %s' % (what, i, x, y)


def check(c):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return (op_check if c['kind'] == 'op' else eval_check)(c)


def op_check(c):
    import operator
    from cf_units import Unit
    from cis import maths
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata
    shape, op = c['shape'], c['op']
    n = int(np.prod(shape))
    ua, ub = c['units']
    sig = op + ('' if c['in_place'] is False else ' in place')
    if c['of'] == 'coord':
        a = Coord(array(c['a'], shape), Metadata(name='h', long_name='h value', units=ua), 'Z')
        va = values(array(c['a'], shape))
    else:
        a = make(c['a'], c, ua, 'a')
        va = values(array(c['a'], shape))
    if c['seen']:
        a.data_flattened
    before = a.copy() if c['of'] == 'data' else None
    tol = 1e-9
    if c['a']['dtype'] == 'f4' or c['a']['dtype'] == 'i2' or c['b']['dtype'] == 'f4' or c['b']['dtype'] == 'i2':
        tol = 2e-3 if op == 'exp' and c['a']['dtype'] in ('f4', 'i2') else 2e-5
    masked = isinstance(a.data, np.ma.MaskedArray)
    if op in UN:
        other = None
        if op == 'exponentiate':
            p = c['power']
            if p == .5:
                va = [None if x is None else x if x > 0 or not masked else None for x in va]
                if any(x is not None and x <= 0 for x in va) or any(x < 0 for x in np.ma.getdata(a.data).ravel().tolist()):
                    return None
            want = [None if x is None else float(x) ** p for x in va]
            unit = Unit(ua) ** p
        else:
            if op.startswith('log'):
                va = [None if x is None else x if x > 0 or not masked else None for x in va]
                if any(x is not None and x <= 0 for x in va):
                    return None
            if op == 'exp' and any(x is not None and x > 80 for x in va):
                return None
            want = [None if x is None else FNS[op](float(x)) for x in va]
            unit = dict(abs=lambda: Unit(ua), exp=lambda: Unit('1'), log=lambda: Unit(ua).log(math.e), log2=lambda: Unit(ua).log(2),
                        log10=lambda: Unit(ua).log(10))[op]()

        def run(ip):
            if ip in ('operator', 'operator='):
                if op != 'exponentiate':
                    return getattr(maths, op)(a, in_place=ip == 'operator=')
                if ip == 'operator':
                    return a ** c['power']
                return maths.exponentiate(a, c['power'], in_place=True)
            kw = dict(in_place=True) if ip else {}
            return maths.exponentiate(a, c['power'], **kw) if op == 'exponentiate' else getattr(maths, op)(a, **kw)
        inplace = c['in_place'] in (True, 'operator=')
        refused = False
    else:
        w = c['with']
        obj = None
        if w == 'number':
            other, vb, ub_ = c['number'], [c['number']] * n, None
        elif w == 'row':
            other = array(dict(c['b'], mask=None, layout='C', vals=c['b']['vals'][:shape[-1]]), shape[-1:])
            vb, ub_ = (values(other) * n)[:n], None
        elif w == 'array':
            other = array(c['b'], shape)
            vb, ub_ = values(other), None
        elif w == 'coord':
            other = Coord(array(c['b'], shape), Metadata(name='k', long_name='k', units=ub), 'Z')
            vb, ub_ = values(other.data), ub
        elif w == 'cube':
            from cis.data_io.gridded_data import GriddedData
            other = GriddedData(array(c['b'], shape), long_name='b', units=ub)
            vb, ub_ = values(array(c['b'], shape)), ub
        else:
            other = make(c['b'], c, ub, 'b')
            vb, ub_ = values(other.data), ub
        if op == 'divide' and w == 'number' and c['number'] == 0:
            return None
        if c.get('turned') and w in ('array', 'coord', 'cube', 'data') and len(shape) > 1:
            return misfit(c, a, op, w)
        obj = other
        snapb = C.snap(other) if not hasattr(other, 'data_flattened') else (C.snap(other.data), str(other.units))
        want = [None if x is None or y is None else OPS[op](float(x), float(y)) for x, y in zip(va, vb)]
        same = ub_ is None or Unit(ua) == Unit(ub_)
        if op in ('add', 'subtract'):
            unit = Unit(ua)
            refused = not same
        else:
            o = Unit(ub_ or '1')
            unit = Unit(ua) * o if op == 'multiply' else Unit(ua) / o
            refused = False

        def run(ip):
            if ip == 'operator':
                f = dict(add=operator.add, subtract=operator.sub, multiply=operator.mul, divide=operator.truediv)[op]
                if c['swap'] and w == 'number' and op in ('add', 'multiply'):
                    return f(other, a)
                return f(a, other)
            if ip == 'operator=':
                f = dict(add=operator.iadd, subtract=operator.isub, multiply=operator.imul, divide=operator.itruediv)[op]
                return f(a, other)
            return getattr(maths, op)(a, other, **(dict(in_place=True) if ip else {}))
        inplace = c['in_place'] is True
    types = [x.dtype for x in (a.data, other.data if hasattr(other, 'data') and not isinstance(other, np.ndarray) else other) if hasattr(x, 'dtype')]
    if all(t.kind in 'iu' for t in types) and any(abs(x or 0) > min(np.iinfo(t).max for t in types) for x in want):
        return None         # integers which overflow
    data0 = a.data
    old = values(array(c['a'], shape))
    try:
        r = run(c['in_place'])
    except NotImplementedError:
        if not refused:
            raise
        r = None
    if refused:
        if r is not None:
            return 'data of different units are combined', 'units'
        if values(a.data) != old or str(a.units) != str(Unit(ua)):
            return 'data is changed by an operation which is refused', 'units'
        return None
    if inplace and r is not a:
        return 'done in place another object is the result', sig
    bad = (compare('the result', r.data, want, shape, tol) or
           compare('the result (flattened)', r.data_flattened, want, [n], tol))
    if bad:
        return bad, sig + ', ' + c['a']['dtype']
    if Unit(str(unit)) != Unit(str(r.units)) and r.units != unit:
        return 'units %s instead of %s' % (r.units, unit), 'units'
    if type(r) is not type(a):
        return 'the result is a %s' % type(r).__name__, sig
    if not inplace:
        if r is a or a.data is not data0 or values(a.data) != old or values(a.data_flattened) != old:
            return 'the data is changed', sig
        if np.shares_memory(np.ma.getdata(r.data), np.ma.getdata(a.data)):
            return 'the result shares its values with the data', sig
        if a.units != Unit(ua):
            return 'the units of the data are changed', sig
    if op in BIN:
        now = C.snap(obj) if not hasattr(obj, 'data_flattened') else (C.snap(obj.data), str(obj.units))
        if now != snapb and obj is not a:
            return 'the other operand is changed', sig
    if c['of'] == 'data':
        if [x.name() for x in r.coords()] != ['latitude', 'longitude']:
            return 'coordinates %s' % [x.name() for x in r.coords()], sig
        for x, w, y in zip(r.coords(), c['coords'], a.coords()):
            if x.data.shape != tuple(shape) or x.data.ravel().tolist() != [float(e) for e in w]:
                return 'coordinate %s is changed' % x.name(), sig
            if not inplace and (x is y or np.shares_memory(x.data, y.data)):
                return 'coordinate %s is shared' % x.name(), sig
        if r.var_name != 'a' or r.long_name != 'a value':
            return 'names %s, %s' % (r.var_name, r.long_name), sig
    return None


def misfit(c, a, op, w):
    """what has as many values in another shape doesn't belong to the same points"""
    from cis import maths
    shape = c['shape'][::-1] if c['shape'] != c['shape'][::-1] else [int(np.prod(c['shape'])), 1, 1, 1]
    if w == 'data':
        other = make(c['b'], dict(c, shape=shape), c['units'][0], 'b')
    elif w == 'coord':
        from cis.data_io.Coord import Coord
        from cis.data_io.ungridded_data import Metadata
        other = Coord(array(c['b'], shape), Metadata(name='k', long_name='k', units=c['units'][0]), 'Z')
    elif w == 'cube':
        from cis.data_io.gridded_data import GriddedData
        other = GriddedData(array(c['b'], shape), long_name='b', units=c['units'][0])
    else:
        other = array(c['b'], shape)
    try:
        r = getattr(maths, op)(a, other, in_place=c['in_place'] is True)
    except ValueError:
        r = None
    if r is not None and tuple(r.data.shape) == tuple(c['shape']):
        return 'values of other points are combined: shapes %s and %s' % (c['shape'], shape), 'shape'
    if values(a.data) != values(array(c['a'], c['shape'])):
        return 'data is changed by an operation which is refused', 'shape'


def point(expr, env):
    class N(object):
        sqrt = staticmethod(math.sqrt)
    return eval(expr, dict(numpy=N, abs=abs, __builtins__={}), env)


def eval_check(c):
    from cf_units import Unit
    from cis.evaluate import Calculator, EvaluationError
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    shape = c['shape']
    n = int(np.prod(shape))
    ds = []
    for nm in 'abc':
        v = dict(c[nm], dtype='f8' if c[nm]['dtype'] in ('i2', 'f4') else c[nm]['dtype'])
        if c['gridded']:
            from iris.coords import DimCoord, AuxCoord
            names = ['latitude', 'longitude', 'altitude'][:len(shape)]
            g = GriddedData(array(v, shape), var_name='v' + nm if c['alias'] else nm, units='K',
                            dim_coords_and_dims=[(DimCoord(np.arange(s) * 2. + i, x, units='m' if i == 2 else 'degrees'), i)
                                                 for i, (s, x) in enumerate(zip(shape, names))],
                            aux_coords_and_dims=[(AuxCoord(np.array(c['coords'][0], float).reshape(shape), long_name='tag'),
                                                  tuple(range(len(shape))))])
            ds.append(g)
        else:
            ds.append(make(v, c, 'K', 'v' + nm if c['alias'] else nm))
        if c['alias']:
            ds[-1].alias = nm
        if c['seen'] and not c['gridded']:
            ds[-1].data_flattened
    old = [C.snap(d) for d in ds]
    oldc = [[(x.name(), x.shape, C.snap(np.asanyarray(x.points)), str(x.units)) for x in d.coords()] for d in ds]
    expr = c['expr']
    used = [k for k, nm in enumerate('abc') if nm in expr.replace('abs', '')]
    env = [values(array(c[nm], shape)) for nm in 'abc']
    lists = (GriddedDataList if c['gridded'] else UngriddedDataList) if c['lists'] else list
    data = lists(ds)
    try:
        r = Calculator().evaluate(data, expr, 'answer', 'Pa', {'why': 'because'})
    except (EvaluationError, AttributeError):
        if used:
            raise
        return None
    if not used:
        return 'an expression without variables is accepted', 'constant'
    masked = any(c['abc'[k]]['mask'] is not None for k in used)
    want = [None if any(env[k][i] is None for k in used) else point(expr, {nm: env[k][i] and float(env[k][i]) for k, nm in enumerate('abc')})
            for i in range(n)]
    bad = compare('the value of ' + expr, r.data, want, shape if c['gridded'] else [n], 1e-8)
    if bad:
        return bad, 'eval'
    if r.is_gridded != c['gridded'] or r.var_name != 'answer' or Unit(str(r.units)) != Unit('Pa'):
        return 'the result is a %s named %s in %s' % (type(r).__name__, r.var_name, r.units), 'eval metadata'
    if (r.attributes if c['gridded'] else r.metadata.misc).get('why') != 'because' and r.attributes.get('why') != 'because':
        return 'the attributes are missing', 'eval metadata'
    got = [(x.name(), x.shape, C.snap(np.asanyarray(x.points)), str(x.units)) for x in r.coords()]
    if c['gridded']:
        if got != oldc[0]:
            return 'coordinates %s instead of %s' % (got, oldc[0]), 'eval coords'
        if [r.coord_dims(x) for x in r.coords()] != [ds[0].coord_dims(x) for x in ds[0].coords()]:
            return 'dimensions of the coordinates', 'eval coords'
    else:
        for x, w in zip(r.coords(), c['coords']):
            if x.data.ravel().tolist() != [float(e) for e in w] or x.data.shape != (n,) or x.shape != (n,):
                return 'coordinate %s of the result is %s, shape %s, instead of %s' % (x.name(), x.data, x.shape, w), 'eval coords'
        if [x.name() for x in r.coords()] != ['latitude', 'longitude']:
            return 'coordinates %s' % [x.name() for x in r.coords()], 'eval coords'
    if [C.snap(d) for d in ds] != old:
        return 'the variables are changed', 'eval'
    now = [[(x.name(), x.shape, C.snap(np.asanyarray(x.points)), str(x.units)) for x in d.coords()] for d in ds]
    if now != oldc:
        return 'the coordinates of the variables are changed: %s %s' % (now, oldc), 'eval variables'
    if not c['gridded']:
        for x in r.coords():
            x.convert_units('radians')
        now = [[(x.name(), x.shape, C.snap(np.asanyarray(x.points)), str(x.units)) for x in d.coords()] for d in ds]
        if now != oldc:
            return 'converting the coordinates of the result changes those of the variables', 'eval variables'
    return None


def nontrivial(c):
    return c['a']['mask'] is not None or c['kind'] == 'eval'
