"""C06 nearest-point and distance queries of the k-d tree index"""
import math as pymath
import random
from vc.api import *
from props import common as C

ID = 'C06'
LEVEL = 'proof'
PROPERTY = dict(
    title='k-d tree distance and nearest-point queries agree with exhaustive search',
    statement='The spatial index used for collocation answers, for any indexed points and any query point on the globe (also '
              'near the poles, across the date line, or with longitudes in another convention): the points within a distance '
              'are exactly those whose great-circle (haversine, radius 6378 km) distance does not exceed it, each reported '
              'once, whether asked for one point or for a whole sample at once; the nearest point is one whose great-circle '
              'distance is smallest, and the distance reported with it is that distance in kilometres. The answers do not '
              'depend on leaf size or on the order of the indexed points; points at the distance itself (to within rounding) '
              'may count either way.',
    over=['inputs'],
    text='any number of indexed and queried points, any distance, any leaf size, points may coincide',
    why='Tests use a few points near the equator with short distances; pruning errors only show for particular combinations of '
        'splits, latitudes and distances.',
    files=['cis/collocation/kdtree.py', 'cis/collocation/haversinedistancekdtreeindex.py', 'cis/utils.py'],
    mechanism=[('tree', 'cis/collocation/kdtree.py: KDTree._build, HaversineDistanceKDTree'),
               ('bounds', 'cis/collocation/kdtree.py: RectangleHaversine'),
               ('index', 'cis/collocation/haversinedistancekdtreeindex.py')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source with tree and rectangle contracts (z3/cvc5)'
NOTE = ('Tree construction, both ball queries, the nearest query and the rectangle-rectangle bounds are proved for all trees; '
        'RectangleHaversine.min/max_distance_point, the numpy plumbing of query()/query_ball_point() and the index class are '
        'bounded (stated case counts), not proved.')
ASSUMPTIONS = ['facts about sin, cos and arcsin (monotonicity, symmetry, extrema) are axioms', 'reals instead of floating point',
               'bounded only: RectangleHaversine.min_distance_point / max_distance_point / _min_distance_point',
               'termination follows from the proved decrease of the node size; recursion depth limits are not modelled',
               'heapq returns a smallest entry']
KD = 'cis.collocation.kdtree'
HK = KD + ':HaversineDistanceKDTree'


# ---- the distance -------------------------------------------------------------------------------------------------------
PIF = lift(pymath.pi)


def setup_trig(E):
    lib_contract('math.radians', lambda d: lift(d) * PIF / 180)
    lib_contract('numpy.radians', lambda d: lift(d) * PIF / 180)


def fn(name):
    return npfn(name)


def npfn(name):
    from vc import npmodel
    return npmodel.memo_fn(name, z3.RealSort(), z3.RealSort())


def ref_distance(lat1, lon1, lat2, lon2, deg=True):
    s, c, asin, sqrt = npfn('sin'), npfn('cos'), npfn('asin'), npfn('sqrt')
    k = PIF.real() / 180 if deg else z3.RealVal(1)
    a, b, p, q = [lift(x).real() * k for x in (lat1, lon1, lat2, lon2)]
    h = s((p - a) / 2) * s((p - a) / 2) + c(a) * c(p) * (s((q - b) / 2) * s((q - b) / 2))
    return Num(6378 * (2 * asin(sqrt(h)))), h


@unit(UNITS, 'haversine distances', [KD + ':haversine', KD + ':haversine_distance', KD + ':haversine_distance_from_radians',
                                     'cis.utils:haversine'])
def u_dist(E):
    setup_trig(E)
    k = M(KD)
    la1, lo1, la2, lo2 = [Real(x) for x in ('lat1', 'lon1', 'lat2', 'lon2')]
    which = 'radians' if E.choose('radians') else 'utils' if E.choose('utils') else 'kdtree'
    E.cover()
    want, h = ref_distance(la1, lo1, la2, lo2, which != 'radians')
    back, hb = ref_distance(la2, lo2, la1, lo1, which != 'radians')
    s = npfn('sin')
    for t in (la2 - la1, lo2 - lo1):
        x = t.real() * (PIF.real() / 180 if which != 'radians' else 1) / 2
        E.axiom('sin(-x) = -sin(x)', s(-x) == -s(x))

    def same_d(what, d, w=want):
        E.prove(what, or_(d == want, d == back))
    if which == 'utils':
        # math.sqrt/asin raise outside of their domain: not for latitudes and longitudes (h lies within [0, 1])
        same_d('utils.haversine', M('cis.utils').haversine(la1, lo1, la2, lo2))
    elif which == 'radians':
        same_d('haversine_distance_from_radians', k.haversine_distance_from_radians([la1, lo1], [la2, lo2]))
    else:
        n = Int('n')
        E.assume(n.e >= 1)
        pts = fresh_array('pts', (n, 2), 'r')
        E.assume(and_(pts.at(0, 0) == la1, pts.at(0, 1) == lo1))
        x = asarr([la2, lo2])
        form = [E.choose('many') for _ in range(1)][0]
        if form:
            d = k.haversine_distance(pts, x if E.choose('flat') else asarr([[la2, lo2]]))
            expect(isinstance(d, SArr) and d.ndim == 1)
            E.prove('one distance per point', d.shape[0] == n)
            same_d('distance of each point', d.at(0))
        else:
            same_d('distance of two points', k.haversine_distance(asarr([la1, lo1]), x))
    E.prove('the distance is symmetric', z3.Implies(z3.BoolVal(True), h == hb))


# ---- bounds between rectangles ----------------------------------------------------------------------------------------------
class Rad(object):
    """an angle in radians, known by its value in degrees: sin and cos of it are functions of the degrees"""
    _vc_symbolic = True

    def __init__(self, deg):
        self.deg = lift(deg)

    def __truediv__(self, o):
        return Rad(self.deg / o)

    def __mul__(self, o):
        return Rad(self.deg * o)
    __rmul__ = __mul__

    def __neg__(self):
        return Rad(-self.deg)

    def __add__(self, o):
        if not isinstance(o, Rad):
            raise Unsupported('degrees and radians')
        return Rad(self.deg + o.deg)

    def __sub__(self, o):
        if not isinstance(o, Rad):
            raise Unsupported('degrees and radians')
        return Rad(self.deg - o.deg)


def deg_fn(name):
    f = z3.Function(name + '_degrees', z3.RealSort(), z3.RealSort())
    other = npfn(name)

    def g(x):
        if isinstance(x, Rad):
            return Num(f(x.deg.real()))
        return Num(other(lift(x).real()))
    return f, g


def setup_deg(E):
    lib_contract('math.radians', Rad)
    lib_contract('numpy.radians', Rad)
    lib_contract('numpy.deg2rad', Rad)
    S, sin = deg_fn('sin')
    Co, cos = deg_fn('cos')
    for m in ('math', 'numpy'):
        lib_contract(m + '.sin', sin)
        lib_contract(m + '.cos', cos)
    asin, sqrt = npfn('asin'), npfn('sqrt')
    for m, a in (('math', 'asin'), ('numpy', 'arcsin')):
        lib_contract(m + '.' + a, lambda x: Num(asin(lift(x).real())))
        lib_contract(m + '.sqrt', lambda x: Num(sqrt(lift(x).real())))
    return S, Co, asin, sqrt


def rect(E, k, name):
    lo = [Real(name + '_' + x) for x in ('lat0', 'lon0')]
    hi = [Real(name + '_' + x) for x in ('lat1', 'lon1')]
    for a, b in zip(lo, hi):
        E.assume(a.e <= b.e)
    E.assume(and_(lo[0] >= -90, hi[0] <= 90))
    r = k.RectangleHaversine(asarr(hi), asarr(lo))
    for i in (0, 1):
        E.prove('RectangleBase holds its limits', and_(lift(r.maxes[i]) == hi[i], lift(r.mins[i]) == lo[i]))
    p = [Real(name + '_p_lat'), Real(name + '_p_lon')]
    E.assume(and_(*[and_(a <= x, x <= b) for a, x, b in zip(lo, p, hi)]))
    return r, lo, hi, p


def sq(t):
    return t * t


def name_factors(E, t, names):
    """the term with each factor of its products which is not constant named by a fresh real"""
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        fs = []
        for x in t.children():
            x = name_factors(E, x, names)
            if not (z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_app_of(x, z3.Z3_OP_MUL)):
                for y, v in names:
                    if y.eq(x):
                        x = v
                        break
                else:
                    v = z3.Real(E.fresh('factor'))
                    E.assume(v == x)
                    names.append((x, v))
                    x = v
            fs.append(x)
        r = fs[0]
        for x in fs[1:]:
            r = r * x
        return r
    if t.num_args() == 0:
        return t
    return t.decl()(*[name_factors(E, x, names) for x in t.children()])


@unit(UNITS, 'RectangleHaversine bounds between rectangles',
      [KD + ':RectangleHaversine.min_distance_rectangle', KD + ':RectangleHaversine.max_distance_rectangle',
       KD + ':RectangleBase.__init__'], timeout_ms=20000, max_paths=6000)
def u_rect(E):
    S, Co, asin, sqrt = setup_deg(E)
    k = M(KD)
    A, alo, ahi, p = rect(E, k, 'a')
    B, blo, bhi, q = rect(E, k, 'b')
    # the distance of a point of each
    dla, dlo = (q[0] - p[0]).real(), (q[1] - p[1]).real()
    sla, slo = sq(S(dla / 2)), sq(S(dlo / 2))
    c1, c2 = Co(p[0].real()), Co(q[0].real())
    h = sla + c1 * c2 * slo
    one = z3.RealVal(1)
    dist = 6378 * (2 * asin(sqrt(h)))
    ab = lambda x: z3.If(x >= 0, x, -x)
    E.axiom('|sin| and |cos| are at most 1, cos is not negative within [-90, 90] degrees',
            z3.And(*[z3.And(sq(S(x)) <= 1, sq(S(x)) >= 0) for x in (dla / 2, dlo / 2)] +
                   [z3.And(c >= 0, c <= 1) for c in (c1, c2)]))
    E.axiom('the haversine lies within [0, 1]', z3.And(h >= 0, h <= 1))
    low = E.choose('lower bound')
    terms = {}

    def see(name, f, arg):
        terms.setdefault(name, []).append(arg)
        return f
    # record the arguments at which the code evaluates the functions
    orig = {}
    for m in ('math', 'numpy'):
        for f in ('sin', 'cos', 'sqrt'):
            g = E.memo[('stub', m + '.' + f)]

            def rec(x, g=g, f=f):
                terms.setdefault(f, []).append(x.deg.real() if isinstance(x, Rad) else lift(x).real())
                return g(x)
            E.memo[('stub', m + '.' + f)] = rec
    E.cover()
    r = A.min_distance_rectangle(B) if low else A.max_distance_rectangle(B)
    # instances of the axioms about sin and cos, at the arguments used by the code and by the specification
    sins = terms.get('sin', [])
    half = [dla / 2, dlo / 2]
    for x in sins:
        E.axiom('sin^2 lies within [0, 1]', z3.And(sq(S(x)) >= 0, sq(S(x)) <= 1))
        for y in half:
            E.axiom('|sin| is increasing within [0, 90] degrees',
                    z3.And(z3.Implies(z3.And(ab(x) <= ab(y), ab(y) <= 90), sq(S(x)) <= sq(S(y))),
                           z3.Implies(z3.And(ab(y) <= ab(x), ab(x) <= 90), sq(S(y)) <= sq(S(x)))))
    ends, fl = list(sins), lambda t: z3.ToInt(t)
    for i, x in enumerate(ends):
        for y in ends[:i] + ends[i + 1:]:
            v = dlo / 2
            E.axiom('sin^2 between two angles is at least its smaller end value unless a multiple of 180 lies between',
                    z3.Implies(z3.And(x <= v, v <= y, z3.ToReal(fl(y / 180)) < x / 180),
                               sq(S(v)) >= z3.If(sq(S(x)) <= sq(S(y)), sq(S(x)), sq(S(y)))))
            E.axiom('sin^2 between two angles is at most its larger end value unless an odd multiple of 90 lies between',
                    z3.Implies(z3.And(x <= v, v <= y, z3.ToReal(fl((y - 90) / 180)) < (x - 90) / 180),
                               sq(S(v)) <= z3.If(sq(S(x)) >= sq(S(y)), sq(S(x)), sq(S(y)))))
    for x in terms.get('cos', []):
        E.axiom('cos is not negative within [-90, 90] degrees and at most 1',
                z3.And(Co(x) <= 1, z3.Implies(ab(x) <= 90, Co(x) >= 0)))
        for y in (p[0].real(), q[0].real()):
            E.axiom('cos decreases with the absolute angle within [-180, 180] degrees',
                    z3.And(z3.Implies(z3.And(ab(x) <= ab(y), ab(y) <= 180), Co(x) >= Co(y)),
                           z3.Implies(z3.And(ab(y) <= ab(x), ab(x) <= 180), Co(y) >= Co(x))))
    # factors of the products, named; products of non-negative numbers are monotone
    names = []
    for x in list(terms.get('sqrt', [])):
        E.assume(x == name_factors(E, x, names))
    mono = lambda a, b, d, e, t, u: z3.Implies(z3.And(0 <= a, a <= d, 0 <= b, b <= e, 0 <= t, t <= u), a * b * t <= d * e * u)
    vs = [v for _, v in names]
    expect(len(vs) <= 12)
    for i, a in enumerate(vs):
        for b in vs[:i] + vs[i + 1:]:
            for v in vs:
                if low:
                    E.assume(mono(a, b, c1, c2, v, slo))
                else:
                    E.assume(mono(c1, c2, a, b, slo, v))
    for x in terms.get('sqrt', []):
        E.axiom('arcsin of the root is increasing within [0, 1]',
                z3.And(z3.Implies(z3.And(0 <= x, x <= h, h <= 1), asin(sqrt(x)) <= asin(sqrt(h))),
                       z3.Implies(z3.And(0 <= h, h <= x, x <= 1), asin(sqrt(h)) <= asin(sqrt(x)))))
    want = r.real() <= dist if low else r.real() >= dist
    E.prove('the bound holds for every pair of points', want)


# ---- the tree ------------------------------------------------------------------------------------------------------------------
class Bag(object):
    """a list, as the number of times each index occurs in it"""
    _vc_symbolic = True

    def __init__(self, count):
        self.count = count

    def __add__(self, o):
        o = bag(o)
        f, g = self.count, o.count
        return Bag(lambda i: f(i) + g(i))

    def __radd__(self, o):
        return bag(o) + self

    def __iadd__(self, o):
        f, g = self.count, bag(o).count
        self.count = lambda i: f(i) + g(i)
        return self

    def extend(self, o):
        self += o


def bag(x):
    if isinstance(x, Bag):
        return x
    if isinstance(x, SArr):
        return arr_bag(x)
    if isinstance(x, list) and not x:
        return Bag(lambda i: z3.IntVal(0))
    if isinstance(x, list):
        ts = [iterm(v) for v in x]
        return Bag(lambda i: z3.Sum([z3.If(t == i, 1, 0) for t in ts]))
    raise Unsupported('list of unknown kind')


def arr_bag(a):
    """the list of an index array of distinct values"""
    E = eng.CUR
    if a.ndim != 1 or getattr(a, 'ghost_inv', None) is None:
        raise Unsupported('indices without a known inverse')
    g, at, m = a.ghost_inv, a._snapshot(), iterm(a.shape[0])
    k = Int(E.fresh('pos'), track=False)
    E.prove('indices are distinct', implies(in_range(k, m), g(lift(at((k.e,))).e) == k.e))
    return Bag(lambda i: z3.If(z3.And(in_range(g(i), m), lift(at((g(i),))).e == i), 1, 0))


def one(c):
    return z3.If(c, 1, 0)


class Tree(object):
    """an arbitrary valid tree over symbolic points: the representation invariant, one level unfolded"""

    def __init__(self, E, k, name, n, cls, opaque=False):
        self.k, self.name, self.n = k, name, n
        self.data = fresh_array(name + '_data', (n, 2), 'r')
        self.mem = z3.Function(E.fresh('mem'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        q = qint('q')
        lo = [Real(name + '_min%d' % c) for c in (0, 1)]
        hi = [Real(name + '_max%d' % c) for c in (0, 1)]
        self.lo, self.hi = lo, hi
        E.assume(forall(q, implies(in_range(q, n), and_(*[and_(self.data.at(q, c) >= lo[c], self.data.at(q, c) <= hi[c])
                                                         for c in (0, 1)]))))
        self.root = self.child(0) if opaque else self.node(0)
        self.members = lambda i: self.mem(0, i)
        self.obj = Duck(cls, data=self.data, n=n, m=2, maxes=asarr(hi), mins=asarr(lo), tree=self.root)

    def node(self, nid):
        """an arbitrary node: a leaf or an inner node, with the invariant of the tree below it"""
        E, k, n = eng.CUR, self.k, self.n
        q = qint('q')
        mem = self.mem
        E.assume(forall(q, implies(Bool(mem(nid, q)), in_range(q, n)), patterns=[mem(nid, q)]))
        if E.choose('%s leaf' % self.name):
            m = Int(self.name + '_leaf_size')
            E.assume(m.e >= 0)
            f = z3.Function(E.fresh('leaf'), z3.IntSort(), z3.IntSort())
            g = z3.Function(E.fresh('leafinv'), z3.IntSort(), z3.IntSort())
            E.assume(forall(q, implies(in_range(q, m), and_(Bool(mem(nid, f(q))), g(f(q)) == q, in_range(f(q), n))),
                            patterns=[f(q)]))
            E.assume(forall(q, implies(Bool(mem(nid, q)), and_(in_range(g(q), m), f(g(q)) == q)), patterns=[g(q)]))
            # a value which is not in the leaf has no position in it
            E.assume(forall(q, implies(not_(Bool(mem(nid, q))), not_(and_(in_range(g(q), m), f(g(q)) == q))),
                            patterns=[g(q)]))
            idx = SArr((m,), lambda i: Num(f(i[0])), 'i')
            idx.ghost_inv = g
            r = k.KDTree.leafnode(idx)
            E.memo['leaf', self.name] = f, g
        else:
            d = 1 if E.choose('%s split by longitude' % self.name) else 0
            s = Real(self.name + '_split')
            less, greater = self.child(), self.child()
            for c, cmp in ((less, lambda v: v <= s), (greater, lambda v: v >= s)):
                E.assume(forall(q, implies(Bool(mem(c.nid, q)), and_(Bool(mem(nid, q)), cmp(self.data.at(q, d)))),
                                patterns=[mem(c.nid, q)]))
            E.assume(forall(q, implies(Bool(mem(nid, q)), Bool(mem(less.nid, q) != mem(greater.nid, q))), patterns=[mem(nid, q)]))
            r = k.KDTree.innernode(d, s, less, greater)
        r.__dict__['nid'] = nid
        r.__dict__['tree'] = self
        return r

    def number(self):
        E = eng.CUR
        E.memo['nodes', self.name] = r = E.memo.get(('nodes', self.name), 0) + 1
        return r

    pos = property(lambda self: eng.CUR.memo['leaf', self.name][0])
    leaf_inv = property(lambda self: eng.CUR.memo['leaf', self.name][1])

    def child(self, nid=None):
        new = self.number()
        m = Int('%s_children%d' % (self.name, new), track=False)
        c = GNode()
        c.__dict__.update(nid=new if nid is None else nid, tree=self, children=m)
        return c

    def set(self, node):
        nid = node.__dict__.get('nid')
        expect(nid is not None and node.__dict__.get('tree') is self, 'a node of the tree')
        return lambda i: self.mem(nid, i)


class GNode(object):
    """a node known only by the points below it"""
    _vc_symbolic = True

    def _vc_isinstance(self, t):
        raise Unsupported('descending more than one level')


def hav4(*a):
    f = z3.Function('hav', *([z3.RealSort()] * 5))
    return Num(f(*[lift(x).real() for x in a]))


def setup_dist(E, k):
    a, b, c, d = z3.Reals('a! b! c! d!')
    f = z3.Function('hav', *([z3.RealSort()] * 5))
    E.assume(z3.ForAll([a, b, c, d], f(a, b, c, d) == f(c, d, a, b), patterns=[f(a, b, c, d)]))
    use('haversine_distance is the symmetric great circle distance (unit "haversine distances")')

    def hd(x, y):
        x, y = asarr(x), asarr(y)
        many = x if x.ndim == 2 else y if y.ndim == 2 else None
        for v in (x, y):
            expect(conc(v.shape[-1]) == 2, 'points of two coordinates')
        row = lambda v, i: (v.at(i, 0), v.at(i, 1)) if v.ndim == 2 and not (conc(v.shape[0]) == 1) else \
            (v.at(z3.IntVal(0), 0), v.at(z3.IntVal(0), 1)) if v.ndim == 2 else (v.at(0), v.at(1))
        if many is None:
            return hav4(*(row(x, None) + row(y, None)))
        n = x.shape[0] if x.ndim == 2 and not (conc(x.shape[0]) == 1) else y.shape[0] if y.ndim == 2 else x.shape[0]
        x, y = x.copy(), y.copy()
        return SArr((n,), lambda i: hav4(*(row(x, i[0]) + row(y, i[0]))), 'r')
    patch(k, 'haversine_distance', hd)
    patch(k, 'haversine', hd)
    E.memo['tolist'] = arr_bag


class GRect(object):
    """a rectangle by its contract: which points of the data lie in it, and bounds on distances from these"""
    _vc_symbolic = True
    inside = None

    def __init__(self, tree, nid=None):
        E = eng.CUR
        self.tree = tree
        self.f = z3.Function(E.fresh('inrect'), z3.IntSort(), z3.BoolSort())

    def split(self, d, s):
        E = eng.CUR
        use('RectangleBase.split halves the rectangle (unit "RectangleBase.split")')
        d = conc(d)
        out = []
        for less in (True, False):
            r = GRect(self.tree)
            q = qint('q')
            v = self.tree.data.at(q, d)
            # (the rectangle covers at least the points in it on that side)
            E.assume(z3.ForAll([q], z3.Implies(z3.And(self.f(q), in_range(q, self.tree.n), zbool(v <= s if less else v >= s)),
                                               r.f(q)), patterns=[r.f(q)]))
            out.append(r)
        return tuple(out)

    def _bound(self, cond):
        E = eng.CUR
        b = Real(E.fresh('bound'), track=False)
        cond(b)
        return b

    def min_distance_point(self, x, p=2.):
        return self._point(x, True)

    def max_distance_point(self, x, p=2.):
        return self._point(x, False)

    def _point(self, x, low):
        E = eng.CUR
        use('RectangleHaversine.min/max_distance_point bound the distance to the points in the rectangle (bounded stand-in)')
        x = asarr(x)
        b = Real(E.fresh('bound'), track=False)
        q = qint('q')
        d = hav4(self.tree.data.at(q, 0), self.tree.data.at(q, 1), x.at(0), x.at(1))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(self.f(q), in_range(q, self.tree.n)), zbool(b <= d if low else b >= d)),
                           patterns=[self.f(q)]))
        return b

    def min_distance_rectangle(self, o):
        return self._rect(o, True)

    def max_distance_rectangle(self, o):
        return self._rect(o, False)

    def _rect(self, o, low):
        E = eng.CUR
        use('RectangleHaversine bounds between rectangles (unit of that name)')
        b = Real(E.fresh('bound'), track=False)
        i, j = qint('i'), qint('j')
        A, B = self.tree, o.tree
        d = hav4(A.data.at(i, 0), A.data.at(i, 1), B.data.at(j, 0), B.data.at(j, 1))
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(self.f(i), in_range(i, A.n), o.f(j), in_range(j, B.n)),
                                              zbool(b <= d if low else b >= d)), patterns=[z3.MultiPattern(self.f(i), o.f(j))]))
        return b


def patch_rects(E, k, trees):
    def make(maxes, mins):
        for t in trees:
            if maxes is t.obj.maxes and mins is t.obj.mins:
                r = GRect(t)
                q = qint('q')
                E.assume(z3.ForAll([q], z3.Implies(in_range(q, t.n), r.f(q)), patterns=[r.f(q)]))
                use('every point of the data lies in the rectangle of the tree (unit "HaversineDistanceKDTree")')
                return r
        raise SpecMismatch('rectangle of unknown limits')
    patch(k, 'RectangleHaversine', make)


def valid(E, tree, node, r):
    """precondition of a traversal: the points below the node lie in the rectangle"""
    i = Int('member', track=False)
    E.prove('points of a visited node lie in its rectangle', implies(Bool(tree.set(node)(i.e)), Bool(r.f(i.e))))


@unit(UNITS, 'HaversineDistanceKDTree._query_ball_point',
      [HK + '._query_ball_point', HK + '._query_ball_point.traverse_checking', HK + '._query_ball_point.traverse_no_checking'],
      timeout_ms=20000)
def u_ball(E):
    k = M(KD)
    setup_dist(E, k)
    n = Int('n')
    E.assume(n.e >= 1)
    t = Tree(E, k, 't', n, k.HaversineDistanceKDTree)
    patch_rects(E, k, [t])
    x = asarr([Real('x_lat'), Real('x_lon')])
    r = Real('r')
    E.assume(r.e >= 0)
    D = lambda i: hav4(t.data.at(i, 0), t.data.at(i, 1), x.at(0), x.at(1))
    seen = {}

    def checking(fn):
        def call(node, rc):
            if not seen.get('c'):
                seen['c'] = 1
                return fn(node, rc)
            s = t.set(node)
            valid(E, t, node, rc)
            return Bag(lambda i: one(z3.And(s(i), zbool(D(i) <= r))))
        return call

    def nochecking(fn):
        def call(node):
            s = t.set(node)
            if not seen.get('n'):
                seen['n'] = 1
                expect(node is t.root)
                res = bag(fn(node))
                i = Int('i')
                E.prove('without checking: all points of the node, once each', implies(in_range(i, n), res.count(i.e) == one(s(i.e))))
            return Bag(lambda i: one(s(i)))
        return call
    E.nested[(KD, 'HaversineDistanceKDTree._query_ball_point.traverse_checking')] = checking
    E.nested[(KD, 'HaversineDistanceKDTree._query_ball_point.traverse_no_checking')] = nochecking
    E.cover()
    res = bag(t.obj._query_ball_point(x, r))
    i = Int('i')
    E.assume(in_range(i, n))
    E.decide(t.members(i.e))
    E.prove('each point within the distance, once; no other', res.count(i.e) == one(z3.And(t.members(i.e), zbool(D(i.e) <= r))))


class Results(object):
    """the list of lists which is filled in, as the number of times each (query point, point) occurs"""
    _vc_symbolic = True

    def __init__(self, n, count):
        self.n, self.count = n, count

    def __getitem__(self, i):
        E = eng.CUR
        i = iterm(i)
        if not E.decide(in_range(i, self.n)):
            raise IndexError('list index out of range')
        return Entry(self, i)

    def __setitem__(self, i, v):
        i = iterm(i)
        old = self.count
        if isinstance(v, Entry):
            expect(v.owner is self and z3.is_true(z3.simplify(v.i == i)))
            return
        f = bag(v).count
        self.count = lambda a, b: z3.If(a == i, f(b), old(a, b))


class Entry(object):
    _vc_symbolic = True

    def __init__(self, owner, i):
        self.owner, self.i = owner, i

    def __iadd__(self, o):
        old, i, f = self.owner.count, self.i, bag(o).count
        self.owner.count = lambda a, b: old(a, b) + z3.If(a == i, f(b), 0)
        return self

    def extend(self, o):
        self += o

    def __add__(self, o):
        old, i, f = self.owner.count, self.i, bag(o).count
        return Bag(lambda b: old(i, b) + f(b))


@unit(UNITS, 'HaversineDistanceKDTree.query_ball_tree',
      [HK + '.query_ball_tree', HK + '.query_ball_tree.traverse_checking', HK + '.query_ball_tree.traverse_no_checking'],
      timeout_ms=20000)
def u_tree(E):
    k = M(KD)
    setup_dist(E, k)
    n, m = Int('n'), Int('m')
    E.assume(and_(n >= 1, m >= 1))
    s, t = Tree(E, k, 's', n, k.HaversineDistanceKDTree), Tree(E, k, 't', m, k.HaversineDistanceKDTree)
    patch_rects(E, k, [s, t])
    r = Real('r')
    E.assume(r.e >= 0)
    D = lambda i, j: hav4(s.data.at(i, 0), s.data.at(i, 1), t.data.at(j, 0), t.data.at(j, 1))
    st = {}
    QN = 'HaversineDistanceKDTree.query_ball_tree.'

    def want(a, b, near):
        A, B = s.set(a), t.set(b)
        return lambda i, j: one(z3.And(A(i), B(j), zbool(D(i, j) <= r) if near else z3.BoolVal(True)))

    def adopt(fn):
        c = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        return c['results']

    def handler(what, near):
        def deco(fn):
            def call(node1, *rest):
                if near:
                    rect1, node2, rect2 = rest
                else:
                    node2, = rest
                if 'res' not in st:
                    cell = adopt(fn)
                    v = cell.cell_contents
                    expect(isinstance(v, SSeq) or isinstance(v, list), 'list of results')
                    E.prove('one list per query point', lift(v.n if isinstance(v, SSeq) else len(v)) == n)
                    q = Int('first')
                    if isinstance(v, SSeq):
                        expect(v.get(q.e) == [] and v.get(q.e) is not v.get(q.e), 'new empty lists')
                    st['res'] = Results(n.e, lambda i, j: z3.IntVal(0))
                    cell.cell_contents = st['res']
                res = st['res']
                w = want(node1, node2, near)
                old = res.count
                if what in st:
                    if near:
                        valid(E, s, node1, rect1)
                        valid(E, t, node2, rect2)
                    res.count = lambda i, j: old(i, j) + w(i, j)
                    return None
                st[what] = 1
                expect(node1 is s.root and node2 is t.root)
                f0 = z3.Function(E.fresh('before'), z3.IntSort(), z3.IntSort(), z3.IntSort())
                start = lambda i, j: f0(i, j)
                res.count = start
                r_ = fn(node1, *rest)
                i, j = Int('i'), Int('j')
                E.assume(and_(in_range(i, n), in_range(j, m)))
                E.prove('%s: each pair within the distance, once; no other' % what,
                        res.count(i.e, j.e) == start(i.e, j.e) + w(i.e, j.e))
                res.count = lambda i, j: old(i, j) + w(i, j)
                return r_
            return call
        return deco

    def loopspec(near):
        base = {}

        def inv(E, L, kk):
            res = st['res']
            if conc(kk) == 0:
                base['count'] = res.count
            b0 = base['count']
            i, j = qint('i'), qint('j')
            w = want(s.root, t.root, near)
            kk = iterm(kk)
            done = lambda i: s.leaf_inv(i) < kk
            return [('pairs of the points handled so far',
                     z3.ForAll([i, j], z3.Implies(z3.And(in_range(i, n), in_range(j, m)),
                                                  res.count(i, j) == b0(i, j) + z3.If(done(i), w(i, j), 0))))]

        def hv(E, L, kk):
            f = z3.Function(E.fresh('count'), z3.IntSort(), z3.IntSort(), z3.IntSort())
            st['res'].count = lambda i, j: f(i, j)
            return [st['res']]
        return LoopSpec(inv, havoc_obj=hv)
    E.nested[(KD, QN + 'traverse_checking')] = handler('checking', True)
    E.nested[(KD, QN + 'traverse_no_checking')] = handler('no checking', False)
    E.loops[(KD, QN + 'traverse_checking', 0)] = loopspec(True)
    E.loops[(KD, QN + 'traverse_no_checking', 0)] = loopspec(False)
    E.cover()
    res = s.obj.query_ball_tree(t.obj, r)
    expect(res is st.get('res'), 'the list which was filled in')
    i, j = Int('i'), Int('j')
    E.assume(and_(in_range(i, n), in_range(j, m)))
    E.prove('each pair within the distance, once; no other',
            res.count(i.e, j.e) == one(z3.And(s.members(i.e), t.members(j.e), zbool(D(i.e, j.e) <= r))))


@unit(UNITS, 'RectangleBase.split', [KD + ':RectangleBase.split', KD + ':RectangleBase.__init__'])
def u_split(E):
    k = M(KD)
    lo, hi = [Real('lo0'), Real('lo1')], [Real('hi0'), Real('hi1')]
    d = 1 if E.choose('by longitude') else 0
    s = Real('split')
    E.assume(and_(lo[0] <= hi[0], lo[1] <= hi[1], lo[d] <= s, s <= hi[d]))
    E.cover()
    r = k.RectangleHaversine(asarr(hi), asarr(lo))
    a, b = r.split(d, s)
    for c in (0, 1):
        E.prove('lower part', and_(lift(a.mins[c]) == lo[c], lift(a.maxes[c]) == (s if c == d else hi[c])))
        E.prove('upper part', and_(lift(b.mins[c]) == (s if c == d else lo[c]), lift(b.maxes[c]) == hi[c]))


@unit(UNITS, 'KDTree._build', [KD + ':KDTree._build', KD + ':KDTree.innernode.__init__', KD + ':KDTree.leafnode.__init__'],
      timeout_ms=20000)
def u_build(E):
    k = M(KD)
    n, ls, m = Int('n'), Int('leafsize'), Int('m')
    E.assume(and_(n >= 1, ls >= 1, m >= 0))
    data = fresh_array('data', (n, 2), 'r')
    f = z3.Function('idx', z3.IntSort(), z3.IntSort())
    g = z3.Function('idxinv', z3.IntSort(), z3.IntSort())
    q = qint('q')
    lo, hi = [Real('lo0'), Real('lo1')], [Real('hi0'), Real('hi1')]
    inr = lambda i: and_(*[and_(data.at(i, c) >= lo[c], data.at(i, c) <= hi[c]) for c in (0, 1)])
    E.assume(forall(q, implies(in_range(q, m), and_(in_range(f(q), n), g(f(q)) == q, inr(f(q)))), patterns=[f(q)]))
    E.assume(and_(lo[0] <= hi[0], lo[1] <= hi[1]))
    idx = SArr((m,), lambda i: Num(f(i[0])), 'i')
    idx.ghost_inv = g
    member = lambda i: z3.And(in_range(g(i), m), f(g(i)) == i)
    calls = []

    def argmax(a):
        a = asarr(a)
        expect(conc(a.shape[0]) == 2)
        c = E.decide(zbool(a.at(1) > a.at(0)))
        return 1 if c else 0
    lib_contract('numpy.argmax', argmax)
    obj = Duck(k.KDTree, data=data, n=n, m=2, leafsize=ls)

    def build(idx2, maxes, mins):
        use('KDTree._build (recursion)')
        idx2 = asarr(idx2)
        calls.append((idx2, asarr(maxes).copy(), asarr(mins).copy()))
        node = GNode()
        node.__dict__.update(children=idx2.shape[0], which=len(calls) - 1)
        return node
    obj._build = build
    E.cover()
    r = k.KDTree._build(obj, idx, asarr(hi), asarr(lo))
    i = Int('i')
    E.assume(in_range(i, n))
    if isinstance(r, k.KDTree.leafnode):
        E.prove('a leaf holds the indices', lift(r.idx.shape[0]) == m)
        p = Int('p')
        E.prove('a leaf holds the indices', implies(in_range(p, m), r.idx.at(p) == Num(f(p.e))))
        E.prove('children are counted', lift(r.children) == m)
        return
    expect(isinstance(r, k.KDTree.innernode) and len(calls) == 2, 'an inner node with two parts')
    E.prove('children are counted', lift(r.children) == lift(calls[0][0].shape[0]) + lift(calls[1][0].shape[0]))
    d = conc(r.split_dim)
    expect(d in (0, 1))
    s = lift(r.split)
    E.prove('the split lies within the rectangle', and_(s >= lo[d], s <= hi[d]))
    w = {}
    for j, c in enumerate(calls):
        gi = getattr(c[0], 'ghost_inv', None)
        expect(gi is not None, 'selection of the indices by a condition')
        for nm in ('amin_at', 'amax_at'):       # (names the place of the extreme point in the part, if it was asked for)
            E.assume(z3.Int('hint_%s_%d' % (nm, j)) == gi(f(z3.Int(nm))))
        E.prove('parts are not empty', lift(c[0].shape[0]) > 0)
    for side, node in (('less', r.less), ('greater', r.greater)):
        ii, mx, mn = calls[node.which]
        cnt = lift(ii.shape[0])
        p = Int(side + '_pos')
        v = lift(ii.at(p))
        E.assume(in_range(p, cnt))
        E.prove('%s: indices of the node' % side, Bool(member(v.e)))
        E.prove('%s: on its side of the split' % side, data.at(v, d) <= s if side == 'less' else data.at(v, d) >= s)
        for c in (0, 1):
            wl = s if c == d and side == 'greater' else lo[c]
            wh = s if c == d and side == 'less' else hi[c]
            E.prove('%s: limits are those of the split rectangle' % side, and_(mx.at(c) == wh, mn.at(c) == wl))
            E.prove('%s: precondition: points lie within the limits' % side, and_(data.at(v, c) <= wh, data.at(v, c) >= wl))
        gi = getattr(ii, 'ghost_inv', None)
        expect(gi is not None, 'selection of the indices by a condition')
        E.prove('%s: indices are distinct' % side, gi(v.e) == p.e)
        w[side] = z3.And(in_range(gi(i.e), cnt), lift(ii.at(gi(i.e))).e == i.e)
    E.prove('each index of the node is in exactly one part', z3.Implies(member(i.e), w['less'] != w['greater']))
    for a, b in ((0, 1), (1, 0)):       # a point of one part is not in the other
        A, B = calls[a][0], calls[b][0]
        v = lift(A.at(0)).e
        E.prove('parts are disjoint', z3.Not(z3.And(in_range(B.ghost_inv(v), B.shape[0]), lift(B.at(B.ghost_inv(v))).e == v)))
        E.prove('a point of the node', z3.And(in_range(g(v), m), f(g(v)) == v))
    E.prove('both parts are smaller', and_(*[lift(c[0].shape[0]) < m for c in calls]))


@unit(UNITS, 'HaversineDistanceKDTree', [HK + '.__init__'])
def u_init(E):
    k = M(KD)
    n = Int('n')
    E.assume(n.e >= 0)
    ls = Int('leafsize')
    data = fresh_array('data', (n, 2), 'r')

    def ext(lo):
        def f(a, axis=None, **kw):
            a = asarr(a)
            expect(axis == 0 and a.ndim == 2, 'extreme over the points')
            E.prove('there are points', n >= 1)
            r = fresh_array('ext', (2,), 'r', track=False)
            q = qint('q')
            for c in (0, 1):
                at = a.at(q, c)
                E.assume(forall(q, implies(in_range(q, n), at >= r.at(c) if lo else at <= r.at(c))))
            E.trusted.add('numpy.amin/amax over an axis')
            return r
        return f
    for x, lo in (('amin', 1), ('min', 1), ('amax', 0), ('max', 0)):
        lib_contract('numpy.' + x, ext(lo))
    got = []
    patch(k.HaversineDistanceKDTree, '_build', lambda self, idx, maxes, mins: got.append((idx, maxes, mins)) or 'tree')
    E.cover()
    t, e = raises(k.HaversineDistanceKDTree, data, ls)
    if e is not None:
        E.prove('refused only for a leaf size below one', and_(lift(isinstance(e, ValueError)).e if False else z3.BoolVal(isinstance(e, ValueError)), ls < 1))
        return
    expect(len(got) == 1 and t.tree == 'tree', 'the tree is built')
    idx, mx, mn = got[0]
    expect(mx is t.maxes and mn is t.mins)
    E.prove('every point is indexed', lift(idx.shape[0]) == n)
    i, = [Int('i')]
    E.restrict(in_range(i, n))
    E.prove('every point is indexed', idx.at(i) == i)
    for c in (0, 1):
        v = data.at(i, c)
        E.prove('the points are kept', t.data.at(i, c) == v)
        E.prove('every point lies within the limits', and_(v <= lift(mx[c]), v >= lift(mn[c])))
    E.prove('attributes', and_(lift(t.n) == n, lift(t.m) == 2, lift(t.leafsize) == ls))


class Heap(object):
    """contract of a heap of (bound, node, rectangle): the points below its nodes and the bound each of these has"""
    _vc_symbolic = True

    def __init__(self, t, S, key):
        self.t, self.S, self.key = t, S, key

    def __bool__(self):
        E = eng.CUR
        r = not E.choose('queue empty')
        if not r:
            q = qint('q')
            E.restrict(z3.ForAll([q], z3.Not(self.S(q)), patterns=[self.t.mem(0, q)]))
        return r

    def pop(self):
        E, t = eng.CUR, self.t
        use('heapq.heappop returns and removes a smallest entry')
        nid = t.number()
        node = t.node(nid)
        q = qint('q')
        m = Real(E.fresh('popped'), track=False)
        mem, S, key = t.mem, self.S, self.key
        E.assume(z3.ForAll([q], z3.Implies(mem(nid, q), z3.And(mem(0, q), S(q), key(q) == m.e)), patterns=[mem(nid, q)]))
        E.assume(z3.ForAll([q], z3.Implies(S(q), key(q) >= m.e), patterns=[mem(0, q)]))
        r = GRect(t)
        E.assume(z3.ForAll([q], z3.Implies(mem(nid, q), r.f(q)), patterns=[mem(nid, q)]))
        self.S = lambda i: z3.And(S(i), z3.Not(mem(nid, i)))
        return m, node, r

    def push(self, e):
        E, t = eng.CUR, self.t
        d, node, r = e
        s = t.set(node)
        valid(E, t, node, r)
        S, key = self.S, self.key
        i = Int('pushed', track=False)
        E.prove('no point is queued twice', implies(Bool(s(i.e)), Bool(z3.Not(S(i.e)))))
        d = lift(d).real()
        self.S = lambda i: z3.Or(S(i), s(i))
        self.key = lambda i: z3.If(s(i), d, key(i))


@unit(UNITS, 'HaversineDistanceKDTree._query', [HK + '._query'], timeout_ms=20000)
def u_query(E):
    k = M(KD)
    setup_dist(E, k)
    n = Int('n')
    E.assume(n.e >= 1)
    t = Tree(E, k, 't', n, k.HaversineDistanceKDTree, opaque=True)
    patch_rects(E, k, [t])
    q_ = qint('q')
    # the root holds all of the points
    E.assume(z3.ForAll([q_], z3.Implies(in_range(q_, n), t.mem(0, q_)), patterns=[t.mem(0, q_)]))
    E.assume(z3.ForAll([q_], z3.Implies(t.mem(0, q_), in_range(q_, n)), patterns=[t.mem(0, q_)]))
    x = asarr([Real('x_lat'), Real('x_lon')])
    D = lambda i: hav4(t.data.at(i, 0), t.data.at(i, 1), x.at(0), x.at(1)).real()
    inf = float('inf')
    isinf = lambda b: isinstance(b, float) and b == inf

    def heappop(h):
        if isinstance(h, Heap):
            return h.pop()
        expect(isinstance(h, list) and len(h) == 1)
        return h.pop()

    def heappush(h, e):
        if isinstance(h, Heap):
            return h.push(e)
        expect(isinstance(h, list) and len(h) == 0)
        h.append(e)
    patch(k, 'heappop', heappop)
    patch(k, 'heappush', heappush)

    def best(L):
        """the nearest so far"""
        nb, b = L.neighbors, L.distance_upper_bound
        expect(isinstance(nb, list) and len(nb) <= 1)
        if not nb:
            return z3.BoolVal(isinf(b))
        if isinf(b):
            return z3.BoolVal(False)
        d, j = nb[0]
        j = iterm(j)
        return z3.And(in_range(j, n), -lift(d).real() == D(j), D(j) == lift(b).real())

    def beyond(L, i):
        b = L.distance_upper_bound
        return z3.BoolVal(False) if isinf(b) else D(i) >= lift(b).real()

    def inv(E, L, kk):
        h = L.q
        q = qint('q')
        if isinstance(h, list):
            expect(len(h) == 1 and len(h[0]) == 3)
            d, node, r = h[0]
            valid(E, t, node, r)
            h = Heap(t, t.set(node), lambda i, d=d: lift(d).real())
        mem = t.mem(0, q)
        return [('every point is queued or not nearer than the best', z3.ForAll([q], z3.Implies(mem, z3.Or(h.S(q), beyond(L, q))),
                                                                               patterns=[mem])),
                ('queued points have the bounds of their entries',
                 z3.ForAll([q], z3.Implies(z3.And(mem, h.S(q)), h.key(q) <= D(q)), patterns=[mem])),
                ('queued points are points', z3.ForAll([q], z3.Implies(h.S(q), mem), patterns=[mem])),
                ('the best so far', best(L))]

    def hv_q(E, cur, kk):
        S = z3.Function(E.fresh('queued'), z3.IntSort(), z3.BoolSort())
        key = z3.Function(E.fresh('key'), z3.IntSort(), z3.RealSort())
        return Heap(t, lambda i: S(i), lambda i: key(i))
    st = {}

    def hv_nb(E, cur, kk):
        st['some'] = E.choose('a neighbour was found')
        if not st['some']:
            new = []
        else:
            new = [(Real(E.fresh('best'), track=False), Int(E.fresh('bestat'), track=False))]
        cur[:] = new
        return cur

    def hv_b(E, cur, kk):
        # (havocked before the neighbours: names are handled in sorted order; related by the invariant)
        return Real(E.fresh('bound_'), track=False) if E.choose('bounded') else inf
    E.loops[(KD, 'HaversineDistanceKDTree._query', 0)] = LoopSpec(inv, havoc=dict(q=hv_q, neighbors=hv_nb,
                                                                                 distance_upper_bound=hv_b))
    st2 = {}

    def inv2(E, L, kk):
        if conc(kk) == 0:
            st2['b0'] = L.distance_upper_bound
        b0, b = st2['b0'], L.distance_upper_bound
        q = qint('q')
        node = L.node
        pos = node.idx
        kk = iterm(kk)
        at = lambda p: lift(pos.at(p)).e
        less = z3.BoolVal(True) if isinf(b0) else z3.BoolVal(False) if isinf(b) else lift(b).real() <= lift(b0).real()
        return [('points of the leaf looked at', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < kk), beyond(L, at(q))),
                                                              patterns=[t.pos(q)])),
                ('the bound only decreases', less), ('the best so far', best(L))]
    E.loops[(KD, 'HaversineDistanceKDTree._query', 1)] = LoopSpec(inv2, havoc=dict(neighbors=hv_nb, distance_upper_bound=hv_b))
    E.cover()
    r = t.obj._query(x)
    i = Int('i')
    E.assume(z3.And(in_range(i, n), t.mem(0, i.e)))
    E.prove('a point is found', z3.BoolVal(len(r) == 1))
    if len(r) != 1:
        return
    d, j = r[0]
    j = iterm(j)
    E.prove('the reported distance is that of the reported point', and_(in_range(j, n), lift(d).real() == D(j)))
    E.prove('no point is nearer', D(i.e) >= lift(d).real())


# ---- bounded -------------------------------------------------------------------------------------------------------------
def hav_np(P, q):
    """independent: angle between unit vectors (km)"""
    import numpy as n

    def vec(a):
        a = n.radians(n.asarray(a, dtype=float))
        return n.stack([n.cos(a[..., 0]) * n.cos(a[..., 1]), n.cos(a[..., 0]) * n.sin(a[..., 1]), n.sin(a[..., 0])], -1)
    u, v = vec(P), vec(q)
    return 6378. * n.arctan2(n.sqrt(n.sum(n.cross(u, v) ** 2, -1)), n.sum(u * v, -1))


EDGE = 2e-3         # km; rounding of the haversine formula is largest for nearly opposite points
LIMIT_S = 15
LIMIT_THOROUGH_S = 240


def lonlat(rng, c):
    k = c['kind']
    if k == 'globe':
        p = [rng.uniform(-90, 90), rng.uniform(-180, 180) + c['conv']]
    elif k == 'pole':
        p = [c['s'] * (90 - rng.uniform(0, 6) ** 2), rng.uniform(-180, 180) + c['conv']]
    elif k == 'seam':
        p = [rng.uniform(-60, 60), rng.choice([-180., 180.]) + rng.uniform(-8, 8)]
    elif k == 'grid':
        p = [rng.randrange(-6, 7) * 15., rng.randrange(-12, 13) * 15. + c['conv']]
    elif k == 'line':
        p = [c['lat'], rng.uniform(-180, 180) + c['conv']]
    else:
        p = [c['lat'] + rng.uniform(-3, 3), c['lon'] + rng.uniform(-3, 3)]
    return [max(-90., min(90., p[0])), p[1]]


def cases(rng, tier, scale):
    while True:
        c = dict(kind=rng.choice(['globe', 'pole', 'seam', 'grid', 'line', 'local']), conv=rng.choice([0, 0, 180]),
                 s=rng.choice([-1, 1]), lat=rng.choice([0., 30., 85., -70., 90.]), lon=rng.choice([0., 100., 179., -179., 359.]))
        if rng.random() < .3:
            a = [lonlat(rng, c) for _ in range(2)]
            b = [lonlat(rng, c) for _ in range(2)]
            yield dict(what='rect', a=a, b=b, w=rng.choice([1., .1, 0.]), x=lonlat(rng, c))
            continue
        n = rng.choice([0, 1, 2, 3, 8, 20, 60])
        d = [lonlat(rng, c) for _ in range(n)]
        if rng.random() < .3:
            c['kind'] = rng.choice(['globe', 'local', 'seam'])
        s = [lonlat(rng, c) for _ in range(rng.randrange(1, 12))]
        if d and rng.random() < .3:
            d += [list(rng.choice(d)) for _ in range(rng.randrange(1, 15))]
        if d and rng.random() < .3:
            s[0] = list(rng.choice(d))
        if rng.random() < .2:
            s = [[p[0], p[1] + rng.choice([360., -360.])] for p in s]
        yield dict(what='index', d=d, s=s, r=rng.choice([0., 10., 300., 2000., 9000., 15000., 20030., rng.uniform(0, 3000)]),
                   leaf=rng.choice([1, 2, 5, 10]))


def check(c):
    import numpy as n
    import pandas as pd
    from cis.collocation import kdtree, haversinedistancekdtreeindex as hi
    if c['what'] == 'rect':
        def rect(p):
            (a0, b0), (a1, b1) = p
            a1, b1 = a0 + (a1 - a0) * c['w'], b0 + (b1 - b0) * c['w']
            r = kdtree.RectangleHaversine(n.array([a0, b0]), n.array([a1, b1]))
            la, lo = n.linspace(r.mins[0], r.maxes[0], 12), n.linspace(r.mins[1], r.maxes[1], 12)
            ext = [v for v in (0.,) if r.mins[0] <= v <= r.maxes[0]]
            g = n.array([(x, y) for x in list(la) + ext for y in lo])
            return r, g
        A, P = rect(c['a'])
        B, Q = rect(c['b'])
        x = n.array(c['x'])
        d = hav_np(P, x)
        lo, hi_ = A.min_distance_point(x), A.max_distance_point(x)
        if lo > d.min() + EDGE or hi_ < d.max() - EDGE:
            return 'rectangle %r, point %r: bounds %r..%r, distances %r..%r' % (A, c['x'], lo, hi_, d.min(), d.max())
        d = hav_np(P[:, None, :], Q[None, :, :])
        lo, hi_ = A.min_distance_rectangle(B), A.max_distance_rectangle(B)
        if lo > d.min() + EDGE or hi_ < d.max() - EDGE:
            return 'rectangles %r, %r: bounds %r..%r, distances %r..%r' % (A, B, lo, hi_, d.min(), d.max())
        for f in (kdtree.haversine_distance(P, x), n.array([kdtree.haversine_distance_from_radians(n.radians(p), n.radians(x))
                                                             for p in P])):
            if not n.allclose(f, hav_np(P, x), atol=EDGE):
                return 'haversine distances from %r' % (c['x'],)
        from cis.utils import haversine
        if abs(haversine(P[0][0], P[0][1], x[0], x[1]) - hav_np(P[0], x)) > EDGE:
            return 'cis.utils.haversine'
        return
    cols = lambda p: pd.DataFrame({'latitude': [q[0] for q in p], 'longitude': [q[1] for q in p]}, dtype=float)
    d, s = cols(c['d']), cols(c['s'])
    I = hi.HaversineDistanceKDTreeIndex()
    I.index_data(None, d, None, leafsize=c['leaf'])
    P = n.array(c['d'], dtype=float).reshape(-1, 2)
    allp = I.find_points_within_distance_sample(s, c['r'])
    if len(allp) != len(c['s']):
        return '%d lists for %d sample points' % (len(allp), len(c['s']))
    for j, q in enumerate(c['s']):
        D = hav_np(P, n.array(q))
        must = set(n.nonzero(D <= c['r'] - EDGE)[0].tolist())
        may = set(n.nonzero(D <= c['r'] + EDGE)[0].tolist())
        for what, got in (('one point', I.find_points_within_distance(s.iloc[j], c['r'])), ('sample', allp[j])):
            got = [int(v) for v in got]
            if len(set(got)) != len(got):
                return '%s: a point is reported twice: %r' % (what, got)
            if not must <= set(got) <= may:
                return '%s: points within %r km of %r: %r; reported too many %r, missing %r' % (
                    what, c['r'], q, sorted(must), sorted(set(got) - may), sorted(must - set(got)))
    if len(c['d']):
        near = n.asarray(I.find_nearest_point(s))
        dist, near2 = I.index.query(s[['latitude', 'longitude']])
        for j, q in enumerate(c['s']):
            D = hav_np(P, n.array(q))
            for i in (near[j], near2[j], I.find_nearest_point(s.iloc[j])):
                if D[int(i)] > D.min() + EDGE:
                    return 'nearest to %r: reported %r at %r km, nearest is at %r km' % (q, c['d'][int(i)], D[int(i)], D.min())
            if abs(dist[j] - D.min()) > EDGE:
                return 'distance to the nearest: %r, is %r' % (dist[j], D.min())


def nontrivial(c):
    return c['what'] == 'rect' or len(c['d']) > 1
