"""C02 subsetting of ungridded data"""
from vc.api import *
from props import common as C

ID = 'C02'
LEVEL = 'proof'
PROPERTY = dict(
    title='Subsetting ungridded data keeps exactly the points inside the limits',
    statement='Subsetting ungridded data keeps a point if and only if each limited coordinate of the point lies between the '
              'limits, both ends included (longitudes are circular: a point is inside if it is a whole number of turns away '
              'from a value between the limits; limits spanning at most a turn), and, when a shape is given, the shape contains the point. The kept points have '
              'their original order, values, missing flags and all their coordinates (longitudes up to a whole turn); when '
              'none is left the result is None. Every variable of a list is subset alike. The input data is not altered.',
    over=['inputs'],
    text='every number of points, coordinates, limits (number, order of limits) and values; shapes: bounded',
    why='Tests use one or two small fixed files; edge-of-limit points, both longitude conventions, masks and shared lists '
        'only show up for particular inputs.',
    files=['cis/subsetting/subset.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/Coord.py', 'cis/utils.py'],
    mechanism=[('selection of points', 'cis/subsetting/subset.py: UngriddedSubsetConstraint.constrain'),
               ('longitude convention', 'cis/subsetting/subset.py: UngriddedSubsetConstraint._create_data_for_subset'),
               ('indexing data and coordinates together', 'cis/data_io/ungridded_data.py: UngriddedData.__getitem__')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); shape selection bounded'
NOTE = 'The mask of kept points is proved to be the conjunction of all limits for any number of limits and points.'
ASSUMPTIONS = ['floating point treated as real arithmetic', 'shapely.contains is trusted (shape subsetting is only checked '
               'bounded)']
SUB = 'cis.subsetting.subset'


class FCoord(object):
    _vc_symbolic = True

    def __init__(self, name, data):
        self.standard_name, self.data = name, data

    @property
    def points(self):
        return self.data

    @property
    def units(self):
        raise Unsupported('units of the coordinate')


class FUng(object):
    """UngriddedData seen through its contract: coord(), coords(), shape, size and indexing data and coordinates alike"""
    _vc_symbolic = True

    def __init__(self, coord_of, first, n, log):
        self.coord_of, self.first, self.n, self.log = coord_of, first, n, log

    def coord(self, name):
        return self.coord_of(name)

    def coords(self):
        return [self.first]

    @property
    def shape(self):
        return (self.n,)

    def __getitem__(self, key):
        r = FUng(None, None, Int('nsel'), self.log)
        self.log.append((self, key, r))
        return r

    @property
    def size(self):
        return self.n


class Limits(object):
    """a dictionary of any number of limits: name number k -> slice(lo(k), hi(k)), no shape"""
    _vc_symbolic = True

    def __init__(self, K, lo, hi):
        self.K, self.lo, self.hi = K, lo, hi

    def pop(self, name, default=None):
        return default

    def items(self):
        return SSeq(self.K, lambda k: (Num(k), slice(Num(self.lo(k)), Num(self.hi(k)))))


@unit(UNITS, 'UngriddedSubsetConstraint.constrain', [SUB + ':UngriddedSubsetConstraint.constrain'])
def u1(E):
    S = M(SUB).UngriddedSubsetConstraint
    n, K = Int('n'), Int('K')
    E.assume(n >= 1)
    E.assume(K >= 0)
    P = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.RealSort())
    lo = z3.Function('lo', z3.IntSort(), z3.RealSort())
    hi = z3.Function('hi', z3.IntSort(), z3.RealSort())

    def coord_of(name):
        k = lift(name).e
        E.prove('only coordinates which are limited are looked up', z3.And(k >= 0, k < K.e))
        return FCoord('c', SArr((n,), lambda i: Num(P(k, i[0]))))
    log = []
    data = FUng(coord_of, FCoord('c', fresh_array('first', (n,))), n, log)
    original = object()
    c = Duck(S, _limits=Limits(K, lo, hi), _shape=None, _shape_indices=None, _combined_mask=None)

    def create(d):
        assert d is original
        return data
    c._create_data_for_subset = create
    use('UngriddedSubsetConstraint._create_data_for_subset: an independent copy in the convention of the limits')
    use('UngriddedData.__getitem__: data and every coordinate indexed alike')

    def inv(E, L, k):
        i, m = qint('i'), qint('m')
        return [('mask is the conjunction of the limits so far', forall(i, z3.Implies(z3.And(0 <= i, i < n.e), iff(
            L.combined_mask.at(i), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < k.e), z3.And(
                P(m, i) >= lo(m), P(m, i) <= hi(m))))))))]

    def hav(E, cur, k):
        cur.buf.fn = fresh_array('h_mask', cur.shape, 'b', track=False).buf.fn
        return cur
    E.loops[(SUB, 'UngriddedSubsetConstraint.constrain', 0)] = LoopSpec(inv)
    E.loops[(SUB, 'UngriddedSubsetConstraint.constrain', 1)] = LoopSpec(inv, havoc={'combined_mask': hav})
    E.cover()
    r = S.constrain(c, original)
    expect(len(log) == 1 and log[0][0] is data, 'the points are not selected by one mask')
    key, res = log[0][1], log[0][2]
    i, m = Int('i'), qint('m')
    E.assume(in_range(i, n))
    inside = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < K.e), z3.And(P(m, i.e) >= lo(m), P(m, i.e) <= hi(m))))
    E.prove('a point is kept iff it is within every limit', iff(key.at(i), inside))
    E.prove('the mask has one entry per point', iterm(key.shape[0]) == n.e)
    if r is None:
        E.prove('None only when no point is left', iterm(res.n) == 0)
    else:
        E.prove('result is the selection', z3.BoolVal(r is res))
        E.prove('an empty selection gives None', iterm(res.n) != 0)


@unit(UNITS, 'UngriddedSubsetConstraint.constrain[list]', [SUB + ':UngriddedSubsetConstraint.constrain'])
def u1l(E):
    """the variables of a list are all subset with the limits; the mask computed for the first serves the others"""
    S = M(SUB).UngriddedSubsetConstraint
    n = Int('n')
    E.assume(n >= 1)
    L = type('UngriddedDataList', (list,), {})
    M('cis.data_io.ungridded_data')
    pts = fresh_array('pts', (n,))
    lo, hi = Real('lo'), Real('hi')
    log = []
    ds = [FUng(lambda name: FCoord('c', pts), FCoord('c', pts), n, log) for _ in range(3)]
    patch(M('cis.data_io.ungridded_data'), 'UngriddedDataList', L)
    c = S({'c': slice(lo, hi)})
    # precondition of lists: the variables share their coordinates; so the selections have the same size
    ns = Int('same_size')
    for d in ds:
        d._sel = ns
    made = []

    def create(d):
        made.append(d)
        return d
    c._create_data_for_subset = create

    def get(self, key):
        r = FUng(None, None, ns, log)
        log.append((self, key, r))
        return r
    patch(FUng, '__getitem__', get)
    E.cover()
    r = S.constrain(c, L(ds))
    i = Int('i')
    E.assume(in_range(i, n))
    for s, key, _ in log:
        E.prove('every variable is selected by the limits', iff(key.at(i), and_(pts.at(i) >= lo, pts.at(i) <= hi)))
    if r is None:
        E.prove('None only when no point is left', iterm(ns) == 0)
    else:
        E.prove('one result per variable, in order', z3.BoolVal([x[0] for x in log] == ds and list(r) ==
                                                                  [x[2] for x in log]))
        E.prove('an empty selection gives None', iterm(ns) != 0)


class FLon(object):
    _vc_symbolic = True

    def __init__(self, name, data):
        self.standard_name, self.data = name, data

    points = property(lambda self: self.data)

    def set_longitude_range(self, start):
        use('Coord.set_longitude_range (proved in C01)')
        self.data = fixlon(self.data, start)


def fixlon(data, start):
    use('fix_longitude_range (proved in C01): each longitude within [start, start+360), a whole number of turns away')
    E = eng.CUR
    T = z3.Function(E.fresh('turns'), z3.IntSort(), z3.IntSort())
    old = data._snapshot()

    def new(i):
        return Num(lift(old(i)).real() + 360 * z3.ToReal(T(i[0])))
    k = E.memo['at']             # the contract, instantiated at the point the postcondition talks about
    E.assume(z3.Implies(in_range(k, data.shape[0]), and_(new((k.e,)) >= start, new((k.e,)) < start + 360)))
    E.memo['turns'] = T
    return SArr(data.shape, new)


@unit(UNITS, '_create_data_for_subset', [SUB + ':UngriddedSubsetConstraint._create_data_for_subset'], timeout_ms=20000)
def u2(E):
    S = M(SUB).UngriddedSubsetConstraint
    NF = M('cis.exceptions').CoordinateNotFoundError
    n = Int('n')
    E.assume(n >= 1)
    lon = fresh_array('lon', (n,))
    lat = fresh_array('lat', (n,))
    lo, hi = Real('lo'), Real('hi')
    k = qint('k')
    E.assume(and_(lo <= hi, hi - lo <= 360))
    old = lon.copy()
    clon, clat = FLon('longitude', lon.copy()), FLon('latitude', lat.copy())
    orig = types.SimpleNamespace(_vc_symbolic=True)
    copies = []

    def coord(name):
        if name in ('longitude', 'lon', 'x'):
            return clon
        if name == 'latitude':
            return clat
        raise NF(name)

    class Copy(object):
        _vc_symbolic = True
    cp = Copy()
    cp.coord = coord

    def copy():
        copies.append(1)
        return cp
    orig.copy = copy
    patch(M('cis.utils'), 'fix_longitude_range', fixlon)
    i, m = Int('i'), Int('turns')
    E.assume(in_range(i, n))
    E.memo['at'] = i
    first = E.choose('order')
    items = [('longitude', slice(lo, hi)), ('latitude', slice(Real('a'), Real('b'))), ('shape', object())]
    c = S(dict(items if first else items[::-1]))
    E.cover()
    r = S._create_data_for_subset(c, orig)
    expect(len(copies) == 1 and r is cp, 'not a copy of the input')
    v, o = lift(clon.data.at(i)), lift(old.at(i))
    T = E.memo['turns'](i.e)
    E.prove('same place', z3.Or(v.real() == o.real(), v.real() == o.real() + 360 * z3.ToReal(T)))
    E.prove('latitudes untouched', same(clat.data.at(i), lat.at(i)))
    E.prove('number of points kept', iterm(clon.data.shape[0]) == n.e)
    t = Num(o.real() + 360 * z3.ToReal(m.e))
    inside = and_(v >= lo, v <= hi)
    E.prove('turns differ by at most one', implies(and_(t >= lo, t <= hi), z3.And(T - m.e <= 0, T - m.e >= -1)))
    E.prove('a point within the limits in some convention is within them as compared',
            implies(and_(t >= lo, t <= hi), inside))
    E.prove('a point which is inside already keeps its longitude', implies(and_(o >= lo, o <= hi), v == o))
    E.prove('the input longitudes are untouched', same(lon.at(i), old.at(i)))


@unit(UNITS, 'UngriddedData.__getitem__', ['cis.data_io.ungridded_data:UngriddedData.__getitem__',
                                           'cis.data_io.Coord:Coord.__getitem__'])
def u3(E):
    U = M('cis.data_io.ungridded_data')
    K = M('cis.data_io.Coord')
    n = Int('n')
    E.assume(n >= 0)
    data = fresh_array('data', (n,), masked=True)
    cs = [fresh_array(x, (n,)) for x in ('lat', 'lon', 'time')]
    made = []

    class NewCoord(object):
        _vc_symbolic = True

        def __init__(self, data, metadata=None, axis='', *a):
            self.data, self.metadata, self.axis = data, metadata, axis
    patch(K, 'Coord', NewCoord)

    class New(object):
        _vc_symbolic = True

        def __init__(self, data=None, metadata=None, coords=None, **k):
            self.data, self.metadata, self._coords = data, metadata, coords
    patch(U, 'UngriddedData', New)
    KO = E._undo[0][2]
    UO = E._undo[1][2]
    coords = [Duck(KO, data=c, metadata='m%d' % k, axis='A%d' % k) for k, c in enumerate(cs)]
    d = Duck(UO, data=data, metadata='meta')
    d.coords = lambda *a, **k: list(coords)
    mask = fresh_array('mask', (n,), 'b')
    E.cover()
    r = UO.__getitem__(d, mask)
    ref = data[mask]
    j = Int('j')
    E.assume(in_range(j, ref.shape[0]))
    E.prove('data selected', and_(same(r.data.at(j), ref.at(j)), iff(r.data.mask_at(j), ref.mask_at(j))))
    E.prove('one coordinate each', z3.BoolVal(len(r._coords) == 3))
    for k in range(3):
        E.prove('coordinate %d selected alike' % k, same(r._coords[k].data.at(j), cs[k][mask].at(j)))
        E.prove('axis and metadata kept', z3.BoolVal(r._coords[k].axis == 'A%d' % k and
                                                       r._coords[k].metadata == 'm%d' % k))
    E.prove('lengths agree', z3.And(*[iterm(r._coords[k].data.shape[0]) == iterm(r.data.shape[0]) for k in range(3)]))
    E.prove('a copy, not a view', z3.BoolVal(r.data.buf is not data.buf and all(
        x.data.buf is not y.buf for x, y in zip(r._coords, cs))))


# ---- bounded stand-in -------------------------------------------------------------------------------------------------
SHARDS = 4
LIMIT_S = 20
RULE = ('1-8 points (1-d and 2-d arrays) in either longitude convention with values on, next to and off the limits; 0-4 limits '
        'on lat/lon/time/altitude/extra coordinates by name, standard name or axis; masks; lists of variables; polygons')
BOUNDED_FUNCTIONS = ['UngriddedData.subset', 'UngriddedDataList.subset', 'shape selection']


def cases(rng, tier, scale):
    while True:
        n = rng.randrange(1, 9)
        neg = rng.random() < .5
        base = -180. if neg else 0.

        def lo_hi(a, b, s=4.):
            x, y = sorted([C.q(rng.uniform(a, b), s), C.q(rng.uniform(a, b), s)])
            if rng.random() < .1:
                y = x
            return [x, y]
        lims = {}
        limneg = rng.random() < .5
        lb = -180. if limneg else 0.
        if rng.random() < .7:
            lims[rng.choice(['longitude', 'x', 'lon'])] = lo_hi(lb, lb + 360) if rng.random() < .6 else \
                rng.choice([[lb, lb + 360], [lb, lb + 180], [lb + 180, lb + 360], [lb - 10, lb + 200], [lb + 300, lb + 400],
                            [-380., -340.], [90., 270.]])
        if rng.random() < .5:
            lims[rng.choice(['latitude', 'y', 'lat'])] = lo_hi(-90, 90)
        if rng.random() < .4:
            lims[rng.choice(['time', 't'])] = lo_hi(0, 20)
        if rng.random() < .3:
            lims['altitude'] = lo_hi(0, 1000)
        if rng.random() < .2:
            lims['wavelength'] = lo_hi(0, 5, 1)
        ks = list(lims)
        rng.shuffle(ks)
        lims = {k: lims[k] for k in ks}
        near = {k[:3]: v for k, v in lims.items()}

        def pts(name, a, b):
            l = near.get(name[:3]) or (near.get('x') if name == 'longitude' else near.get('y') if name == 'latitude' else
                                       near.get('t') if name == 'time' else None)
            out = []
            for _ in range(n):
                if l and rng.random() < .6:
                    x = rng.choice([l[0], l[1], l[0] - .125, l[1] + .125, l[0] + .125, l[1] - .125, sum(l) / 2.,
                                    l[0] - C.TINY, l[1] + C.TINY])
                    if name == 'longitude':
                        x = (x - base) % 360 + base
                else:
                    x = C.q(rng.uniform(a, b))
                out.append(min(b, max(a, x)))
            return out
        d = dict(coords=dict(latitude=pts('latitude', -90, 90), longitude=pts('longitude', base, base + 360),
                             time=pts('time', 0, 20)), vals=[float(i + 1) for i in range(n)],
                 mask=C.maybe_mask(rng, n, .4))
        if 'altitude' in lims or rng.random() < .3:
            d['coords']['altitude'] = pts('altitude', 0, 1000)
        if 'wavelength' in lims:
            d['coords']['wavelength'] = [float(rng.randrange(0, 6)) for _ in range(n)]
        if n % 2 == 0 and rng.random() < .3:
            d['shape'] = [2, n // 2]
        shape = None
        if rng.random() < .25:
            for k in ('longitude', 'x', 'lon', 'latitude', 'y', 'lat'):
                lims.pop(k, None)
            cx, cy = C.q(rng.uniform(lb + 60, lb + 300)), C.q(rng.uniform(-50, 50))
            r = rng.choice([5., 20., 40.])
            if rng.random() < .5:
                shape = [[cx - r, cy - r], [cx + r, cy - r], [cx, cy + r]]
            else:
                shape = [[cx - r, cy - r], [cx + r, cy - r], [cx + r, cy + r], [cx, cy], [cx - r, cy + r]]
            for i in range(n):
                if rng.random() < .7:
                    d['coords']['latitude'][i] = max(-90., min(90., C.q(cy + rng.uniform(-r, r)) + .01))
                    d['coords']['longitude'][i] = (C.q(cx + rng.uniform(-r, r)) + .01 - base) % 360 + base
        yield dict(d=d, lims=lims, form=rng.choice(['slice', 'list', 'tuple']), shape=shape,
                   extra=rng.randrange(0, 3) if rng.random() < .4 else None)


def nontrivial(c):
    return bool(c['lims'] or c['shape'])


AX = dict(x='longitude', y='latitude', t='time', lon='longitude', lat='latitude')


def check(c):
    from cis.data_io.ungridded_data import UngriddedDataList
    d = c['d']
    o = C.ung(d)
    for n_ in o.coords():
        if n_.axis == 'T':
            pass
    objs = [o]
    if c['extra'] is not None:
        for e in range(c['extra']):
            objs.append(o.make_new_with_same_coordinates(data=o.data.copy() * (e + 2), var_name='w%d' % e, units='1'))
        src = UngriddedDataList(objs)
    else:
        src = o
    before = C.snap(objs)
    kw = {k: (slice(*v) if c['form'] == 'slice' else tuple(v) if c['form'] == 'tuple' else list(v))
          for k, v in c['lims'].items()}
    if c['shape']:
        from shapely.geometry import Polygon, Point
        poly = Polygon(c['shape'])
        kw['shape'] = poly if c['form'] == 'slice' else poly.wkt
        if c['form'] == 'slice':
            kw = {k: kw[k] for k in reversed(list(kw))}
    n = len(d['vals'])
    keep, amb = [], set()
    for i in range(n):
        ok = True
        for k, (a, b) in c['lims'].items():
            name = AX.get(k, k)
            x = d['coords'][name][i]
            if name == 'longitude':
                ok = ok and any(a <= x + t <= b for t in (-720, -360, 0, 360, 720))
            else:
                ok = ok and a <= x <= b
        if ok and c['shape']:
            x, y = d['coords']['longitude'][i], d['coords']['latitude'][i]
            cand = [x + t for t in (-720, -360, 0, 360, 720)]
            ok = any(poly.contains(Point(t, y)) for t in cand)
            if any(poly.exterior.distance(Point(t, y)) < 1e-9 for t in cand):
                amb.add(i)
        if ok:
            keep.append(i)
    r = src.subset(**kw)
    if C.snap(objs) != before:
        return 'the input was altered'
    if amb:
        return            # points on the outline of a shape are not claimed
    if not keep:
        return None if r is None else 'no point is within the limits but got %r' % C.snap(r)
    if r is None:
        return 'points %r are within the limits but got None' % keep
    rs = list(r) if c['extra'] is not None else [r]
    if len(rs) != len(objs):
        return '%d variables became %d' % (len(objs), len(rs))
    for src1, r1 in zip(objs, rs):
        ev = [C.vals(src1.data)[i] for i in keep]
        if not C.same_vals(C.vals(r1.data), ev):
            return 'values %r, expected %r' % (C.vals(r1.data), ev)
        if r1.var_name != src1.var_name or str(r1.units) != str(src1.units):
            return 'metadata changed'
        if len(r1.coords()) != len(d['coords']):
            return 'coordinates lost'
        for name, v in d['coords'].items():
            g = r1.coord(name).data.tolist()
            e = [v[i] for i in keep]
            if len(g) != len(e):
                return 'coordinate %s: %r, expected %r' % (name, g, e)
            if name == 'longitude':
                if not all(C.same_place(x, y) for x, y in zip(g, e)):
                    return 'longitudes %r, expected %r' % (g, e)
                for k, (a, b) in c['lims'].items():
                    if AX.get(k, k) == name and not all(a - 1e-9 <= x <= b + 1e-9 for x in g):
                        return 'longitudes %r outside of the limits' % g
            elif g != e:
                return 'coordinate %s: %r, expected %r' % (name, g, e)


def from_model(unit, ob, m):
    a = m.get('lon')
    if not a or not a['data']:
        return []
    lon = [float(x) for x in a['data']][:8]
    n = len(lon)
    return [dict(d=dict(coords=dict(latitude=[0.] * n, longitude=lon, time=[1.] * n), vals=[float(i) for i in range(n)],
                        mask=None), lims={'longitude': [float(m['lo']), float(m['hi'])]}, form='slice', shape=None,
                 extra=None)]
