"""C05 separation constraints"""
from vc.api import *
from vc.frame import SFrame
from props import common as C

ID = 'C05'
LEVEL = 'proof'
PROPERTY = dict(
    title='Box collocation uses exactly the data points within every given separation',
    statement='When collocating with separation limits (h_sep, a_sep, p_sep, t_sep), the data points handed to the kernel for a '
              'sample point are exactly those which are within every limit that was given: closer than h_sep kilometres along '
              'the surface of the Earth, closer than a_sep in altitude and t_sep in time, and with a pressure ratio (of the '
              'larger to the smaller) below p_sep. Each such point is used once; no other is; a limit which is not given does '
              'not restrict, a limit of zero does. Every sample point is visited once, in order, except that a missing sample '
              'point is skipped if and only if missing samples are to stay missing. Points at exactly the horizontal '
              'separation may count either way.',
    over=['inputs'],
    text='any number of sample and data points, any coordinate values (positive pressures), any combination of limits',
    why='Tests use a handful of points on a fixed grid; which points qualify depends on combinations of limits and on the '
        'composition of index selections.',
    files=['cis/collocation/col_implementations.py', 'cis/data_io/hyperpoint.py', 'cis/utils.py'],
    mechanism=[('constraint', 'cis/collocation/col_implementations.py: SepConstraintKdtree, SepConstraint'),
               ('separations', 'cis/data_io/hyperpoint.py: HyperPoint')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5), kd-tree and pandas by contract'
NOTE = 'All numbers of points; the kd-tree index is used through its contract, which is the subject of C06.'
ASSUMPTIONS = ['pandas selection by position (vc/frame.py) is trusted', 'reals instead of floating point',
               'the k-d tree index meets its contract (C06)', 'the units of the separations are parsed as documented (tests)']
CI = 'cis.collocation.col_implementations'
HP = 'cis.data_io.hyperpoint'
COLS = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


def hav(*a):
    f = z3.Function('hav', *([z3.RealSort()] * 5))
    return Num(f(*[lift(x).real() for x in a]))


def stubs(E, sep):
    import cis.utils as _  # noqa
    u = M('cis.utils')
    patch(u, 'parse_distance_with_units_to_float_km', lambda s: sep['h'])
    patch(u, 'parse_distance_with_units_to_float_m', lambda s: sep['a'])
    patch(M('cis.parse_datetime'), 'parse_datetimestr_delta_to_float_days', lambda s: sep['t'])
    patch(u, 'haversine', hav)
    use('parse_distance_with_units_to_float_km/m and parse_datetimestr_delta_to_float_days (C30, C20)')
    use('haversine(lat, lon, lat2, lon2) is the great circle distance (C06)')


def frame(E, name, n, vals=True):
    cols = {c: fresh_array(name + '_' + c, (n,), 'r') for c in COLS}
    if vals:
        cols['vals'] = fresh_array(name + '_vals', (n,), 'r', nan=True)
    q = qint('q')
    E.assume(forall(q, implies(in_range(q, n), cols['air_pressure'].at(q) > 0)))
    return SFrame(cols, n)


def within(given, sep, data, i, ref, key=None):
    """the specification: point i of the data is within every given separation of ref (a dict of values)"""
    if key is not None:
        return Bool(z3.And(*[ok_fn(x)(iterm(i), key) for x in 'apt' if given[x]]))
    v = lambda c: data.cols[c].at(i)
    r = []
    if given['a']:
        d = v('altitude') - ref['altitude']
        r += [d < sep['a'], -d < sep['a']]
    if given['t']:
        d = v('time') - ref['time']
        r += [d < sep['t'], -d < sep['t']]
    if given['p']:
        a, b = v('air_pressure'), ref['air_pressure']
        a, b = a.real(), b.real()
        r += [Num(a / b) < sep['p'], Num(b / a) < sep['p']]
    return and_(*r) if r else Bool(z3.BoolVal(True))


class Index(object):
    """contract of the k-d tree index over ``data`` (C06)"""
    _vc_symbolic = True

    def __init__(self, E, data, h):
        self.data, self.h = data, h

    def positions(self, key, lat, lon, h):
        """positions of the data within h of (lat, lon): each once, in any order"""
        E = eng.CUR
        E.prove('separation handed to the index', and_(lift(h) == self.h))
        use('HaversineDistanceKDTreeIndex: positions of exactly the points within the distance, once each (C06)')
        f = z3.Function(E.fresh('kd'), z3.IntSort(), z3.IntSort())
        g = z3.Function(E.fresh('kdinv'), z3.IntSort(), z3.IntSort())
        m = Int(E.fresh('nkd'), track=False)
        E.assume(m.e >= 0)
        j = z3.Int(E.fresh('j'))
        n = iterm(self.data.n)
        d = lambda i: self.dist(i, lat, lon)
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m.e),
                                           z3.And(0 <= f(j), f(j) < n, g(f(j)) == j, zbool(d(f(j)) <= self.h))),
                           patterns=[f(j)]))
        E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, zbool(d(j) <= self.h)),
                                           z3.And(0 <= g(j), g(j) < m.e, f(g(j)) == j)), patterns=[g(j)]))
        r = SArr((m,), lambda i: Num(f(i[0])), 'i')
        r.ghost_inv = g
        return r

    def dist(self, i, lat, lon):
        return hav(lat, lon, self.data.cols['latitude'].at(i), self.data.cols['longitude'].at(i))

    def find_points_within_distance(self, point, h):
        return self.positions(None, point.latitude, point.longitude, h)

    def find_points_within_distance_sample(self, sample, h):
        return SSeq(sample.n, lambda k: self.positions(k, sample.cols['latitude'].at(k), sample.cols['longitude'].at(k), h))


def selected(E, what, r, data, given, sep, ref, index, key=None):
    """r consists of exactly the rows of data within the separations of ref"""
    n = data.n
    expect(isinstance(r, SFrame) and r.base is data, 'a selection of the rows of the data')
    m = lift(r.n)
    k, k2, i = Int('row'), Int('row2'), Int('point')

    def ok(i, strict):
        c = within(given, sep, data, i, ref, key)
        if given['h']:
            d = index.dist(i, ref['latitude'], ref['longitude'])
            c = and_(c, d < sep['h'] if strict else d <= sep['h'])
        return c
    E.prove(what + 'only points within every separation', implies(in_range(k, m), and_(in_range(r.pos(k.e), n),
                                                                                          ok(r.pos(k.e), False))))
    E.prove(what + 'each point once', implies(and_(in_range(k, m), in_range(k2, m), k != k2), Bool(r.pos(k.e) != r.pos(k2.e))))
    for c in data.cols:
        E.prove(what + 'rows are those of the data', implies(in_range(k, m), same(r.cols[c].at(k), data.cols[c].at(r.pos(k.e)))))
    expect(r.inv is not None, 'selection by positions of a condition')
    w = r.inv(i.e)
    if given['p'] and key is None:
        # a lemma for the ratio of positive pressures: the ratio below 1 is not the one which restricts
        pa, pb = data.cols['air_pressure'].at(i).real(), ref['air_pressure'].real()
        E.assume(in_range(i, n))
        E.decide(pa > pb)
        E.prove(what + 'lemma: ratios', z3.If(pa > pb, z3.And(pa / pb > 1, pb / pa < 1), z3.And(pb / pa >= 1, pa / pb <= 1)))
    E.prove(what + 'every point within every separation',
            implies(and_(in_range(i, n), ok(i.e, True)), and_(in_range(w, m), Bool(r.pos(w) == i.e))))


def contract_checks(E, c, given, data, ref_of):
    """the three checks of the k-d tree constraint through their contracts (unit 'SepConstraintKdtree checks')"""
    names = dict(time_constraint='t', alt_constraint='a', pressure_constraint='p')
    expect(len(c.checks) == sum(given[x] for x in 'apt'))
    new = []
    for f in c.checks:
        x = names.get(getattr(f, '__name__', None))
        expect(x is not None, 'the checks are the methods under contract')

        def check(points, ref, x=x):
            use('checks of SepConstraintKdtree: positions of exactly the points within one separation, once each')
            ok = ok_fn(x)
            rid = ref_of(ref)
            n = lift(points.n)
            pos = points.pos
            fwd = z3.Function(E.fresh('chk'), z3.IntSort(), z3.IntSort())
            inv = z3.Function(E.fresh('chkinv'), z3.IntSort(), z3.IntSort())
            m = Int(E.fresh('nchk'), track=False)
            E.assume(m.e >= 0)
            j, i = z3.Int(E.fresh('j')), z3.Int(E.fresh('i'))
            E.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m.e), z3.And(
                0 <= fwd(j), fwd(j) < n.e, inv(fwd(j)) == j, ok(pos(fwd(j)), rid))), patterns=[fwd(j)]))
            E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.e, ok(pos(i), rid)), z3.And(
                0 <= inv(i), inv(i) < m.e, fwd(inv(i)) == i)), patterns=[inv(i)]))
            r = SArr((m,), lambda k: Num(fwd(k[0])), 'i')
            r.ghost_inv = inv
            return r
        new.append(check)
    c.checks = new


def ok_fn(x):
    return z3.Function('within_' + x, z3.IntSort(), z3.IntSort(), z3.BoolSort())


def setup_kd(E, cls, sep, pick):
    mod = M(CI)
    stubs(E, sep)
    given = {x: (E.choose('given_' + x) if x in pick else False) for x in 'hapt'}
    c = getattr(mod, cls)(**{x + '_sep': (sep[x] if x == 'p' else 'text') for x in 'hapt' if given[x]})
    return c, given


def seps(E):
    s = {x: Real(x + '_sep') for x in 'hapt'}
    for x in 'hat':
        E.assume(s[x].e >= 0)
    return s


@unit(UNITS, 'SepConstraintKdtree checks',
      [CI + ':SepConstraintKdtree.__init__', CI + ':SepConstraintKdtree.time_constraint',
       CI + ':SepConstraintKdtree.alt_constraint', CI + ':SepConstraintKdtree.pressure_constraint'], timeout_ms=20000)
def u0(E):
    from vc.frame import Row
    sep = seps(E)
    x = 'a' if E.choose('altitude') else 't' if E.choose('time') else 'p'
    mod = M(CI)
    stubs(E, sep)
    c = mod.SepConstraintKdtree(**{x + '_sep': sep[x] if x == 'p' else 'text'})
    n = Int('n')
    E.assume(n.e >= 0)
    data, sample = frame(E, 'd', n), frame(E, 's', Int('ns'))
    E.assume(lift(sample.n).e >= 1)
    ref = {k: sample.cols[k].at(z3.IntVal(0)) for k in COLS}
    E.cover()
    expect(len(c.checks) == 1)
    idx = c.checks[0](data, Row(sample, 0))
    selected(E, '', data.iloc[idx], data, {k: k == x for k in 'hapt'}, sep, ref, None)


@unit(UNITS, 'SepConstraintKdtree.constrain_points',
      [CI + ':SepConstraintKdtree.__init__', CI + ':SepConstraintKdtree.constrain_points',
       CI + ':SepConstraintKdtree.time_constraint', CI + ':SepConstraintKdtree.alt_constraint',
       CI + ':SepConstraintKdtree.pressure_constraint'], timeout_ms=20000)
def u1(E):
    sep = seps(E)
    c, given = setup_kd(E, 'SepConstraintKdtree', sep, 'hapt')
    n = Int('n')
    E.assume(n.e >= 0)
    data = frame(E, 'd', n)
    index = Index(E, data, sep['h'])
    c.haversine_distance_kd_tree_index = index
    sample = frame(E, 's', Int('ns'))
    E.assume(lift(sample.n).e >= 1)
    from vc.frame import Row
    row = Row(sample, 0)
    ref = {x: sample.cols[x].at(z3.IntVal(0)) for x in COLS}
    patch(M(CI).SepConstraintKdtree, '_get_cached_indices', lambda self, p: None)
    patch(M(CI).SepConstraintKdtree, '_add_cached_indices', lambda self, p, i: None)
    use('the cache of a constraint is empty or holds what the index gives for the same place')
    contract_checks(E, c, given, data, lambda r: iterm(r._k))
    E.cover()
    r = c.constrain_points(row, data)
    selected(E, '', r, data, given, sep, ref, index, z3.IntVal(0))


def make_iter(name, miss, hasv):
  @unit(UNITS, 'SepConstraintKdtree.get_iterator[%s]' % name,
        [CI + ':SepConstraintKdtree.get_iterator', CI + ':SepConstraintKdtree.time_constraint',
         CI + ':SepConstraintKdtree.alt_constraint', CI + ':SepConstraintKdtree.pressure_constraint'], timeout_ms=20000)
  def u2(E, miss=miss, hasv=hasv):
      sep = seps(E)
      c, given = setup_kd(E, 'SepConstraintKdtree', sep, 'hapt')
      n, ns = Int('n'), Int('ns')
      E.assume(z3.And(n.e >= 0, ns.e >= 0))
      data = frame(E, 'd', n)
      sample = frame(E, 's', ns, hasv)
      index = Index(E, data, sep['h'])
      c.haversine_distance_kd_tree_index = index
      got = []
      phase = [0]

      def inv(E, L, k):
          phase[0] += 1
          if phase[0] < 3:
              return []
          k = lift(k) - 1
          skip = Bool(z3.BoolVal(False))
          if miss and hasv:
              skip = Bool(zbool(sample.cols['vals'].at(k).isnan()))
          return [('a sample point is used unless it is missing and is to stay missing',
                   iff(not_(skip), z3.BoolVal(len(got) == 1)))]
      E.loops[(CI, 'SepConstraintKdtree.get_iterator', 0)] = LoopSpec(inv)
      contract_checks(E, c, given, data, lambda r: iterm(r._k))
      E.cover()
      for i, p, d in c.get_iterator(miss, None, None, data, None, sample, None):
          got.append(i)
          k = lift(i).e
          E.prove('sample point in range', in_range(k, ns))
          for col in COLS:
              E.prove('the sample point itself', getattr(p, col) == sample.cols[col].at(k))
          ref = {x: sample.cols[x].at(k) for x in COLS}
          selected(E, 'sample: ', d, data, given, sep, ref, index, k)
      E.prove('no sample point is used after the last', z3.BoolVal(not got))


make_iter('missing stays missing', True, True)
make_iter('coordinates only', True, False)
make_iter('all', False, True)


@unit(UNITS, 'SepConstraint.constrain_points',
      [CI + ':SepConstraint.__init__', CI + ':SepConstraint.constrain_points', CI + ':SepConstraint.time_constraint',
       CI + ':SepConstraint.alt_constraint', CI + ':SepConstraint.pressure_constraint',
       CI + ':SepConstraint.horizontal_constraint', HP + ':HyperPoint.time_sep', HP + ':HyperPoint.alt_sep',
       HP + ':HyperPoint.pres_sep', HP + ':HyperPoint.haversine_dist'], timeout_ms=20000)
def u3(E):
    sep = seps(E)
    c, given = setup_kd(E, 'SepConstraint', sep, 'hapt')
    n = Int('n')
    E.assume(n.e >= 0)
    data = frame(E, 'd', n)
    hp = M(HP)

    def point(cols, k):
        p = hp.HyperPoint(*[cols[x].at(k) for x in COLS])
        p._k = k
        return p
    ns = Int('ns')
    E.assume(ns.e >= 1)
    sample = frame(E, 's', ns)
    ref = {x: sample.cols[x].at(z3.IntVal(0)) for x in COLS}
    rp = point(sample.cols, z3.IntVal(0))
    codec = Codec(z3.IntSort(), lambda p: iterm(p._k), lambda t: point(data.cols, t))
    patch(M(CI), 'HyperPointList', lambda: SList(codec))
    F = z3.Function('filtered', z3.IntSort(), z3.SeqSort(z3.IntSort()))

    def ok(i):
        r = within(given, sep, data, i, ref)
        if given['h']:
            r = and_(r, hav(data.cols['latitude'].at(i), data.cols['longitude'].at(i), ref['latitude'], ref['longitude'])
                     < sep['h'])
        return zbool(r)
    E.assume(F(0) == z3.Empty(z3.SeqSort(z3.IntSort())))

    def inv(E, L, k):
        k = iterm(k)
        E.assume(F(k + 1) == z3.If(ok(k), z3.Concat(F(k), z3.Unit(k)), F(k)))      # definition of the specification
        expect(isinstance(L.con_points, SList))
        return [('points so far are those within the separations, in order', Bool(L.con_points.seq == F(k)))]

    def hv(E, cur, k):
        s = SList(codec, z3.Const(E.fresh('pts'), z3.SeqSort(z3.IntSort())))
        if cur is not None:
            cur.seq = s.seq
            return cur
        return s
    E.loops[(CI, 'SepConstraint.constrain_points', 0)] = LoopSpec(inv, havoc={'con_points': hv})
    E.cover()
    r = c.constrain_points(rp, SSeq(n, lambda k: point(data.cols, k)))
    expect(isinstance(r, SList))
    E.prove('exactly the points within every separation, in order, once each', Bool(r.seq == F(n.e)))
    E.prove('the reference point is left alone', z3.BoolVal(rp._k is not None))


@unit(UNITS, 'HyperPoint separations', [HP + ':HyperPoint.time_sep', HP + ':HyperPoint.alt_sep', HP + ':HyperPoint.pres_sep',
                                        HP + ':HyperPoint.__new__'])
def u4(E):
    hp = M(HP)
    a, b = ({x: Real(q + x) for x in COLS} for q in 'ab')
    E.assume(z3.And(a['air_pressure'].e > 0, b['air_pressure'].e > 0))
    p, q = hp.HyperPoint(*[a[x] for x in COLS]), hp.HyperPoint(*[b[x] for x in COLS])
    E.cover()
    for x in COLS:
        E.prove('a point holds the coordinates given', getattr(p, x) == a[x])
    for nm, c in (('time_sep', 'time'), ('alt_sep', 'altitude')):
        d = getattr(p, nm)(q)
        E.prove(nm + ' is the absolute difference', and_(d >= 0, or_(d == a[c] - b[c], d == b[c] - a[c])))
    d = p.pres_sep(q)
    E.prove('pres_sep is the ratio of the larger to the smaller', and_(
        d >= 1, or_(d == a['air_pressure'] / b['air_pressure'], d == b['air_pressure'] / a['air_pressure'])))


# ---- bounded -------------------------------------------------------------------------------------------------------------
def hav_ref(a, o, b, p):
    """independent: angle between unit vectors"""
    v = []
    for la, lo in ((a, o), (b, p)):
        la, lo = math.radians(la), math.radians(lo)
        v.append((math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)))
    d = sum(x * y for x, y in zip(*v))
    cx = [v[0][1] * v[1][2] - v[0][2] * v[1][1], v[0][2] * v[1][0] - v[0][0] * v[1][2], v[0][0] * v[1][1] - v[0][1] * v[1][0]]
    return 6378. * math.atan2(math.sqrt(sum(x * x for x in cx)), d)


import math  # noqa: E402


def cases(rng, tier, scale):
    while True:
        n, ns = rng.choice([0, 1, 2, 4, 12, 25, 40]), rng.randrange(1, 5)
        clat, clon = rng.choice([0., 45., -60., 88., 20.]), rng.choice([0., 10., 179., -179., 120.])
        w = rng.choice([.5, 5., 40.])

        def pts(m):
            return [[max(-90., min(90., C.q(clat + rng.uniform(-w, w)))), C.q(clon + rng.uniform(-w, w)),
                     C.q(rng.uniform(0, 100)), C.q(rng.uniform(1, 1000)), C.q(rng.uniform(0, 10))] for _ in range(m)]
        s = pts(ns)
        d = pts(n)
        for p in d:
            for j in (2, 3, 4):
                if rng.random() < .3:
                    p[j] = rng.choice(s)[j] + rng.choice([0, 0, .125, 10., -10.]) * (j != 3)
            if rng.random() < .2:
                p[:2] = rng.choice(s)[:2]
        seps = {}
        if rng.random() < .6:
            seps['h_sep'] = rng.choice([0., 1., 50., 500., 3000., C.q(rng.uniform(0, 2000))])
        if rng.random() < .4:
            seps['a_sep'] = rng.choice([0., 10., 30.5])
        if rng.random() < .4:
            seps['p_sep'] = rng.choice([1., 1.1, 2., 10.])
        if rng.random() < .4:
            seps['t_sep'] = rng.choice([0., .125, 1., 4.])
        yield dict(s=s, d=d, seps=seps, miss=rng.random() < .5, sv=[None if rng.random() < .3 else 1. for _ in s],
                   hasv=rng.random() < .7, which=rng.choice(['kd', 'kd', 'kd1', 'list']), extra=rng.random() < .3)


def check(c):
    import pandas as pd
    from cis.collocation import col_implementations as ci, data_index
    from cis.data_io.hyperpoint import HyperPoint, HyperPointList

    def df(p, vals):
        f = pd.DataFrame({x: [float(q[j]) for q in p] for j, x in enumerate(COLS)})
        if vals is not None:
            f['vals'] = [float('nan') if v is None else float(v) for v in vals]
        return f
    fmt = dict(h_sep='%rkm', a_sep='%rm', p_sep='%r', t_sep='%r')
    kw = {}
    for k, v in c['seps'].items():
        if k == 't_sep':
            kw[k] = 'PT%dM' % round(v * 1440)
        elif k == 'p_sep':
            kw[k] = v
        else:
            kw[k] = fmt[k] % v
    cls = ci.SepConstraint if c['which'] == 'list' else ci.SepConstraintKdtree
    con = cls(**kw)
    data = df(c['d'], [float(i) for i in range(len(c['d']))])
    samp = df(c['s'], c['sv'] if c['hasv'] else None)

    def expected(p):
        must, may = [], []
        for i, q in enumerate(c['d']):
            ok = True
            edge = False
            for k, v in c['seps'].items():
                if k == 'h_sep':
                    x = hav_ref(p[0], p[1], q[0], q[1])
                    if abs(x - v) < 1e-6 * max(1., v):
                        edge = True
                        continue
                elif k == 'a_sep':
                    x = abs(p[2] - q[2])
                elif k == 't_sep':
                    x = abs(p[4] - q[4])
                    if abs(x - v) < 1e-9 and v:
                        edge = True
                        continue
                else:
                    x = max(p[3], q[3]) / min(p[3], q[3])
                ok = ok and x < v
            if ok:
                may.append(i)
                if not edge:
                    must.append(i)
        return must, may
    out = {}
    if c['which'] == 'list':
        hps = HyperPointList([HyperPoint(*(list(q) + [float(i)])) for i, q in enumerate(c['d'])])
        for j, p in enumerate(c['s']):
            out[j] = [q.val[0] for q in con.constrain_points(HyperPoint(*p), hps)]
        visited = range(len(c['s']))
    else:
        if len(c['d']) == 0:
            return
        data_index.create_indexes(con, samp, data, None)
        if c['which'] == 'kd1':
            for rep in range(2):
                for j, row in samp.iterrows():
                    o = con.constrain_points(row, data).vals.tolist()
                    if rep and sorted(o) != sorted(out[j]):
                        return 'second request differs: %r %r' % (o, out[j])
                    out[j] = o
            visited = range(len(c['s']))
        else:
            order = []
            for i, p, d in con.get_iterator(c['miss'], None, None, data, None, samp, None):
                order.append(i)
                if [p[x] for x in COLS] != list(c['s'][i]):
                    return 'sample point %d came with %r' % (i, p)
                out[i] = d.vals.tolist()
            visited = [i for i in range(len(c['s'])) if not (c['miss'] and c['hasv'] and c['sv'][i] is None)]
            if order != visited:
                return 'visited %r, expected %r' % (order, visited)
    for j in visited:
        must, may = expected(c['s'][j])
        got = sorted(int(v) for v in out[j])
        if len(set(got)) != len(got):
            return 'a point is used twice: %r' % got
        if not (set(must) <= set(got) <= set(may)):
            return 'sample %r: points %r, expected %r' % (c['s'][j], got, must)


def nontrivial(c):
    return bool(c['seps']) and len(c['d']) > 1
