"""C07 nearest-neighbour kernels"""
from vc.api import *
from vc.frame import SFrame, Row
from props import common as C

ID = 'C07'
LEVEL = 'proof'
PROPERTY = dict(
    title='Nearest-neighbour collocation takes the value of a nearest data point',
    statement='Collocating ungridded data with a nearest-neighbour kernel gives each sample point the value of one of the '
              'candidate data points (those within the separation limits) such that no other candidate is closer: by distance '
              'along the surface of the Earth for nn_horizontal (nn_h) and for nn_horizontal_only (which ignores limits), by '
              'altitude difference for nn_altitude (nn_a), by time difference for nn_time (nn_t) and by the ratio of the larger '
              'to the smaller pressure for nn_pressure (nn_p). Among equally near candidates any may be taken. Without any '
              'candidate the output is missing. Missing data values are never candidates.',
    over=['inputs'],
    text='any number and order of candidates, any coordinate values (positive pressures)',
    why='Tests use a few points on a regular grid with the answer next to the sample; wrong comparisons only show for '
        'particular orders, ties and sides (points before/after, above/below, across the date line).',
    files=['cis/collocation/col_implementations.py', 'cis/collocation/haversinedistancekdtreeindex.py',
           'cis/collocation/kdtree.py'],
    mechanism=[('kernels', 'cis/collocation/col_implementations.py: nn_horizontal, nn_altitude, nn_pressure, nn_time'),
               ('unconstrained nearest point', 'cis/collocation/col_implementations.py: GeneralUngriddedCollocator.collocate')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5) with loop invariants; end-to-end runs bounded'
NOTE = 'Kernels proved for all candidate sets; the k-d tree search behind nn_horizontal_only is the subject of C06.'
ASSUMPTIONS = ['reals instead of floating point', 'pandas row iteration (vc/frame.py) is trusted',
               'haversine is the great circle distance (C06)', 'end-to-end collocation with these kernels is checked bounded']
CI = 'cis.collocation.col_implementations'
COLS = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time', 'vals']


def absd(a, b):
    return ite(a > b, a - b, b - a)


def metric(kind, p, q):
    if kind == 'altitude':
        return absd(p.altitude, q.altitude)
    if kind == 'time':
        return absd(p.time, q.time)
    if kind == 'pressure':
        a, b = p.air_pressure, q.air_pressure
        return ite(a > b, Num(a.real() / b.real()), Num(b.real() / a.real()))
    f = z3.Function('hav', *([z3.RealSort()] * 5))
    return Num(f(*[lift(x).real() for x in (p.latitude, p.longitude, q.latitude, q.longitude)]))


def nn(kind, cls):
    @unit(UNITS, '%s.get_value' % cls, ['%s:%s.get_value' % (CI, cls)], timeout_ms=20000)
    def u(E):
        m = M(CI)
        n = Int('n')
        E.assume(n >= 0)
        data = SFrame({c: fresh_array('d_' + c, (n,), 'r') for c in COLS}, n)
        point = SFrame({c: fresh_array('p_' + c, (lift(1),), 'r') for c in COLS}, lift(1))
        point = Row(point, z3.IntVal(0))
        q = qint('q')
        E.assume(forall(q, implies(in_range(q, n), data.cols['air_pressure'].at(q) > 0)))
        E.assume(point.air_pressure > 0)

        def hav(p, r):
            use('haversine: great circle distance of two points (C06)')
            return metric('horizontal', p, r)
        patch(M('cis.collocation.kdtree'), 'haversine', hav)

        class At(object):                       # row number k, without a bounds check
            def __init__(self, k):
                self.k = k

            def __getattr__(self, c):
                return data.cols[c].at(self.k)

        def inv(E, L, k):
            near = L.nearest_point
            expect(isinstance(near, Row) and near._f is data, 'the nearest point so far is a row of the data')
            j = iterm(near._k)
            t = qint('t')
            return [('nearest so far is one of the candidates seen', z3.And(0 <= j, j <= k.e, j < n.e)),
                    ('no candidate seen is nearer', forall(t, z3.Implies(z3.And(0 <= t, t <= k.e, t < n.e), zbool(
                        metric(kind, point, At(j)) <= metric(kind, point, At(t))))))]
        E.loops[(CI, cls + '.get_value', 0)] = LoopSpec(inv, havoc={
            'nearest_point': lambda E, cur, k: Row(data, Int(E.fresh('j')).e)})
        E.cover()
        r, e = raises(m.__dict__[cls]().get_value, point, data)
        if e is not None:
            E.prove('ValueError, and only without candidates', z3.And(z3.BoolVal(isinstance(e, ValueError)), n.e == 0))
            return
        E.prove('there is a candidate', n >= 1)
        t = qint('t')
        some = qint('s')
        best = forall(t, z3.Implies(z3.And(0 <= t, t < n.e),
                                    zbool(metric(kind, point, At(some)) <= metric(kind, point, At(t)))))
        E.prove('the value is that of a nearest candidate', z3.Exists([some], z3.And(
            0 <= some, some < n.e, same(r, data.cols['vals'].at(some)), best)))
    return u


for _k, _c in (('horizontal', 'nn_horizontal'), ('altitude', 'nn_altitude'), ('pressure', 'nn_pressure'),
               ('time', 'nn_time')):
    nn(_k, _c)


# ---- bounded: kernels and whole collocations on the real code ------------------------------------------------------------
RULE = 'kernel called directly on random candidate sets and through collocated_onto'
BOUNDED_FUNCTIONS = ['UngriddedData.collocated_onto', 'nn_* kernels', 'HaversineDistanceKDTreeIndex.find_nearest_point']
KINDS = ['horizontal', 'altitude', 'pressure', 'time', 'nn']


def rand_point(rng, tight):
    lon0 = rng.choice([0., 175., -175., 355., 10.]) if tight else rng.uniform(-180, 360)
    return [C.q(rng.uniform(-90, 90)) if rng.random() < .8 else rng.choice([-90., 90., 0.]),
            C.q(lon0 + rng.uniform(-8, 8) if tight else lon0),
            rng.choice([0., 100., C.q(rng.uniform(-500, 10000))]), rng.choice([1000., 500., C.q(rng.uniform(1, 1100))]),
            149751. + rng.choice([0., 1., C.q(rng.uniform(-10, 10))])]


def cases(rng, tier, scale):
    for t in range(500 * scale):
        n = rng.choice([0, 1, 2, 3, 5, 8, 14])
        ns = rng.choice([1, 2, 4])
        tight = rng.random() < .5
        yield dict(d=[rand_point(rng, tight) for _ in range(n)], s=[rand_point(rng, tight) for _ in range(ns)],
                   mask=[rng.random() < .25 for _ in range(n)], kind=rng.choice(KINDS), alias=rng.random() < .5,
                   e2e=rng.random() < .6, h=rng.choice([None, 500., 3000.]), a=rng.choice([None, None, 2000.]),
                   fill=rng.random() < .3)


def dist(kind, p, q):
    if kind in ('horizontal', 'nn'):
        import math
        a, b = math.radians(p[0]), math.radians(q[0])
        h = math.sin((a - b) / 2) ** 2 + math.cos(a) * math.cos(b) * math.sin(math.radians(p[1] - q[1]) / 2) ** 2
        return 2 * 6371. * math.asin(min(1., math.sqrt(h)))
    if kind == 'altitude':
        return abs(p[2] - q[2])
    if kind == 'time':
        return abs(p[4] - q[4])
    return max(p[3], q[3]) / min(p[3], q[3])


def check(c):
    import pandas as pd
    from cis.collocation import col_implementations as ci
    kind = c['kind']
    n = len(c['d'])
    vals = [100. + i for i in range(n)]
    names = dict(horizontal=('nn_horizontal', 'nn_h'), altitude=('nn_altitude', 'nn_a'), pressure=('nn_pressure', 'nn_p'),
                 time=('nn_time', 'nn_t'))
    tol = 1e-6 if kind in ('horizontal', 'nn') else 0.
    std = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']
    if not c['e2e'] and kind != 'nn':
        f = lambda P, v: pd.DataFrame(dict([(x, [float(p[j]) for p in P]) for j, x in enumerate(std)] + [('vals', v)]))
        D, S = f(c['d'], vals), f(c['s'], [0.] * len(c['s']))
        k = getattr(ci, names[kind][c['alias']])()
        for j, p in S.iterrows():
            try:
                got = k.get_value(p, D)
            except ValueError:
                if n:
                    return '%s raised for %d candidates' % (kind, n)
                continue
            if not n:
                return 'a value without candidates: %r' % got
            dd = [dist(kind, c['s'][j], q) for q in c['d']]
            if not dd[int(got - 100)] <= min(dd) + tol:
                return '%s: sample %r got candidate %r of %r' % (kind, c['s'][j], c['d'][int(got - 100)], c['d'])
        return
    if n == 0:
        return
    d = C.ung(dict(coords={x: [p[j] for p in c['d']] for j, x in enumerate(std)}, vals=vals, mask=c['mask']))
    s = C.ung(dict(coords={x: [p[j] for p in c['s']] for j, x in enumerate(std)}, vals=[0.] * len(c['s'])))
    kw = dict(fill_value=-7.) if c['fill'] else {}
    lim = []
    if kind == 'nn':
        r = d.collocated_onto(s, kernel='nn_horizontal_only', **kw)
    else:
        if c['h'] is not None:
            kw['h_sep'] = '%rkm' % c['h']
            lim.append(('horizontal', c['h']))
        if c['a'] is not None:
            kw['a_sep'] = '%rm' % c['a']
            lim.append(('altitude', c['a']))
        r = d.collocated_onto(s, how='box', kernel=names[kind][c['alias']], **kw)
    if len(r) != 1:
        return '%d outputs' % len(r)
    out = C.vals(r[0].data)
    if len(out) != len(c['s']):
        return 'output of %d values for %d samples' % (len(out), len(c['s']))
    for p, v in zip(c['s'], out):
        cand = [i for i in range(n) if not c['mask'][i] and all(dist(k, p, c['d'][i]) < x for k, x in lim)]
        if v is None or v != v:
            if cand:
                return 'missing value at %r although %r are candidates' % (p, [c['d'][i] for i in cand])
            continue
        i = int(v - 100)
        if not cand or i not in cand:
            return 'value %r at %r, candidates %r' % (v, p, cand)
        if not dist(kind, p, c['d'][i]) <= min(dist(kind, p, c['d'][k]) for k in cand) + tol:
            return '%s: sample %r got %r although %r is nearer' % (kind, p, c['d'][i], [c['d'][k] for k in cand])


def nontrivial(c):
    return len(c['d']) > 1
