"""C10 collocation onto ungridded sample points: alignment of the output"""
from vc.api import *
from vc.frame import SFrame, Row
from props import common as C

ID = 'C10'
LEVEL = 'proof'
PROPERTY = dict(
    title='Ungridded collocation gives one aligned value per sample point and output',
    statement='Collocating ungridded data onto ungridded sample points gives outputs with one value per sample point, in the '
              'order of the sample points and with their coordinates (longitudes up to whole turns). The value at a sample '
              'point is what the kernel gives for exactly the valid data points within the separation limits of that sample '
              'point, and missing when the kernel has nothing to work on or when the sample value is missing and missing '
              'samples are to stay missing (the default for data; never for bare coordinates). Every variable of a list gives '
              'its own outputs, in order, computed from its own values and missing flags. Outputs carry the name, long name '
              'and units asked for, else those of the data. The values of sample and data are not altered.',
    over=['inputs'],
    text='any number of sample points and data points, lists of variables, masks, kernels and limits',
    why='Tests collocate a few points with the result in the same positions; misalignment, leakage between samples or '
        'variables and missing flags only show for particular combinations.',
    files=['cis/collocation/col_implementations.py', 'cis/data_io/ungridded_data.py', 'cis/collocation/data_index.py'],
    mechanism=[('collocator', 'cis/collocation/col_implementations.py: GeneralUngriddedCollocator.collocate'),
               ('values and coordinates as rows', 'cis/data_io/ungridded_data.py: UngriddedData.as_data_frame')])
UNITS = []
STD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole collocations bounded'
NOTE = 'Loop and output structure of the collocator proved for all numbers of sample points; the constraint, kernel and '\
    'index by contract (C05-C08); as_data_frame bounded.'
ASSUMPTIONS = ['reals instead of floating point']

CI = 'cis.collocation.col_implementations'
from vc.engine import zbool  # noqa


class FData(object):
    """ungridded data through its contract: coords() and rows of values and coordinates (as_data_frame)"""
    _vc_symbolic = True

    def __init__(self, E, name, n, vals=True):
        self.nm, self.n = name, n
        self.frame = SFrame(dict([(c, fresh_array(name + '_' + c, (n,), 'r')) for c in STD] +
                                 ([('vals', fresh_array(name + '_vals', (n,), 'r', nan=True))] if vals else [])), n)
        self.var_name, self.long_name, self.standard_name, self.units = 'dname', 'dlong', 'dstd', 'dunits'
        self.cs = [object()]

    def coords(self):
        return self.cs

    def as_data_frame(self, copy=True, time_index=True, name=None):
        expect(name == 'vals' and not time_index, 'rows with values named vals')
        use('as_data_frame: one row per point, missing values are NaN (checked bounded)')
        return self.frame


def collocator(E, r, cls='kernel'):
    """common set-up: returns (run, info)"""
    m = M(CI)
    ns, n = Int('ns'), Int('n')
    E.assume(z3.And(ns.e >= 0, n.e >= 0))
    hasv = E.choose('the sample has values')
    points, data = FData(E, 'sample', ns, hasv), FData(E, 'data', n)
    fixed, made = [], []
    patch(m, '_fix_longitude_range', lambda c, d: fixed.append((c, d)))
    indexed = []
    patch(M('cis.collocation.data_index'), 'create_indexes', lambda con, p, d, cm: indexed.append((con, p, d)))
    use('_fix_longitude_range: the longitudes of both in the convention of the sample (C01)')
    use('data_index.create_indexes: the index of the constraint is of the given data (C06)')

    class Meta(object):
        _vc_symbolic = True

        def __init__(self, name='', standard_name='', long_name='', shape=None, units='', missing_value=None, **k):
            self.name, self.long_name, self.units, self.shape = name, long_name, units, shape

    class UD(object):
        _vc_symbolic = True

        def __init__(self, values, md, coords, *a):
            self.values, self.md, self.coords = values, md, coords
            made.append(self)
    patch(m, 'Metadata', Meta)
    patch(m, 'UngriddedData', UD)
    patch(m, 'UngriddedDataList', list)
    stds = []
    patch(m, 'set_standard_name_if_valid', lambda o, s: stds.append((o, s)))
    named = E.choose('names asked for')
    miss = E.choose('missing samples stay missing')
    c = Duck(m.GeneralUngriddedCollocator, fill_value=Real('fill'), var_name='uname' if named else '',
             var_long_name='ulong' if named else '', var_units='uunits' if named else '',
             missing_data_for_missing_sample=miss)
    det = []

    def details(self, *a):
        det.append(a)
        return tuple(('n%d' % q, 'l%d' % q, 's%d' % q, 'u%d' % q) for q in range(r))
    return m, c, points, data, ns, n, hasv, named, miss, fixed, made, indexed, stds, det, details


def outputs(E, out, made, r, points, ns, stds, named, det, data):
    """structure of the outputs"""
    E.prove('one output per variable of the kernel, in order', z3.BoolVal(len(out) == r and list(out) == made))
    want = ('uname', 'ulong', 'dstd', 'uunits') if named else ('dname', 'dlong', 'dstd', 'dunits')
    E.prove('details are derived from the names asked for, else of the data', z3.BoolVal(det == [want]))
    for q, o in enumerate(out):
        E.prove('details of each output', z3.BoolVal((o.md.name, o.md.long_name, o.md.units) == ('n%d' % q, 'l%d' % q, 'u%d' % q)
                                                       and stds[q] == (o.md, 's%d' % q)))
        E.prove('coordinates of the sample', z3.BoolVal(o.coords is points.cs))
        E.prove('one value per sample point', z3.And(iterm(o.values.shape[0]) == ns.e, z3.BoolVal(len(o.values.shape) == 1)))


def coll(r):
    @unit(UNITS, 'GeneralUngriddedCollocator.collocate[%d output%s]' % (r, 's' if r > 1 else ''),
          [CI + ':GeneralUngriddedCollocator.collocate'], timeout_ms=30000)
    def u(E):
        (m, c, points, data, ns, n, hasv, named, miss, fixed, made, indexed, stds, det, details) = collocator(E, r)
        # contract of the iterator of the constraint (C05): sample point pos(k) with the points within its limits
        N = Int('visited')
        pos = z3.Function('pos', z3.IntSort(), z3.IntSort())
        inv_ = z3.Function('visit', z3.IntSort(), z3.IntSort())
        k, j = qint('k'), qint('j')
        E.assume(N.e >= 0)
        E.assume(forall(k, z3.Implies(in_range(k, N), z3.And(in_range(pos(k), ns), inv_(pos(k)) == k)), [pos(k)]))
        # contract of the kernel: nothing to work on -> ValueError, else r values
        empty = z3.Function('empty', z3.IntSort(), z3.BoolSort())
        V = [z3.Function('V%d' % q, z3.IntSort(), z3.RealSort()) for q in range(r)]
        Vnan = [z3.Function('Vnan%d' % q, z3.IntSort(), z3.BoolSort()) for q in range(r)]
        num = lambda q, t: Num(V[q](t), nan=Vnan[q](t))

        class Con(object):
            def __init__(self, t):
                self.t = t

        class Constraint(object):
            _vc_symbolic = True
            called = []

            def get_iterator(self, missing, coord_map, coords, data_points, shape, pts, output):
                expect(isinstance(data_points, SFrame) and data_points.base is data.frame and pts is points.frame)
                E.prove('the flag for missing samples is passed on', z3.BoolVal(missing is miss))
                i = Int('i')
                E.assume(in_range(i, n))
                v = data.frame.cols['vals'].at(i)
                w, p = Int('w'), qint('w')
                E.prove('no missing value among the data points', implies(in_range(w, data_points.n),
                                                                        not_(Bool(zbool(data_points.cols['vals'].at(w).isnan())))))
                if data_points.inv is not None:
                    at = data_points.inv(i.e)
                    E.prove('every valid data point is there', implies(not_(Bool(zbool(v.isnan()))), z3.And(
                        0 <= at, at < iterm(data_points.n), data_points.pos(at) == i.e)))
                E.prove('the index is of these data points', z3.BoolVal(len(indexed) == 1 and indexed[0][2] is data_points and
                                                                        indexed[0][0] is self))
                return SSeq(N, lambda k: (Num(pos(k)), Row(pts, pos(k)), Con(k)))

        class Kernel(object):
            _vc_symbolic = True
            get_variable_details = details

            def get_value(self, point, con):
                expect(isinstance(con, Con) and isinstance(point, Row) and point._f is points.frame)
                E.prove('the kernel gets the sample point the points belong to', iterm(point._k) == pos(con.t))
                if E.decide(empty(con.t)):
                    raise ValueError
                vs = [num(q, con.t) for q in range(r)]
                return vs[0] if r == 1 else tuple(vs)
        done = lambda jj, kk: z3.And(0 <= inv_(jj), inv_(jj) < kk, pos(inv_(jj)) == jj, z3.Not(empty(inv_(jj))))

        def inv(E, L, k):
            k = iterm(k)
            vs = L.values
            res = []
            for q in range(r):
                idx = (z3.IntVal(q), j)
                res.append(('a value is set iff the kernel gave one', forall(j, z3.Implies(z3.And(0 <= j, j < ns.e), iff(
                    not_(vs.mask_at(*idx)), done(j, k))))))
                res.append(('the value is that of the kernel for this sample point', forall(j, z3.Implies(
                    z3.And(0 <= j, j < ns.e, done(j, k)), same(vs.at(*idx), num(q, inv_(j)))))))
            return res

        def hav(E, cur, k):
            a = fresh_array('h_values', cur.shape, 'r', nan=True, track=False, masked=True)
            cur.buf.fn, cur.mbuf.fn = a.buf.fn, a.mbuf.fn
            return cur
        E.loops[(CI, 'GeneralUngriddedCollocator.collocate', 1)] = LoopSpec(inv, havoc={'values': hav})
        E.cover()
        con = Constraint()
        out = m.GeneralUngriddedCollocator.collocate(c, points, data, con, Kernel())
        E.prove('longitudes of both are brought into the convention of the sample', z3.BoolVal(
            sorted([id(d) for _, d in fixed]) == sorted([id(points), id(data)]) and all(x is points.cs for x, _ in fixed)))
        outputs(E, out, made, r, points, ns, stds, named, det, data)
        i = Int('sample')
        E.assume(in_range(i, ns))
        for q, o in enumerate(out):
            given = z3.And(done(i.e, N.e), z3.Not(Vnan[q](inv_(i.e))))
            E.prove('missing iff there is nothing to give', iff(not_(o.values.mask_at(i.e)), given))
            E.prove('value of the kernel for this sample point', z3.Implies(given, zbool(same(o.values.at(i.e), num(q, inv_(i.e))))))
    return u


coll(1)
coll(3)


@unit(UNITS, 'GeneralUngriddedCollocator.collocate[list]', [CI + ':GeneralUngriddedCollocator.collocate'])
def u_list(E):
    m = M(CI)
    patch(m, 'UngriddedDataList', list)
    vs = [object(), object(), object()]
    outs = {id(vs[0]): ['a'], id(vs[1]): ['b', 'c', 'd'], id(vs[2]): ['e']}
    args = []

    def one(points, var, con, kern):
        args.append((points, con, kern))
        return list(outs[id(var)])
    c = Duck(m.GeneralUngriddedCollocator, collocate=one)
    p, con, kern = object(), object(), object()
    r = m.GeneralUngriddedCollocator.collocate(c, p, vs, con, kern)
    E.cover()
    E.prove('the outputs of every variable, in order', z3.BoolVal(list(r) == ['a', 'b', 'c', 'd', 'e']))
    E.prove('same sample, constraint and kernel', z3.BoolVal(all(a == (p, con, kern) for a in args)))


@unit(UNITS, 'GeneralUngriddedCollocator.collocate[nn_horizontal_only]', [CI + ':GeneralUngriddedCollocator.collocate'],
      timeout_ms=20000)
def u_nn(E):
    (m, c, points, data, ns, n, hasv, named, miss, fixed, made, indexed, stds, det, details) = collocator(E, 1)
    J = z3.Function('nearest', z3.IntSort(), z3.IntSort())
    j = qint('j')
    sel = []

    class Index(object):
        _vc_symbolic = True

        def find_nearest_point(self, s):
            expect(s is points.frame)
            use('find_nearest_point: positions of the nearest of the indexed points, one per sample point (C06)')
            d = indexed[0][2]
            sel.append(d)
            E.assume(forall(j, z3.Implies(in_range(j, ns), z3.If(iterm(d.n) > 0, in_range(J(j), d.n), J(j) == iterm(d.n)))))
            return SArr((ns,), lambda i: Num(J(i[0])), 'i')

    class Con(object):
        _vc_symbolic = True
        haversine_distance_kd_tree_index = Index()
    k = m.nn_horizontal_only()
    k.get_variable_details = lambda *a: details(None, *a)
    E.cover()
    out = m.GeneralUngriddedCollocator.collocate(c, points, data, Con(), k)
    outputs(E, out, made, 1, points, ns, stds, named, det, data)
    i = Int('sample')
    E.assume(in_range(i, ns))
    o = out[0].values
    d = sel[0] if sel else indexed[0][2]
    skip = zbool(points.frame.cols['vals'].at(i).isnan()) if hasv and miss else z3.BoolVal(False)
    given = z3.And(iterm(d.n) > 0, z3.Not(skip))
    E.prove('missing iff there are no valid data, or the sample is missing and is to stay missing',
            iff(not_(o.mask_at(i.e)), given))
    E.prove('value of the nearest point', z3.Implies(given, zbool(same(o.at(i.e), d.cols['vals'].at(J(i.e))))))


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'random sample and data points, limits, kernels, masks and lists of variables; oracle by exhaustive search'
BOUNDED_FUNCTIONS = ['UngriddedData.collocated_onto', 'UngriddedCoordinates.sampled_from', 'GeneralUngriddedCollocator']
KERN = ['mean', 'max', 'sum', 'moments', 'min', 'stddev', 'nn_h', 'nn_t', 'nn_a', 'nn_horizontal_only']
STD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


def pt(rng, tight):
    from props import c07
    p = c07.rand_point(rng, tight)
    if tight:
        p[0] = C.q(rng.uniform(-8, 8))
    return p


def cases(rng, tier, scale):
    for t in range(500 * scale):
        ns = rng.choice([1, 2, 3, 4, 6])
        n = rng.choice([1, 2, 4, 8, 15])
        tight = rng.random() < .7
        two_d = ns in (4, 6) and rng.random() < .3
        nv = rng.choice([1, 1, 2, 3])
        dtype = rng.choice(['float', 'float', 'float', 'int'])
        vs = [dict(vals=[float(round(rng.uniform(-99, 99))) if dtype == 'int' else C.q(rng.uniform(-99, 99)) for _ in range(n)],
                   mask=C.maybe_mask(rng, n, .4), name='v%d' % i, units=rng.choice(['K', 'm'])) for i in range(nv)]
        seps = {}
        if rng.random() < .8:
            seps['h_sep'] = rng.choice([200., 600., 1500.])
        if rng.random() < .3:
            seps['a_sep'] = rng.choice([50., 3000.])
        if rng.random() < .2:
            seps['t_sep'] = rng.choice([.5, 4.])
        yield dict(s=[pt(rng, tight) for _ in range(ns)], d=[pt(rng, tight) for _ in range(n)], vs=vs, seps=seps, dtype=dtype,
                   smask=C.maybe_mask(rng, ns, .6), miss=rng.choice([None, None, True, False]), bare=rng.random() < .2,
                   kernel=rng.choice(KERN), shape=[2, ns // 2] if two_d else None, is_list=nv > 1 or rng.random() < .2,
                   var_name=rng.choice(['', '', 'out']), var_units=rng.choice(['', '', 's']), fill=rng.choice([None, -9.]))


def check(c):
    import numpy as np
    from cis.data_io.ungridded_data import UngriddedDataList
    from props import c07, c08
    k, n = c['kernel'], len(c['d'])
    dc = {x: [p[j] for p in c['d']] for j, x in enumerate(STD)}
    sc = {x: [p[j] for p in c['s']] for j, x in enumerate(STD)}
    ds = [C.ung(dict(coords=dc, long_name='long ' + v['name'], dtype=c['dtype'], **v)) for v in c['vs']]
    if c['is_list']:
        shared = ds[0]._coords
        for d in ds[1:]:
            d._coords = shared
    data = UngriddedDataList(ds) if c['is_list'] else ds[0]
    ns = len(c['s'])
    if c['bare']:
        s = C.ungc(dict(coords=sc, shape=c['shape']))
    else:
        s = C.ung(dict(coords=sc, vals=[5.] * ns, mask=c['smask'], shape=c['shape']))
    kw = {}
    for x, v in c['seps'].items():
        kw[x] = {'h_sep': '%rkm', 'a_sep': '%rm', 't_sep': 'PT%dM'}[x] % (round(v * 1440) if x == 't_sep' else v)
    if c['miss'] is not None:
        kw['missing_data_for_missing_sample'] = c['miss']
    if c['var_name']:
        kw['var_name'] = c['var_name']
    if c['var_units']:
        kw['var_units'] = c['var_units']
    if c['fill'] is not None:
        kw['fill_value'] = c['fill']
    miss = c['miss'] if c['miss'] is not None else True
    before = [C.snap(d.data) for d in ds] + ([] if c['bare'] else [C.snap(s.data)])
    out = data.collocated_onto(s, how=['', 'box'][ns % 2], kernel=k, **kw) if not (c['bare'] and c['miss'] is None) else \
        s.sampled_from(data, how='box', kernel=k, **kw)
    if c['bare'] and c['miss'] is None:
        miss = False
    if [C.snap(d.data) for d in ds] + ([] if c['bare'] else [C.snap(s.data)]) != before:
        return 'the input values were altered'
    per = 3 if k == 'moments' else 1
    if len(out) != per * len(ds):
        return '%d outputs for %d variables' % (len(out), len(ds))
    lim = [({'h_sep': 'horizontal', 'a_sep': 'altitude', 't_sep': 'time'}[x], v) for x, v in c['seps'].items()]
    if k == 'nn_horizontal_only':
        lim = []
    for vi, v in enumerate(c['vs']):
        want = []
        for j, p in enumerate(c['s']):
            if miss and not c['bare'] and c['smask'] and c['smask'][j]:
                want.append([None] * per)
                continue
            cand = []
            for i in range(n):
                if v['mask'] and v['mask'][i]:
                    continue
                dd = [(c07.dist(x, p, c['d'][i]), lv) for x, lv in lim]
                if any(abs(a - b) < 1e-6 for a, b in dd):
                    return                                    # on the edge of a limit
                if all(a < b for a, b in dd):
                    cand.append(i)
            if k.startswith('nn'):
                kind = dict(nn_h='horizontal', nn_t='time', nn_a='altitude', nn_horizontal_only='horizontal')[k]
                dd = sorted((c07.dist(kind, p, c['d'][i]), i) for i in cand)
                if not cand:
                    want.append([None])
                else:
                    want.append([set(v['vals'][i] for q, i in dd if q <= dd[0][0] + 1e-6)])
            else:
                want.append(c08.stats(k, [v['vals'][i] for i in cand]))
        for q in range(per):
            o = out[vi * per + q]
            got = C.vals(o.data)
            if len(got) != ns:
                return '%d values for %d sample points' % (len(got), ns)
            for j in range(ns):
                w = want[j][q]
                g = got[j]
                if not (g in w if isinstance(w, set) else C.close(g, w, 1e-7)):
                    return 'variable %d output %d sample %d: got %r, expected %r' % (vi, q, j, g, w)
            nm = (c['var_name'] or v['name']) + ['', '_std_dev', '_num_points'][q if per == 3 else 0]
            if o.var_name != nm:
                return 'output named %r, expected %r' % (o.var_name, nm)
            if q < 2 and str(o.units) != (c['var_units'] or v['units']):
                return 'units %r, expected %r' % (o.units, c['var_units'] or v['units'])
            for x in STD:
                a = C.vals(o.coord(standard_name=x).points)
                if len(a) != ns or not all((C.same_place if x == 'longitude' else C.close)(a[j], sc[x][j]) for j in range(ns)):
                    return 'coordinate %s of the output is %r, of the sample %r' % (x, a, sc[x])


def nontrivial(c):
    return len(c['d']) > 1
