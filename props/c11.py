"""C11 interpolation of gridded data to ungridded points"""
from vc.api import *
from props import common as C

ID = 'C11'
LEVEL = 'proof'
PROPERTY = dict(
    title='Gridded data at sample points is interpolated from the surrounding grid points',
    statement='Collocating gridded data onto ungridded points gives, in the order of the points, the multilinear interpolation '
              '(lin) of the grid points around each sample point, or the value of the grid point nearest along every coordinate '
              '(nn), whichever direction the coordinates of the grid run in, in whatever order its dimensions are, and for '
              'vertical coordinates which vary over the grid (hybrid heights and pressures) by way of the column at the point. '
              'Longitudes which go round the globe have no edge; otherwise points outside of the grid are missing, or with '
              'extrapolate the value extrapolated from the nearest cells. Values are missing where a grid point that '
              'contributes is missing, and where the sample is missing if missing samples are to stay missing. Every variable '
              'of a list gives one output, in order.',
    over=['inputs'],
    text='any number of points, 1-4 dimensions of two or more points in either direction, circular or not, hybrid coordinates',
    why='Tests interpolate on a few ascending grids; direction, wrap-around and column weights only matter for particular '
        'combinations of coordinates.',
    files=['cis/collocation/gridded_interpolation.py', 'cis/collocation/col_implementations.py',
           'cis/data_io/ungridded_data.py'],
    mechanism=[('preparation of the grid', 'cis/collocation/gridded_interpolation.py: GriddedUngriddedInterpolator'),
               ('cells and weights', 'cis/collocation/gridded_interpolation.py: _RegularGridInterpolator'),
               ('collocator', 'cis/collocation/col_implementations.py: GriddedUngriddedCollocator')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole collocations bounded'
NOTE = ('Proved for any number of points and grid points: the cells, weights and edges (1-4 dimensions), the combination of the '
        'corners (1-4 dimensions), the cell of a column, the interpolator object on top of these (1-3 dimensions; vertical columns '
        'over the leading dimensions, see the known finding), the preparation of the grid (direction, order, circular, hybrid) for '
        'a family of 10 layouts, and the collocator. Whole collocations on real data are bounded.')
ASSUMPTIONS = ['reals instead of floating point']

GI = 'cis.collocation.gridded_interpolation'
CI = 'cis.collocation.col_implementations'
from vc.engine import zbool  # noqa
from vc import engine as eng  # noqa


def ascending(E, name, least=2):
    ln = Int('len_' + name)
    E.assume(ln.e >= least)
    a = fresh_array(name, (ln,), 'r')
    p, q = qint('p'), qint('q')
    E.assume(forall([p, q], z3.Implies(z3.And(0 <= p, p < q, q < ln.e), a.at(p).e < a.at(q).e),
                    [z3.MultiPattern(a.at(p).e, a.at(q).e)]))
    return a, ln


def make_find(D, rows):
    @unit(UNITS, '_RegularGridInterpolator._find_indices[%d%s]' % (D, ', columns' if rows else ''),
          [GI + ':_RegularGridInterpolator._find_indices'], timeout_ms=20000)
    def u(E):
        m = M(GI)
        N = Int('n')
        E.assume(N.e >= 0)
        cs = [ascending(E, 'c%d' % d) for d in range(D)]
        pts = [fresh_array('x%d' % d, (N,), 'r') for d in range(D)]
        E.cover()
        P = m.np.vstack(pts) if not rows else list(pts)
        idx, dist, out = m._RegularGridInterpolator._find_indices(P, [c for c, _ in cs])
        j = Int('sample')
        E.assume(in_range(j, N))
        E.prove('one entry per dimension', z3.BoolVal(len(idx) == D and len(dist) == D))
        anyout = []
        for d, (c, ln) in enumerate(cs):
            x, i, w = pts[d].at(j).e, idx[d].at(j).e, lift(dist[d].at(j))
            lo, hi = c.at(0).e, c.at(ln.e - 1).e
            E.prove('a cell of the grid', z3.And(0 <= i, i + 1 < ln.e, c.at(i).e < c.at(i + 1).e))
            E.prove('the cell around the sample, the outermost beyond the edges', z3.And(
                z3.Implies(z3.And(lo <= x, x <= hi), z3.And(c.at(i).e <= x, x <= c.at(i + 1).e)),
                z3.Implies(x < lo, i == 0), z3.Implies(x > hi, i == ln.e - 2)))
            E.prove('distance in units of the cell', z3.And(z3.Not(zbool(w.isnan())), w.real() * (c.at(i + 1).e - c.at(i).e) == x - c.at(i).e))
            anyout.append(z3.Or(x < lo, x > hi))
        o = out.at(j)
        o = zbool(o) if isinstance(o, Bool) else o.e != 0
        E.prove('out of bounds iff beyond an edge', o == z3.Or(*anyout))
    return u


for _d in (1, 2, 3, 4):
    make_find(_d, False)
make_find(2, True)


def make_eval(D, trail, masked, near):
    nm = '_evaluate_nearest' if near else '_evaluate_linear'

    @unit(UNITS, '_RegularGridInterpolator.%s[%d%s%s]' % (nm, D, ', column' if trail else '', ', masked' if masked else ''),
          [GI + ':_RegularGridInterpolator.' + nm], timeout_ms=30000)
    def u(E):
        import itertools
        m = M(GI)
        N = Int('n')
        E.assume(N.e >= 1)
        ln = [Int('len%d' % d) for d in range(D + trail)]
        for x in ln:
            E.assume(x.e >= 2)
        vals = fresh_array('values', tuple(ln), 'r', masked=masked)
        idx = [fresh_array('i%d' % d, (N,), 'i') for d in range(D)]
        dist = [fresh_array('w%d' % d, (N,), 'r') for d in range(D)]
        q = qint('q')
        for d in range(D):
            E.assume(forall(q, z3.Implies(in_range(q, N), z3.And(0 <= idx[d].at(q).e, idx[d].at(q).e + 1 < ln[d].e)), [idx[d].at(q).e]))
        E.cover()
        r = getattr(m._RegularGridInterpolator, nm)(vals, idx, dist)
        j, z = Int('sample'), Int('level')
        E.assume(z3.And(in_range(j, N), in_range(z, ln[-1])))
        t = (z.e,) if trail else ()
        E.prove('one value per sample', z3.And(z3.BoolVal(r.ndim == 1 + trail), iterm(r.shape[0]) == N.e))
        w = [x.at(j).e for x in dist]
        i = [x.at(j).e for x in idx]
        if near:
            at = [z3.If(w[d] <= z3.RealVal('1/2'), i[d], i[d] + 1) for d in range(D)]
            E.prove('value of the nearer grid point', r.at(j, *t).e == vals.at(*(at + list(t))).e)
            if masked:
                E.prove('missing iff that is missing', iff(r.mask_at(j, *t), vals.mask_at(*(at + list(t)))))
            return
        want, miss = z3.RealVal(0), []
        for k in itertools.product((0, 1), repeat=D):
            f = vals.at(*([i[d] + k[d] for d in range(D)] + list(t))).e
            for d in range(D):
                f = f * (w[d] if k[d] else 1 - w[d])
            want = want + f
            if masked:
                miss.append(zbool(vals.mask_at(*([i[d] + k[d] for d in range(D)] + list(t)))))
        E.prove('weighted sum of the corners of the cell', z3.Implies(z3.Not(z3.Or(*miss)) if masked else z3.BoolVal(True), z3.And(
            z3.Not(zbool(lift(r.at(j, *t)).isnan())), r.at(j, *t).real() == want)))
        E.prove('missing iff a corner is missing', iff(r.mask_at(j, *t), z3.Or(*miss) if masked else z3.BoolVal(False)))
    return u


for _d in (1, 2, 3, 4):
    make_eval(_d, 0, True, False)
for _d in (1, 2, 3, 4):
    make_eval(_d, 0, True, True)
make_eval(2, 0, False, False)
make_eval(1, 1, False, False)
make_eval(2, 1, False, False)
make_eval(2, 1, False, True)


@unit(UNITS, '_RegularGridInterpolator._find_vertical_index', [GI + ':_RegularGridInterpolator._find_vertical_index'], timeout_ms=20000)
def u_vert(E):
    m = M(GI)
    down = E.choose('decreasing')
    c, ln = ascending(E, 'column')
    col = c[::-1] if down else c
    x = Real('x')
    E.cover()
    i, w, out = m._RegularGridInterpolator._find_vertical_index(x, col)
    i, w = lift(i), lift(w)
    a, b = col.at(i.e).e, col.at(i.e + 1).e
    lo, hi = c.at(0).e, c.at(ln.e - 1).e
    E.prove('a cell of the column', z3.And(0 <= i.e, i.e + 1 < ln.e))
    E.prove('the cell around the point', z3.Implies(z3.And(lo <= x.e, x.e <= hi), z3.And(
        z3.If(a < b, a, b) <= x.e, x.e <= z3.If(a < b, b, a))))
    E.prove('the outermost cell beyond the edges', z3.And(
        z3.Implies(x.e < lo, i.e == (ln.e - 2 if down else 0)), z3.Implies(x.e > hi, i.e == (0 if down else ln.e - 2))))
    E.prove('distance in units of the cell', z3.And(a != b, w.real() * (b - a) == x.e - a))
    E.prove('out of bounds iff beyond an edge', iff(z3.BoolVal(out) if isinstance(out, bool) else zbool(out),
                                                    z3.Or(x.e < lo, x.e > hi)))


def make_init(D):
    @unit(UNITS, '_RegularGridInterpolator[%d]' % D, [GI + ':_RegularGridInterpolator.__init__', GI + ':_RegularGridInterpolator.__call__'],
          timeout_ms=20000)
    def u(E):
        m = M(GI)
        N = Int('n')
        E.assume(N.e >= 1)
        cs = [ascending(E, 'c%d' % d) for d in range(D)]
        pts = [fresh_array('x%d' % d, (N,), 'r') for d in range(D)]
        method = E.choose('nearest') and 'nn' or 'lin'
        kind = 'i' if D == 1 and E.choose('integer data') else 'r'
        masked = D == 1 and E.choose('data with missing flags')
        keep = E.choose('extrapolate')
        vals = fresh_array('values', tuple(ln for _, ln in cs), kind, masked=masked)
        rec = []
        G = z3.Function('G', z3.IntSort(), z3.RealSort())
        Gm = z3.Function('Gm', z3.IntSort(), z3.BoolSort())

        def ev(nm):
            def f(values, indices, dist):
                use('%s: combination of the corners of the cell (proved in this property)' % nm)
                rec.append((nm, values, list(indices), list(dist)))
                return SArr((N,), lambda i: Num(G(iterm(i[0]))), 'r', lambda i: Bool(Gm(iterm(i[0]))), True)
            return f
        R = m._RegularGridInterpolator
        patch(R, '_evaluate_linear', staticmethod(ev('_evaluate_linear')))
        patch(R, '_evaluate_nearest', staticmethod(ev('_evaluate_nearest')))
        fill = Real('fill')
        E.cover()
        r = R([c for c, _ in cs], pts, method=method)
        out = r(vals, fill_value=None) if keep else r(vals, fill_value=fill)
        E.prove('method', z3.BoolVal(len(rec) == 1 and rec[0][0] == ('_evaluate_nearest' if method == 'nn' else '_evaluate_linear')))
        _, v, idx, dist = rec[0]
        ix = [Int('ix%d' % d) for d in range(D)]
        for d in range(D):
            E.assume(in_range(ix[d], cs[d][1]))
        at = [x.e for x in ix]
        E.prove('the values given', z3.And(v.at(*at).real() == vals.at(*at).real(), iff(v.mask_at(*at), vals.mask_at(*at))))
        j = Int('sample')
        E.assume(in_range(j, N))
        E.prove('one cell per dimension', z3.BoolVal(len(idx) == D and len(dist) == D))
        far = []
        for d, (c, ln) in enumerate(cs):
            x, i, w = pts[d].at(j).e, idx[d].at(j).e, lift(dist[d].at(j))
            lo, hi = c.at(0).e, c.at(ln.e - 1).e
            E.prove('the cell around the sample, the outermost beyond the edges', z3.And(0 <= i, i + 1 < ln.e,
                z3.Implies(z3.And(lo <= x, x <= hi), z3.And(c.at(i).e <= x, x <= c.at(i + 1).e)),
                z3.Implies(x < lo, i == 0), z3.Implies(x > hi, i == ln.e - 2)))
            E.prove('distance in units of the cell', w.real() * (c.at(i + 1).e - c.at(i).e) == x - c.at(i).e)
            far.append(z3.Or(x < lo, x > hi))
        E.prove('one value per sample', iterm(out.shape[0]) == N.e)
        E.prove('missing iff a grid point is missing, or outside of the grid unless extrapolated', iff(
            out.mask_at(j), Gm(j.e) if keep else z3.Or(Gm(j.e), *far)))
        E.prove('value at the sample', z3.Or(zbool(out.mask_at(j)), out.at(j).real() == G(j.e)))
    return u


for _d in (1, 2, 3):
    make_init(_d)


def make_hybrid(D, K):
    """D horizontal/time dimensions of which the first K are those of the hybrid coordinate, the level last"""
    @unit(UNITS, '_RegularGridInterpolator[%d + level over %d]' % (D, K), [GI + ':_RegularGridInterpolator.__init__',
                                                                       GI + ':_ndim_coords_from_arrays'], timeout_ms=20000)
    def u(E):
        m = M(GI)
        N = Int('n')
        E.assume(N.e >= 1)
        cs = [ascending(E, 'c%d' % d) for d in range(D)]
        pts = [fresh_array('x%d' % d, (N,), 'r') for d in range(D + 1)]
        method = E.choose('nearest') and 'nn' or 'lin'
        nl = Int('levels')
        E.assume(nl.e >= 2)
        hc = fresh_array('hybrid', tuple(ln for _, ln in cs[:K]) + (nl,), 'r')
        col = z3.Function('column', z3.IntSort(), z3.IntSort(), z3.RealSort())
        VI, VO = z3.Function('vi', z3.IntSort(), z3.IntSort()), z3.Function('vo', z3.IntSort(), z3.BoolSort())
        VW = z3.Function('vw', z3.IntSort(), z3.RealSort())
        rec = []

        def ev(nm):
            def f(values, indices, dist):
                use('%s: combination of the corners of the cell (proved in this property)' % nm)
                rec.append((nm, values, list(indices), list(dist)))
                return SArr((N, nl), lambda i: Num(col(iterm(i[0]), iterm(i[1]))), 'r')
            return f
        R = m._RegularGridInterpolator
        patch(R, '_evaluate_linear', staticmethod(ev('_evaluate_linear')))
        patch(R, '_evaluate_nearest', staticmethod(ev('_evaluate_nearest')))
        J = Int('J')
        seen = []

        def find_v(x, column):
            use('_find_vertical_index: cell of the column (proved in this property)')
            z = Int('z')
            E.assume(in_range(z, nl))
            k = lift(J0[0])
            E.prove('altitude of the sample', lift(x).real() == pts[D].at(k).e)
            E.prove('column of the sample', z3.And(iterm(column.shape[0]) == nl.e, column.at(z).real() == col(k.e, z.e)))
            return Num(VI(k.e)), Num(VW(k.e)), Bool(VO(k.e))
        patch(R, '_find_vertical_index', staticmethod(find_v))
        far0 = lambda q: z3.Or(*[z3.Or(pts[d].at(q).e < cs[d][0].at(0).e, pts[d].at(q).e > cs[d][0].at(cs[d][1].e - 1).e) for d in range(D)])

        def num(v):
            return z3.If(zbool(v), z3.IntVal(1), z3.IntVal(0)) if isinstance(v, Bool) else v.e
        J0 = [None]
        j = Int('sample')

        def inv(E, L, k):
            s = L.self
            k = iterm(k)
            J0[0] = Num(k)
            a = lift(s.indices[-1].at(j.e)).e, lift(s.norm_distances[-1].at(j.e)).real(), zbool(s.out_of_bounds.at(j.e))
            return [('cells of the samples so far', z3.Implies(j.e < k, z3.And(
                a[0] == VI(j.e), a[1] == VW(j.e), a[2] == z3.Or(far0(j.e), VO(j.e))))),
                ('the rest is as before', z3.Implies(j.e >= k, a[2] == far0(j.e)))]

        def hv(E, L, k):
            s = L.self
            out = []
            for a in (s.indices[-1], s.norm_distances[-1], s.out_of_bounds):
                out += havoc_array(a)
            return out
        E.loops[(GI, '_RegularGridInterpolator.__init__', 1)] = LoopSpec(inv, havoc_obj=hv)
        E.assume(in_range(j, N))
        E.cover()
        r = R([c for c, _ in cs], pts, hybrid_coord=hc, hybrid_dims=tuple(range(K + 1)) if K == D else tuple(range(K)) + (D,), method=method)
        E.prove('columns of the hybrid coordinate', z3.BoolVal(len(rec) == 1 and rec[0][1] is hc and rec[0][0] == (
            '_evaluate_nearest' if method == 'nn' else '_evaluate_linear') and len(rec[0][2]) == K))
        for d in range(K):
            E.prove('at the cell of the sample', z3.And(rec[0][2][d].at(j).e == r.indices[d].at(j).e,
                                                        rec[0][3][d].at(j).e == r.norm_distances[d].at(j).e))
        E.prove('one cell per dimension', z3.BoolVal(len(r.indices) == D + 1 and len(r.norm_distances) == D + 1))
        for d, (c, ln) in enumerate(cs):
            x, i, w = pts[d].at(j).e, r.indices[d].at(j).e, lift(r.norm_distances[d].at(j))
            lo, hi = c.at(0).e, c.at(ln.e - 1).e
            E.prove('the cell around the sample, the outermost beyond the edges', z3.And(0 <= i, i + 1 < ln.e,
                z3.Implies(z3.And(lo <= x, x <= hi), z3.And(c.at(i).e <= x, x <= c.at(i + 1).e)),
                z3.Implies(x < lo, i == 0), z3.Implies(x > hi, i == ln.e - 2)))
            E.prove('distance in units of the cell', w.real() * (c.at(i + 1).e - c.at(i).e) == x - c.at(i).e)
        E.prove('cell of the column', z3.And(r.indices[D].at(j).e == VI(j.e), r.norm_distances[D].at(j).real() == VW(j.e)))
        E.prove('out of bounds', zbool(r.out_of_bounds.at(j)) == z3.Or(far0(j.e), VO(j.e)))
    return u


make_hybrid(1, 1)
make_hybrid(2, 2)
make_hybrid(2, 1)


@unit(UNITS, 'GriddedUngriddedCollocator.collocate', [CI + ':GriddedUngriddedCollocator.collocate'], timeout_ms=20000)
def u_collocate(E):
    m = M(CI)
    nv = E.choose('two variables') and 2 or 1
    names, units_ = E.choose('names given'), E.choose('units given')
    miss, ext, kern = E.choose('missing samples stay missing'), E.choose('extrapolate'), E.choose('nn') and 'nn' or 'lin'
    log = []

    class Var(object):
        _vc_symbolic = True

        def __init__(self, k):
            self.k, self.var_name, self.long_name, self.units = k, 'v%d' % k, 'long %d' % k, 'u%d' % k
            self.standard_name = 's%d' % k

    class Values(object):
        _vc_symbolic = True

        def __init__(self, k):
            self.k, self.shape = k, ('shape', k)
    cl = object()

    class Points(object):
        _vc_symbolic = True
        size = 7

        def coords(self):
            return cl
    pts = Points()
    vs = [Var(k) for k in range(nv)]
    fill = Real('fill')

    class Interp(object):
        _vc_symbolic = True

        def __init__(self, data, points, method, missing=False):
            use('GriddedUngriddedInterpolator: values of the data at the points (proved in this property)')
            log.append(('prepare', data, points, method, missing))

        def __call__(self, data, fill_value=None, extrapolate=False):
            log.append(('values', data, fill_value, extrapolate))
            return Values(data.k)
    patch(M(GI), 'GriddedUngriddedInterpolator', Interp)

    def fix(coords, data):
        use('_fix_longitude_range: longitudes in the convention of the sample (C01)')
        log.append(('longitudes', coords, data))
    patch(m, '_fix_longitude_range', fix)

    class Meta(object):
        def __init__(self, name='', **k):
            self.__dict__.update(k, name=name)
    patch(m, 'Metadata', Meta)
    patch(m, 'set_standard_name_if_valid', lambda md, n: md.__dict__.update(standard_name=n))
    patch(m, 'UngriddedData', lambda v, md, c: ('data', v, md, c))
    patch(m, 'UngriddedDataList', list)
    kw = dict(fill_value=fill, missing_data_for_missing_sample=miss, extrapolate=ext)
    if names:
        kw.update(var_name='name', var_long_name='long')
    if units_:
        kw['var_units'] = 'unit'
    E.cover()
    c = m.GriddedUngriddedCollocator(**kw)
    out = c.collocate(pts, vs if nv > 1 else vs[0], None, kern)
    E.prove('one output per variable, in order', z3.BoolVal(len(out) == nv and [o[1].k for o in out] == list(range(nv))))
    prep = [e for e in log if e[0] == 'prepare']
    E.prove('prepared for the points', z3.BoolVal(len(prep) >= 1 and all(p[2] is pts and p[3] == kern and p[4] is miss for p in prep)))
    vals = [e for e in log if e[0] == 'values']
    E.prove('values of the variables', z3.And(z3.BoolVal([e[1] for e in vals] == vs and all(e[3] is ext for e in vals)),
                                                *[lift(e[2]).real() == fill.e for e in vals]))
    first = {}
    for n, e in enumerate(log):
        first.setdefault((e[0], id(e[1] if e[0] != 'longitudes' else e[2])), n)
    E.prove('longitudes are in one convention before', z3.BoolVal(all(
        first.get(('longitudes', id(v)), 99) < first[('values', id(v))] for v in vs) and first[('longitudes', id(pts))] < log.index(prep[0])
        and all(e[1] is cl for e in log if e[0] == 'longitudes')))
    for k, o in enumerate(out):
        md = o[2]
        E.prove('coordinates of the points', z3.BoolVal(o[3] is cl))
        E.prove('name and units', z3.BoolVal(md.name == ('name' if names else 'v%d' % k) and md.long_name == (
            'long' if names else 'long %d' % k) and md.units == ('unit' if units_ else 'u%d' % k)))
        E.prove('shape and missing value', z3.And(z3.BoolVal(md.shape == ('shape', k)), lift(md.missing_value).real() == fill.e))


class FUnits(object):
    def __init__(self, modulus):
        self.modulus = modulus


class FCoord(object):
    _vc_symbolic = True
    dtype = float

    def __init__(self, name, points, circular=False):
        self.nm, self.points, self.circular = name, points, circular
        self.units = FUnits(360. if name == 'longitude' else None)
        self.data_flattened = points
        self.shape, self.size = points.shape, points.size

    def name(self):
        return self.nm


class FCube(object):
    """gridded data through the contract of a cube: dimension coordinates, one coordinate over several dimensions"""
    _vc_symbolic = True

    def __init__(self, data, dims, vert=None, over=None, alt=None):
        self.data, self.dims, self.vert, self.over, self.alt = data, list(dims), vert, over, alt
        self.aux_factories = []
        if vert is not None:
            class F(object):
                sigma = 'sigma'
            self.aux_factories = [F()]
        self.shape, self.ndim = data.shape, data.ndim

    def copy(self):
        return FCube(self.data, self.dims, self.vert, self.over, self.alt)

    def transpose(self, order):
        order = list(order)
        self.data = self.data.transpose(*order)
        self.shape = self.data.shape
        self.dims = [self.dims[o] for o in order]

    def coords(self, name=None, dim_coords=None, standard_name=None):
        name = name or standard_name
        if name is None:
            expect(dim_coords is True)
            return list(self.dims)
        r = [c for c in self.dims if c.nm == name] if dim_coords is not False else []
        if name == 'altitude' and self.alt is not None and dim_coords is not True:
            r.append(self.coord('altitude'))
        return r

    def coord(self, name):
        if name == 'altitude' and self.alt is not None:
            # points over its dimensions, in the present order of the dimensions
            ds = [c.nm for c in self.dims if c.nm in self.over]
            a = self.alt.transpose(*[self.over.index(x) for x in ds])
            r = FCoord('altitude', a)
            return r
        return [c for c in self.dims if c.nm == name][0]

    def coord_dims(self, c):
        if c == 'sigma':
            return (self.dims.index(self.vert),)
        if c == 'altitude' or isinstance(c, FCoord) and c.nm == 'altitude' and self.alt is not None:
            return tuple(i for i, x in enumerate(self.dims) if x.nm in self.over)
        return (self.dims.index(c),)


class FSample(object):
    _vc_symbolic = True

    def __init__(self, cs, data=None):
        self.cs = cs
        if data is not None:
            self.data = data

    def coords(self, name=None, standard_name=None, **k):
        return [self.cs[x] for x in (name, standard_name) if x in self.cs]

    def coord(self, name=None, standard_name=None):
        return self.cs[name or standard_name]


def make_interp(dims, hyb=None, order=None):
    """dims: (name, decreasing, circular) in the order of the data"""
    lab = ', '.join('%s%s%s' % (n, ' down' if d else '', ' circular' if c else '') for n, d, c in dims)

    @unit(UNITS, 'GriddedUngriddedInterpolator[%s%s]' % (lab, '; over ' + '/'.join(hyb) if hyb else ''),
          [GI + ':GriddedUngriddedInterpolator.__init__', GI + ':GriddedUngriddedInterpolator.__call__',
           GI + ':GriddedUngriddedInterpolator._account_for_inverted', GI + ':extend_circular_coord', GI + ':extend_circular_data'],
          timeout_ms=20000)
    def u(E):
        m = M(GI)
        D = len(dims)
        N = Int('n')
        E.assume(N.e >= 0)
        cs, lens, low = [], [], Real('turn')
        miss = E.choose('missing samples stay missing')
        kind = E.choose('sample with values') and (E.choose('sample with missing flags') and 'mask' or 'plain') or 'coords'
        for n, down, circ in dims:
            if n == 'level':
                ln = Int('len_' + n)
                E.assume(ln.e >= 2)
                cs.append(FCoord(n, fresh_array(n, (ln,), 'r')))
                lens.append(ln)
                continue
            a, ln = ascending(E, n)
            if circ:
                E.assume(a.at(ln.e - 1).e < a.at(0).e + 360)
                E.assume(z3.And(low.e <= a.at(0).e, a.at(ln.e - 1).e < low.e + 360))
            c = FCoord(n, a[::-1] if down else a, circ)
            c.asc = a
            cs.append(c)
            lens.append(ln)
        data = fresh_array('data', tuple(lens), 'r', masked=E.choose('data with missing flags'))
        alt = None
        if hyb:
            ds = [i for i, d in enumerate(dims) if d[0] in hyb]
            alt = fresh_array('altitude', tuple(lens[i] for i in ds), 'r')
        cube = FCube(data, cs, [c for c in cs if c.nm == 'level'][0] if hyb else None, [d[0] for d in dims if d[0] in hyb] if hyb else None, alt)
        sc = {}
        for n in [d[0] for d in dims if d[0] != 'level'] + (['altitude'] if hyb else []) + ['other']:
            sc[n] = FCoord(n, fresh_array('sample_' + n, (N,), 'r'))
        q = qint('q')
        for n, down, circ in dims:
            if circ:
                E.assume(forall(q, z3.Implies(in_range(q, N), z3.And(low.e <= sc[n].points.at(q).e, sc[n].points.at(q).e < low.e + 360)),
                                [sc[n].points.at(q).e]))
        sd = None if kind == 'coords' else fresh_array('sample', (N,), 'r', masked=kind == 'mask')
        sample = FSample(sc, sd)
        rec = []
        R = [z3.RealSort()] * D
        F, Fm = z3.Function('F', *(R + [z3.RealSort()])), z3.Function('Fmissing', *(R + [z3.BoolSort()]))

        class Interp(object):
            _vc_symbolic = True

            def __init__(self, coords, points, hybrid_coord=None, hybrid_dims=None, method='lin'):
                self.a = dict(coords=list(coords), points=list(points), hc=hybrid_coord, hd=hybrid_dims, method=method)
                rec.append(self)

            def __call__(self, values, fill_value=np_nan):
                self.values, self.fill = values, fill_value
                ps = [asarr(p) for p in self.a['points']]
                return SArr(ps[0].shape, lambda i: Num(F(*[p.at(*i).real() for p in ps])), 'r',
                            lambda i: Bool(Fm(*[p.at(*i).real() for p in ps])), True)
        patch(m, '_RegularGridInterpolator', Interp)
        use('_RegularGridInterpolator: value at a point of the cell around it (proved in this property)')
        fill, ext = Real('fill'), E.choose('extrapolate')
        E.cover()
        g = m.GriddedUngriddedInterpolator(cube, sample, 'lin', miss)
        out = g(FCube(data, cs), fill_value=fill, extrapolate=ext)
        r = rec[0]
        E.prove('method', z3.BoolVal(len(rec) == 1 and r.a['method'] == 'lin'))
        E.prove('fill value unless points outside are extrapolated', z3.BoolVal(r.fill is None if ext else r.fill is fill))
        # where the dimensions ended up: by the identity of their lengths and values, the level last
        gd = [i for i in range(D) if dims[i][0] != 'level']
        if hyb:
            gd_all = gd + [i for i in range(D) if dims[i][0] == 'level']
        else:
            gd_all = gd
        E.prove('one array of coordinates per dimension', z3.BoolVal(len(r.a['coords']) == len(gd) and len(r.a['points']) == D))
        ix = [Int('ix%d' % i) for i in range(D)]
        org, v = {}, r.values
        for p, i in enumerate(gd_all):
            n, down, circ = dims[i]
            L = lens[i].e + (1 if circ else 0)
            E.assume(in_range(ix[p], Num(L)))
            w = z3.If(ix[p].e == lens[i].e, 0, ix[p].e) if circ else ix[p].e
            org[i] = (lens[i].e - 1 - w) if down else w
            if n == 'level':
                continue
            gp = r.a['coords'][p]
            E.prove('number of points of %s' % n, iterm(gp.shape[0]) == L)
            E.prove('points of %s' % n, gp.at(ix[p]).real() == cs[i].points.at(org[i]).real() + (
                z3.If(ix[p].e == lens[i].e, z3.RealVal(360), z3.RealVal(0)) if circ else 0))
            E.prove('%s ascends' % n, z3.Implies(ix[p].e + 1 < L, gp.at(ix[p]).real() < gp.at(ix[p] + 1).real()))
        E.prove('shape of the values', z3.And(z3.BoolVal(v.ndim == D), *[
            iterm(v.shape[p]) == lens[i].e + (1 if dims[i][2] else 0) for p, i in enumerate(gd_all)]))
        at, src = [x.e for x in ix], [org[i] for i in range(D)]
        E.prove('values of the grid points', z3.Or(zbool(v.mask_at(*at)), v.at(*at).real() == data.at(*src).real()))
        E.prove('missing flags of the grid points', iff(v.mask_at(*at), data.mask_at(*src)))
        if hyb:
            ds = [i for i, d in enumerate(dims) if d[0] in hyb]
            pos = [gd_all.index(i) for i in ds]
            E.prove('dimensions of the vertical coordinate', z3.BoolVal(sorted(pos) == list(r.a['hd'])))
            E.prove('vertical coordinate at the grid points', r.a['hc'].at(*[at[p] for p in sorted(pos)]).real() == alt.at(
                *[org[i] for i in ds]).real())
        j = Int('sample')
        E.assume(in_range(j, N))
        xs = []
        for p, i in enumerate(gd_all):
            n, down, circ = dims[i]
            x = sc['altitude' if n == 'level' else n].points.at(j).e
            if circ:
                first = cs[i].asc.at(0).e
                y = z3.If(x < first, x + 360, x)
                E.prove('longitude of the sample within the turn of the grid', z3.And(first <= y, y <= first + 360))
                x = y
            xs.append(x)
        skip = zbool(sd.mask_at(j)) if kind == 'mask' and miss else z3.BoolVal(False)
        E.prove('one value per sample', iterm(out.shape[0]) == N.e)
        E.prove('missing iff there is no value, or the sample is missing and is to stay missing', iff(
            out.mask_at(j), z3.Or(skip, Fm(*xs))))
        E.prove('value at the sample', z3.Or(skip, Fm(*xs), out.at(j).real() == F(*xs)))
    return u


from numpy import nan as np_nan  # noqa
LA, LO, TI = 'latitude', 'longitude', 'time'
make_interp([(LA, False, False)])
make_interp([(LA, True, False)])
make_interp([(LO, False, True)])
make_interp([(LO, True, True)])
make_interp([(LA, False, False), (LO, False, True)])
make_interp([(LO, True, False), (LA, True, False)])
make_interp([(LO, True, True), (LA, False, False)])
make_interp([(TI, False, False), (LA, True, False), (LO, True, True)])
make_interp([('level', False, False), (LA, True, False), (LO, False, True)], [LA, LO, 'level'])
make_interp([(LO, True, True), ('level', False, False), (TI, False, False)], [LO, 'level'])


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'random grids (direction, order, circular, hybrid, masks) and sample points against a direct interpolation'
BOUNDED_FUNCTIONS = ['UngriddedData.sampled_from', 'GriddedUngriddedCollocator', 'GriddedUngriddedInterpolator']
LIMIT_S = 45


def axis(rng, name):
    n = rng.choice([2, 2, 3, 4, 5])
    circ = False
    if name == 'longitude':
        if rng.random() < .6:
            circ = True
            n = rng.choice([4, 5, 6, 8, 3])
            base = rng.choice([0., -180., 2.5, -177.5, 20.])
            p = [base + 360. / n * i for i in range(n)]
        else:
            p = C.grid_points(rng, *rng.choice([(0., 170.), (5., 60.)]), n)
    elif name == 'latitude':
        p = C.grid_points(rng, -80., 80., n)
    elif name == 'altitude':
        p = C.grid_points(rng, 0., 5000., n)
    else:
        p = [149751. + x for x in C.grid_points(rng, 0., 20., n)]
    if rng.random() < .4:
        p = p[::-1]
    return dict(name=name, points=p, circular=circ)


def cases(rng, tier, scale):
    for t in range(420 * scale):
        hybrid = rng.random() < .25
        names = rng.sample(['time', 'latitude', 'longitude', 'altitude'], rng.choice([1, 2, 2, 2, 3, 3, 4]))
        if hybrid:
            names = rng.choice([['latitude', 'longitude'], ['longitude', 'latitude'], ['time', 'latitude', 'longitude'],
                                ['latitude', 'time', 'longitude'], ['latitude']])
        dims = [axis(rng, n) for n in names]
        hyb = None
        if hybrid:
            nz = rng.choice([2, 3, 4])
            lev = sorted(rng.sample(range(1, 40), nz))
            hz = rng.randrange(len(dims) + 1)
            down = rng.random() < .4
            hd = [C.q(100. * x) for x in lev]
            sg = [C.q(rng.uniform(0, 1)) for _ in lev]
            if rng.random() < .5:
                sg = sorted(sg)[::-1]
            if down:
                hd, sg = hd[::-1], sg[::-1]
            over = [n for n in names if n != 'time']
            sz = 1
            for d in dims:
                if d['name'] in over:
                    sz *= len(d['points'])
            hyb = dict(pos=hz, delta=hd, sigma=sg, over=over, orog=[C.q(rng.uniform(0, 80)) for _ in range(sz)])
        n = rng.choice([1, 2, 5, 9])
        base = rng.choice([0., -180.])
        coords = {}
        for x in set(names) | {'latitude', 'longitude'} | ({'altitude'} if hybrid else set()):
            ax = [d for d in dims if d['name'] == x]
            v = []
            for i in range(n):
                if ax:
                    p = sorted(ax[0]['points'])
                    lo, hi = p[0], p[-1]
                    r = rng.random()
                    y = rng.choice(p) if r < .2 else C.q(rng.uniform(lo, hi), 16.) if r < .85 else \
                        C.q(rng.uniform(lo - .3 * (hi - lo), hi + .3 * (hi - lo)))
                else:
                    y = C.q(rng.uniform(0, 80)) if x != 'altitude' else C.q(rng.uniform(0, 4200))
                if x == 'latitude':
                    y = min(90., max(-90., y))
                if x == 'longitude':
                    y = base + C.mod360((y if rng.random() < .8 or not (ax and ax[0]['circular']) else rng.uniform(0, 360) // 1) - base)
                v.append(y)
            coords[x] = v
        size = 1
        for d in dims:
            size *= len(d['points'])
        if hybrid:
            size *= nz
        nv = rng.choice([1, 1, 1, 2])
        yield dict(dims=dims, hyb=hyb, coords=coords, smask=C.maybe_mask(rng, n, .4), plain=rng.random() < .2,
                   vs=[dict(data=[C.q(rng.uniform(-50, 50)) for _ in range(size)], mask=C.maybe_mask(rng, size, .3, .15),
                            name='v%d' % q, units=rng.choice(['K', 'm'])) for q in range(nv)],
                   miss=rng.choice([True, True, False]), how=rng.choice(['lin', 'lin', 'nn', '']), bare=rng.random() < .25,
                   extrapolate=rng.random() < .25, var_name=rng.choice(['', 'out']), fill=rng.choice([None, -9.]))


def bracket(x, p):
    """(lower index, weight) of the ascending points p; weight outside of [0, 1] beyond the edges"""
    i = 0
    while i < len(p) - 2 and x > p[i + 1]:
        i += 1
    return i, (x - p[i]) / (p[i + 1] - p[i])


def build(c):
    import numpy as np
    from cis.data_io.gridded_data import GriddedData, GriddedDataList
    gs = []
    for v in c['vs']:
        dims = list(c['dims'])
        h = c['hyb']
        if h:
            dims.insert(h['pos'], dict(name='model_level_number', points=[float(i + 1) for i in range(len(h['delta']))]))
        g = C.cube(dict(dims=dims, data=v['data'], mask=v['mask'], name=v['name'], units=v['units']))
        if h:
            from iris.coords import AuxCoord
            from iris.aux_factory import HybridHeightFactory
            names = [d['name'] for d in dims]
            a = AuxCoord(np.array(h['delta']), long_name='level_height', units='m')
            s = AuxCoord(np.array(h['sigma']), long_name='sigma', units='1')
            o = AuxCoord(np.array(h['orog']).reshape([len(d['points']) for d in dims if d['name'] in h['over']]),
                         standard_name='surface_altitude', units='m')
            g.add_aux_coord(a, h['pos'])
            g.add_aux_coord(s, h['pos'])
            g.add_aux_coord(o, tuple(names.index(x) for x in names if x in h['over']))
            g.add_aux_factory(HybridHeightFactory(a, s, o))
        gs.append(g)
    return (gs[0] if len(gs) == 1 else GriddedDataList(gs)), dims


def check(c):
    known = None
    import numpy as np
    data, dims = build(c)
    n = len(c['coords']['latitude'])
    s = C.ungc(dict(coords=c['coords'])) if c['bare'] else \
        C.ung(dict(coords=c['coords'], vals=[1.] * n, mask=None if c['plain'] else c['smask']))
    kw = dict(missing_data_for_missing_sample=c['miss'])
    if c['extrapolate']:
        kw['extrapolate'] = True
    if c['var_name']:
        kw['var_name'] = c['var_name']
    if c['fill'] is not None:
        kw['fill_value'] = c['fill']
    out = s.sampled_from(data, how=c['how'], **kw)
    if len(out) != len(c['vs']):
        return '%d outputs for %d variables' % (len(out), len(c['vs']))
    for v, o in zip(c['vs'], out):
        got = C.vals(o.data)
        if len(got) != n:
            return '%d values for %d points' % (len(got), n)
        if o.var_name != (c['var_name'] or v['name']) or str(o.units) != v['units']:
            return 'output %r in %r' % (o.var_name, o.units)
        arr = np.ma.array(np.array(v['data']), mask=v['mask'] if v['mask'] else False).reshape([len(d['points']) for d in dims])
        for j in range(n):
            if c['miss'] and not c['bare'] and not c['plain'] and c['smask'] and c['smask'][j]:
                if got[j] is not None:
                    return 'sample %d is missing, got %r' % (j, got[j])
                continue
            want, maybe, outside, tie = expected(c, dims, v, arr, j, False)
            if want == 'skip' or tie and c['how'] == 'nn' or maybe and got[j] is None:
                continue
            if outside and not c['extrapolate']:
                want = None
            if want is None and got[j] is None or want is not None and C.close(got[j], want, 1e-7):
                continue
            msg = 'sample %d%s: got %r, expected %r' % (j, ' is outside of the grid' if outside else '', got[j], want)
            if trailing(c):
                w2, maybe, outside, tie = expected(c, dims, v, arr, j, True)
                if w2 == 'skip' or tie and c['how'] == 'nn' or maybe and got[j] is None or (
                        got[j] is None if w2 is None or outside and not c['extrapolate'] else C.close(got[j], w2, 1e-7)):
                    known = msg, 'hybrid-column-weights-of-leading-dimensions'
                    continue
            return msg
    return known


def trailing(c):
    """the hybrid coordinate is not defined over the leading horizontal dimensions"""
    if not c['hyb']:
        return False
    base = [d['name'] for d in c['dims']]
    return base[:len(c['hyb']['over'])] != [n for n in base if n in c['hyb']['over']]


def expected(c, dims, v, arr, j, leading):
    """value at sample j (None: missing), whether missing grid points without weight may matter, whether outside of the grid,
    whether halfway between grid points. leading: columns weighted as for the leading dimensions (known finding)"""
    import itertools
    import numpy as np
    h, near = c['hyb'], c['how'] == 'nn'
    sel, lin, outside, tie = {}, {}, False, False

    def pick(s, n):
        return [(s[0][0] if s[1][1] <= .5 else s[1][0], 1.)] if near else s
    for d in dims:
        if d['name'] not in c['coords']:
            continue
        p = list(d['points'])
        idx = list(range(len(p)))
        x = c['coords'][d['name']][j]
        if p[1] < p[0]:
            p, idx = p[::-1], idx[::-1]
        if d['circular']:
            p, idx = p + [p[0] + 360.], idx + [idx[0]]
            x = p[0] + C.mod360(x - p[0])
        i, w = bracket(x, p)
        outside = outside or not p[0] <= x <= p[-1]
        tie = tie or abs(w - .5) < 1e-9
        lin[d['name']] = [(idx[i], 1 - w), (idx[i + 1], w)]
        sel[d['name']] = pick(lin[d['name']], d['name'])
    if h:
        over = [d for d in dims if d['name'] in h['over']]
        og = np.array(h['orog']).reshape([len(d['points']) for d in over])
        cell = dict(sel)
        if leading:
            base = [d['name'] for d in c['dims']]
            for a, b in zip(over, base):
                s, w = lin[a['name']], lin[b]
                if abs(s[0][1]) < 1e-9 or abs(s[1][1]) < 1e-9 or abs(w[0][1]) < 1e-9 or abs(w[1][1]) < 1e-9:
                    return 'skip', False, False, False     # either of two cells
                cell[a['name']] = pick([(s[0][0], w[0][1]), (s[1][0], w[1][1])], '')
        col = []
        for z in range(len(h['delta'])):
            t = 0.
            for k in itertools.product(*[cell[d['name']] for d in over]):
                w = 1.
                for q in k:
                    w *= q[1]
                t += w * (h['delta'][z] + h['sigma'][z] * og[tuple(q[0] for q in k)])
            col.append(t)
        idx = list(range(len(col)))
        if col[1] < col[0]:
            col, idx = col[::-1], idx[::-1]
        if not all(a < b for a, b in zip(col, col[1:])):
            return 'skip', False, False, False
        x = c['coords']['altitude'][j]
        if min(abs(x - col[0]), abs(x - col[-1])) < 1e-6:
            return 'skip', False, False, False
        i, w = bracket(x, col)
        outside = outside or not col[0] <= x <= col[-1]
        tie = tie or abs(w - .5) < 1e-9
        sel['model_level_number'] = pick([(idx[i], 1 - w), (idx[i + 1], w)], '')
    # on a node either cell may be used: missing grid points without weight may matter
    want, maybe = 0., bool(v['mask']) and any(abs(q[1]) < 1e-9 for x in sel.values() for q in x)
    for k in itertools.product(*[sel[d['name']] for d in dims]):
        w = 1.
        for q in k:
            w *= q[1]
        e = arr[tuple(q[0] for q in k)]
        if e is np.ma.masked:
            if abs(w) > 1e-12:
                want = None
                break
            maybe = True
        else:
            want += w * float(e)
    return want, maybe, outside, tie


def nontrivial(c):
    return len(c['coords']['latitude']) > 1
