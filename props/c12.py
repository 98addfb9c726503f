"""C12 collocation from a grid onto a grid"""
import itertools
from vc.api import *
from vc import arr
from props import common as C

ID = 'C12'
LEVEL = 'proof'
PROPERTY = dict(
    title='Collocating gridded data onto a grid gives its values at the sample grid',
    statement='Collocating gridded data onto a gridded sample gives data on the coordinates which both have, at the points of the '
              'sample and in the order of its dimensions, followed by the other dimensions of the data, which are kept. Every '
              'value is the linear (lin, the default) or nearest (nn) interpolation, along each common coordinate, of the data '
              'around the point; it is missing outside the grid of the data (no extrapolation) and where a data value it is '
              'made of is missing. If missing samples are to stay missing (the default) and all dimensions of the sample are '
              'also in the data, all values at a missing sample are missing. Scalar coordinates of the sample are used as well. '
              'Longitudes count modulo 360. Every variable of a list is collocated, in order; the sample is not changed.',
    over=['inputs'],
    text='any number, order, direction and points of the dimensions on both sides, any masks',
    why='Tests use the same few orders of the dimensions; a mix-up of orders, or of the mask of the sample with the other '
        'dimensions, only shows for other layouts.',
    files=['cis/collocation/col_implementations.py', 'cis/data_io/gridded_data.py', 'cis/utils.py'],
    mechanism=[('output grid and mask', 'cis/collocation/col_implementations.py: GriddedCollocator'),
               ('entry point', 'cis/data_io/gridded_data.py: GriddedData.sampled_from')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole collocations bounded'
NOTE = ('Proved for grids of up to three dimensions in every order, of any sizes, with the interpolation of iris as a trusted contract; whole '
        'collocations (with the interpolation) are checked bounded.')
ASSUMPTIONS = ['iris: Cube.interpolate gives the interpolated values with the dimensions of the data (checked bounded)']
CI = 'cis.collocation.col_implementations'
GD = 'cis.data_io.gridded_data'


class Out(object):
    """result of iris interpolation by its contract"""
    _vc_symbolic = True

    def __init__(self, dims, data):
        self.dims, self.data = list(dims), data

    @property
    def dim_coords(self):
        return tuple(self.dims)

    def transpose(self, order):
        use('Cube.transpose: reorders the dimensions')
        order = [iterm_int(x) for x in order]
        expect(sorted(order) == list(range(len(self.dims))))
        self.dims = [self.dims[i] for i in order]
        self.data = self.data.transpose(order)


class OutList(list):
    """list of cubes: as GriddedDataList, the coordinates are those of the first, transposing does all"""
    @property
    def dim_coords(self):
        return self[0].dim_coords

    def transpose(self, order):
        for x in self:
            x.transpose(order)


def iterm_int(x):
    return int(x) if isinstance(x, int) else conc(x)


def make_coll(D, S, extra):
    """D dimensions of the data, S of them in the sample, and a dimension of the sample which is not in the data"""
    @unit(UNITS, 'GriddedCollocator.collocate [%d of %d dimensions%s]' % (S, D, ' and another' if extra else ''),
          [CI + ':GriddedCollocator.collocate', CI + ':GriddedCollocator._make_output_mask',
           CI + ':GriddedCollocator._iris_interpolate', CI + ':GriddedCollocator._check_for_valid_kernel',
           CI + ':GriddedCollocator.__init__', 'cis.utils:apply_mask_to_numpy_array'], timeout_ms=20000, max_paths=4000)
    def u(E):
        import iris.coords
        import iris.cube
        import iris.analysis
        m = M(CI)
        log = []

        class Coord(object):
            _vc_symbolic = True

            def __init__(self, name, n, dim=True):
                self._name, self.n, self.dim, self.standard_name = name, n, dim, name
                self.points = fresh_array('p_' + name, (n,), 'r')

            def name(self):
                return self._name

            def _vc_isinstance(self, t):
                ts = t if isinstance(t, tuple) else (t,)
                return iris.coords.Coord in ts or (iris.coords.DimCoord if self.dim else iris.coords.AuxCoord) in ts
        names = ['a', 'b', 'c'][:D]
        dsize = [Int('d%d' % i) for i in range(D)]
        dcs = [Coord(n, k) for n, k in zip(names, dsize)]
        orders = list(itertools.permutations(names, S))
        if extra:
            orders = [o[:i] + ('e',) + o[i:] for o in orders for i in range(S + 1)]
        for order in orders:
            if order is orders[-1] or E.choose('sample %r' % (order,)):
                break
        scs = [Coord(n, Int('s_' + n)) for n in order]
        E.assume(z3.And(*[c.n.e >= 1 for c in dcs + scs]))
        left = [n for n in names if n not in order]
        scalar = None
        if left and S and E.choose('scalar coordinate in the sample'):
            scalar = Coord(left[0], lift(1), E.choose('scalar DimCoord'))
        masked, miss = E.choose('masked sample'), E.choose('missing samples stay missing')
        sdata = fresh_array('sample', tuple(c.n for c in scs), 'r', masked=masked)

        class Sample(object):
            _vc_symbolic = True
            data = sdata
            dim_coords = tuple(scs)

            def coords(self, name=None, dim_coords=None, **k):
                expect(not k)
                cs = scs + ([scalar] if scalar is not None and not dim_coords else [])
                return [c for c in cs if name is None or c.name() == name]
        sample = Sample()

        class Cube(object):
            _vc_symbolic = True

            def __init__(self, data, dim_coords_and_dims=(), **k):
                expect(not k)
                cd = sorted(dim_coords_and_dims, key=lambda t: iterm_int(t[1]))
                E.prove('a grid', z3.And(z3.BoolVal([iterm_int(d) for _, d in cd] == list(range(data.ndim)) and all(c.dim for c, _ in cd)),
                                         *[iterm(s) == iterm(c.n) for s, (c, _) in zip(data.shape, cd)]))
                self.dim_coords = tuple(c for c, _ in cd)

        def from_coord(c):
            use('DimCoord.from_coord: the same coordinate')
            expect(conc(c.n) == 1)
            r = Coord(c.name(), c.n)
            r.points = c.points
            return r
        patch(iris.cube, 'Cube', Cube)
        patch(iris.coords.DimCoord, 'from_coord', from_coord)
        nv = 2 if (D == 1 or order is orders[0]) and E.choose('list') else 1
        mres = E.choose('masked result') or None
        res = []

        class Data(object):
            _vc_symbolic = True

            def coords(self, name=None, dim_coords=None):
                expect(name is None and dim_coords is True)
                return list(dcs)

            def interpolate(self, pairs, scheme):
                use('Cube.interpolate: interpolated at the points of the coordinates, dimensions as in the data')
                log.append((list(pairs), scheme))
                mine = dict((c.name(), c) for c in scs + ([scalar] if scalar else []))
                dims = [mine.get(c.name(), c) for c in dcs]
                for k in range(nv):
                    a = fresh_array('interpolated%d' % k, tuple(c.n for c in dims), 'r', masked=mres)
                    res.append((dims, a))
                outs = OutList(Out(dims, a.copy()) for dims, a in res)
                return outs if nv > 1 else outs[0]
        data = Data()

        def fix(coords, d):
            use('_fix_longitude_range: longitudes in the convention of the sample (C01)')
            log.append(('longitude', list(coords), d))
        patch(m, '_fix_longitude_range', fix)
        patch(m, 'make_from_cube', lambda c: c)

        class L(list):
            pass
        patch(m, 'GriddedDataList', L)
        nn = D == 1 and E.choose('nn')
        k = m.gridded_gridded_nn() if nn else m.gridded_gridded_li()
        E.prove('the scheme of the kernel', z3.BoolVal(k.interpolater is (iris.analysis.Nearest if nn else iris.analysis.Linear)))
        k.interpolater = lambda **kw: ('scheme', kw)
        E.cover()
        col = m.GriddedCollocator(missing_data_for_missing_sample=miss)
        r = col.collocate(sample, data, None, k)
        E.prove('longitudes are put in the convention of the sample first', z3.BoolVal(
            len(log) == 2 and log[0][0] == 'longitude' and log[0][2] is data and set(log[0][1]) >= set(scs)))
        pairs, scheme = log[1]
        E.prove('no extrapolation', z3.BoolVal(scheme == ('scheme', dict(extrapolation_mode='mask'))))
        common = [c for c in scs if c.name() in names] + ([scalar] if scalar else [])
        E.prove('at the coordinates which both have', z3.BoolVal(
            sorted(n for n, _ in pairs) == sorted(c.name() for c in common)))
        for c in common:
            p = [q for n, q in pairs if n == c.name()][0]
            i = Int('i')
            E.prove('at the points of the sample', z3.And(iterm(p.shape[0]) == iterm(c.n), z3.Implies(in_range(i, c.n), p.at(i).real() == c.points.at(i).real())))
        others = [c for c in dcs if c.name() not in [x.name() for x in common]]
        outs = list(r) if nv > 1 else list(r)
        E.prove('one output per variable', z3.BoolVal(len(outs) == nv))
        at = {c.name(): Int('at_' + c.name()) for c in common + others}
        E.assume(z3.And(*[in_range(at[c.name()], c.n) for c in common + others]))
        # where none of the dimensions of the sample is missing in the data, missing samples can be told
        flag = z3.BoolVal(False)
        if miss and masked and not extra:
            flag = zbool(sdata.mask_at(*[at[c.name()] for c in scs]))
        for (dims, a), o in zip(res, outs):
            E.prove('dimensions of the sample, then the others', z3.BoolVal([c.name() for c in o.dims] == [c.name() for c in common + others]))
            x = [at[c.name()] for c in common + others]
            y = [at[c.name()] for c in dims]
            E.prove('interpolated value', z3.Or(zbool(o.data.mask_at(*x)), o.data.at(*x).real() == a.at(*y).real()))
            E.prove('missing iff it cannot be interpolated, or the sample is missing and is to stay missing',
                    zbool(o.data.mask_at(*x)) == z3.Or(zbool(a.mask_at(*y)), flag))
    return u


for _D in (1, 2, 3):
    for _S in range(1, _D + 1):
        make_coll(_D, _S, False)
make_coll(1, 1, True)
make_coll(2, 1, True)
make_coll(2, 2, True)


@unit(UNITS, '_check_for_valid_kernel', [CI + ':GriddedCollocator._check_for_valid_kernel'])
def u_kernel(E):
    m = M(CI)
    from cis.exceptions import ClassNotFoundError
    E.cover()
    good = E.choose('valid')
    k = m.gridded_gridded_li() if good and E.choose('lin') else m.gridded_gridded_nn() if good else m.moments()
    r, e = raises(m.GriddedCollocator._check_for_valid_kernel, k)
    E.prove('only kernels for grids', z3.BoolVal((e is None) == bool(good)))


@unit(UNITS, 'GriddedData.sampled_from', [GD + ':GriddedData.sampled_from'])
def u_sampled(E):
    m = M(GD)
    ci = M(CI)
    log = []

    class Col(object):
        def __init__(self, **k):
            self.k = k
    patch(ci, 'GriddedCollocator', Col)

    def collocate(data, sample, col, con, kernel):
        use('collocate: runs the collocator')
        log.append((data, sample, col, con, kernel))
        return 'result'
    patch(M('cis.collocation.col'), 'collocate', collocate)
    lst = E.choose('list')

    class L(list):
        def _vc_isinstance(self, t):
            ts = t if isinstance(t, tuple) else (t,)
            return (m.GriddedDataList if lst else m.GriddedData) in ts
    data, sample = L(), object()
    how = '' if E.choose('default') else 'lin' if E.choose('lin') else 'nn' if E.choose('nn') else 'bin'
    kern = None if E.choose('no kernel') else 'mean'
    miss = None if E.choose('default for missing samples') else E.choose('missing samples stay missing')
    kw = {} if miss is None else dict(missing_data_for_missing_sample=miss)
    E.cover()
    r, e = raises(m.GriddedData.__dict__['sampled_from'], sample, data, how=how, kernel=kern, **kw)
    ok = how != 'bin' and kern is None
    E.prove('no other methods, no kernels', z3.BoolVal((e is None) == ok and (ok or isinstance(e, ValueError))))
    if not ok:
        return
    d, s, c, con, k = log[0]
    E.prove('collocated onto the sample', z3.BoolVal(r == 'result' and len(log) == 1 and d is data and s is sample and isinstance(c, Col) and con is None))
    E.prove('method', z3.BoolVal(type(k) is (ci.gridded_gridded_nn if how == 'nn' else ci.gridded_gridded_li)))
    E.prove('missing samples', z3.BoolVal(c.k['missing_data_for_missing_sample'] is (True if miss is None else bool(miss))))


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'collocation of random grids onto random grids against a direct interpolation'
BOUNDED_FUNCTIONS = ['GriddedData.sampled_from', 'GriddedData.collocated_onto', 'GriddedCollocator', 'iris interpolation']
LIMIT_S = 40
RANGE = dict(latitude=(-80, 80), altitude=(0, 5000), time=(149750., 149800.), air_pressure=(10., 1000.))


def cases(rng, tier, scale):
    for t in range(300 * scale):
        pool = ['latitude', 'longitude', 'altitude', 'time']
        dn = rng.sample(pool, rng.choice([1, 2, 2, 3]))
        sn = [x for x in dn if rng.random() < .8] or [dn[0]]
        rng.shuffle(sn)
        neg = rng.random() < .5                       # the sample uses longitudes below zero
        dd, ss = [], []
        for x in dn:
            n = rng.choice([2, 2, 3, 4])
            if x == 'longitude':
                if rng.random() < .4:
                    n = rng.choice([3, 4, 6])
                    base = rng.choice([0., -180., 20., -150., 2.5])
                    d = dict(name=x, points=[base + 360. / n * i for i in range(n)], circular=True, guess=rng.random() < .5)
                else:
                    lo, hi = (-170, 170) if neg else (10, 350)
                    p = C.grid_points(rng, lo, hi, n)
                    shift = rng.choice([0, 0, 360, -360])
                    d = dict(name=x, points=[v + shift for v in p])
            else:
                d = dict(name=x, points=C.grid_points(rng, *RANGE[x], n))
            if rng.random() < .25 and not d.get('circular'):
                d['points'] = d['points'][::-1]
            dd.append(d)
        for x in sn:
            n = rng.choice([1, 2, 3, 4])
            src = [d for d in dd if d['name'] == x][0]['points']
            lo, hi = min(src), max(src)
            if x == 'longitude':
                lo, hi = (-180., 179.) if neg else (0., 359.)
            else:
                ext = (hi - lo) * .3
                lo, hi = (lo - ext, hi + ext) if x != 'latitude' else (max(-90., lo - ext), min(90., hi + ext))
            p = set()
            for _ in range(20):
                if len(p) >= n:
                    break
                p.add(C.q(rng.uniform(lo, hi)) if rng.random() < .7 or x == 'longitude' else rng.choice(src))
            p = sorted(p)
            if x == 'longitude' and neg and p[0] >= 0:
                p[0] = -p[0] - .5 if p[0] > 0 else -1.
                p = sorted(set(p))
            ss.append(dict(name=x, points=p[::-1] if rng.random() < .2 else p))
        extra = rng.random() < .2
        if extra:
            ss.insert(rng.randrange(len(ss) + 1), dict(name='air_pressure', points=[100., 200.]))
        scal = [x for x in dn if x not in sn and x != 'longitude']
        scal = dict(name=scal[0], points=[C.q(rng.uniform(*RANGE[scal[0]]))]) if scal and rng.random() < .5 else None
        n, k = 1, 1
        for d in dd:
            n *= len(d['points'])
        for d in ss:
            k *= len(d['points'])
        yield dict(d=dd, s=ss, data=C.rand_vals(rng, n), mask=C.maybe_mask(rng, n, .4, .15), smask=C.maybe_mask(rng, k, .5),
                   how=rng.choice(['', 'lin', 'nn']), miss=rng.choice([None, True, False]), scal=scal, dim=rng.random() < .5,
                   lst=rng.random() < .25, api=rng.random() < .5)


def check(c):
    import numpy as np
    from iris.coords import DimCoord, AuxCoord
    from cis.data_io.gridded_data import GriddedDataList
    gs = [C.cube(dict(dims=c['d'], data=[v + 10 * k for v in c['data']], mask=c['mask'], name='v%d' % k)) for k in range(2 if c['lst'] else 1)]
    k = 1
    for d in c['s']:
        k *= len(d['points'])
    s = C.cube(dict(dims=c['s'], data=[0.] * k, mask=c['smask']))
    if c['scal']:
        x = C.dimcoord(dict(c['scal'], aux=not c['dim']))
        s.add_aux_coord(x)
    before = C.snap(s)
    kw = {} if c['miss'] is None else dict(missing_data_for_missing_sample=c['miss'])
    data = GriddedDataList(gs) if c['lst'] else gs[0]
    try:
        r = data.collocated_onto(s, how=c['how'], **kw) if c['api'] and not c['lst'] else s.sampled_from(data, how=c['how'], **kw)
    except Exception as e:
        return 'collocation fails: %s: %s' % (type(e).__name__, e)
    if C.snap(s) != before:
        return 'the sample was changed'
    if len(r) != len(gs):
        return '%d outputs' % len(r)
    dn, sn = [d['name'] for d in c['d']], [d['name'] for d in c['s']]
    common = [d for d in c['s'] if d['name'] in dn] + ([c['scal']] if c['scal'] else [])
    cn = [d['name'] for d in common]
    others = [d for d in c['d'] if d['name'] not in cn]
    names = cn + [d['name'] for d in others]
    shape = [len(d['points']) for d in common + others]
    whole = all(x in dn for x in sn)
    sm = np.zeros([len(d['points']) for d in c['s']], bool) if c['smask'] is None else np.array(c['smask']).reshape([len(d['points']) for d in c['s']])
    dsh = [len(d['points']) for d in c['d']]
    D = np.array(c['data']).reshape(dsh)
    DM = np.zeros(dsh, bool) if c['mask'] is None else np.array(c['mask']).reshape(dsh)
    for gi, o in enumerate(r):
        if [x.name() for x in o.dim_coords] != names or list(o.shape) != shape:
            return 'dimensions %r of %r instead of %r of %r' % ([x.name() for x in o.dim_coords], o.shape, names, shape)
        for x, d in zip(o.dim_coords, common + others):
            if d['name'] != 'longitude' and not C.same_vals(C.vals(x.points), d['points']):
                return 'coordinate %s is %r' % (d['name'], x.points)
            if d['name'] == 'longitude' and len(x.points) != len(d['points']):
                return 'longitudes %r' % x.points
        if o.var_name != 'v%d' % gi:
            return 'variable %s' % o.var_name
        got = np.ma.asanyarray(o.data)
        lonp = {}
        for idx in np.ndindex(*shape):
            at = dict(zip(names, idx))
            corners = [([], 1.)]
            out = False
            alts = [[]]
            for d in c['d']:
                x = at[d['name']]
                if d['name'] not in cn:
                    if d['name'] == 'longitude':         # may have been rotated: find it by its value
                        v = [i for i, z in enumerate(d['points']) if C.same_place(z, float(o.coord('longitude').points[x]))]
                        if len(v) != 1:
                            return 'longitudes %r' % o.coord('longitude').points
                        w = [[(v[0], 1.)]]
                    else:
                        w = [[(x, 1.)]]
                else:
                    w = weights(d, [q for q in common if q['name'] == d['name']][0]['points'][x], c['how'] == 'nn')
                    if w is None:
                        out = True
                        break
                alts = [a + [b] for a in alts for b in w]
            v = got[idx]
            v = None if C.ismissing(v) else float(v)
            skip = c['miss'] is not False and whole and bool(sm[tuple(at[x] for x in sn)])
            if out or skip:
                if v is not None:
                    return 'value %r at %r, which is %s' % (v, idx, 'outside' if out else 'a missing sample')
                continue
            wants = []
            for a in alts:                               # alternatives: ties of the nearest
                tot, miss = 0., False
                for comb in itertools.product(*a):
                    i = tuple(k for k, _ in comb)
                    f = 1.
                    for _, q in comb:
                        f *= q
                    if f:
                        tot += f * (D[i] + 10 * gi)
                        miss = miss or bool(DM[i])
                wants.append(None if miss else tot)
            if not any(C.close(v, w, 1e-7) for w in wants):
                return '%s at %r: %r instead of %r' % (c['how'] or 'lin', idx, v, wants)


def weights(d, x, nn):
    """alternatives of [(index, weight)...] of the points of the dimension around x, None outside"""
    p = [float(v) for v in d['points']]
    n = len(p)
    idx = list(range(n))
    if p[-1] < p[0]:
        p, idx = p[::-1], idx[::-1]
    if d['name'] == 'longitude':
        x = p[0] + C.mod360(x - p[0])
        if d.get('circular'):
            p, idx = p + [p[0] + 360.], idx + [idx[0]]
        elif x > p[-1] and C.same_place(x, p[0], 1e-12):
            x = p[0]
    if x < p[0] or x > p[-1]:
        return None
    for k in range(len(p) - 1):
        if p[k] <= x <= p[k + 1]:
            f = (x - p[k]) / (p[k + 1] - p[k])
            if not nn:
                return [[(idx[k], 1 - f), (idx[k + 1], f)]]
            r = []
            if f <= .5 + 1e-9:
                r.append([(idx[k], 1.)])
            if f >= .5 - 1e-9:
                r.append([(idx[k + 1], 1.)])
            return r


def nontrivial(c):
    return len(c['d']) > 1
