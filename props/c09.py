"""C09 binning of ungridded data into the cells of a grid"""
from vc.api import *
from props import common as C

ID = 'C09'
LEVEL = 'proof'
PROPERTY = dict(
    title='Binning puts each valid data point into exactly the grid cell that contains it',
    statement='Collocating ungridded data onto a grid by binning hands the kernel, for each cell, exactly the valid data points '
              'whose every coordinate shared with the grid lies within the bounds of the cell: at or above the lower and '
              'below the upper bound, whichever direction the grid coordinate runs in and in whichever dimension order '
              '(longitudes are circular: a whole number of turns does not matter). Each point is used in one cell at most; '
              'points outside of every cell are not used. Cells without points are missing, as are cells where the sample is '
              'missing if missing samples are to stay missing. The output has the grid\'s shared coordinates in the grid\'s '
              'order.',
    over=['inputs'],
    text='any number of points, 1-3 dimensions of any sizes, ascending or descending coordinates with bounds',
    why='Tests bin a few points into a small regular grid; edges, descending coordinates, gaps and the date line need '
        'particular inputs.',
    files=['cis/collocation/data_index.py', 'cis/collocation/col_implementations.py', 'cis/data_io/hyperpoint_view.py'],
    mechanism=[('cell of each point', 'cis/collocation/data_index.py: GridCellBinIndexInSlices.index_data'),
               ('points of each cell', 'cis/collocation/data_index.py: GridCellBinIndexInSlices.get_iterator'),
               ('values of the cells', 'cis/collocation/col_implementations.py: GeneralGriddedCollocator.collocate')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole collocations bounded'
NOTE = 'Cell of every point (one to three dimensions, either direction), groups of points per cell, and the loop and output of '\
    'the collocator proved for all numbers of points; correspondence of coordinates and coordinates without bounds bounded.'
ASSUMPTIONS = ['reals instead of floating point']

DI = 'cis.collocation.data_index'
from vc.engine import zbool  # noqa


def two(n, a, b, a2, b2):
    return z3.Implies(z3.And(0 <= a, a < n, 0 <= a2, a2 < n, a + n * b == a2 + n * b2), z3.And(a == a2, b == b2))


def three(n0, n1, a, b, c, a2, b2, c2):
    return z3.Implies(z3.And(0 <= a, a < n0, 0 <= a2, a2 < n0, 0 <= b, b < n1, 0 <= b2, b2 < n1,
                             a + n0 * b + n0 * n1 * c == a2 + n0 * b2 + n0 * n1 * c2),
                      z3.And(a == a2, b == b2, c == c2))


def nonneg(*v):
    k = len(v) // 2
    n, d = v[:k], v[k:]
    t = d[0] + n[0] * d[1] + (n[0] * n[1] * d[2] if k > 1 else 0)
    return z3.Implies(z3.And(*[x >= 0 for x in v]), t >= 0)


def make_index(D, dirs, extra):
    @unit(UNITS, 'GridCellBinIndexInSlices.index_data[%s]' % ','.join('down' if d else 'up' for d in dirs),
          [DI + ':GridCellBinIndexInSlices.index_data'], timeout_ms=30000, time_limit=600,
          tier='quick' if D < 3 or dirs == (False, True, False) else 'thorough')
    def u(E):
        m = M(DI)
        n = Int('n')
        E.assume(n.e >= 1)
        order = list(range(D))
        if extra:
            order = order[::-1]                                     # dimensions in another order than the coordinates
        coords, L, lo, hi = [], [], [], []
        q, q2 = qint('q'), qint('q2')
        for s in range(D):
            ln = Int('len%d' % s)
            E.assume(ln.e >= (2 if dirs[s] else 1))
            pts = fresh_array('points%d' % s, (ln,), 'r')
            bnd = fresh_array('bounds%d' % s, (ln, 2), 'r')
            b0 = lambda t, b=bnd: b.at(t, 0).e
            b1 = lambda t, b=bnd: b.at(t, 1).e
            lo_ = lambda t, b0=b0, b1=b1: z3.If(b0(t) <= b1(t), b0(t), b1(t))
            hi_ = lambda t, b0=b0, b1=b1: z3.If(b0(t) <= b1(t), b1(t), b0(t))
            # coordinates of a grid: strictly monotonic, cells do not overlap
            a, b = (q2, q) if dirs[s] else (q, q2)
            E.assume(forall([q, q2], z3.Implies(z3.And(0 <= q, q < q2, q2 < ln.e), z3.And(
                pts.at(a).e < pts.at(b).e, hi_(a) <= lo_(b))), [z3.MultiPattern(bnd.at(q, 0).e, bnd.at(q2, 0).e)]))
            E.assume(forall(q, z3.Implies(z3.And(0 <= q, q + 1 < ln.e), z3.And(
                pts.at(q).e != pts.at(q + 1).e, (pts.at(q).e > pts.at(q + 1).e) if dirs[s] else (
                    pts.at(q).e < pts.at(q + 1).e))), [pts.at(q).e]))
            if dirs[s]:
                E.assume(pts.at(1).e < pts.at(0).e)
            else:
                E.assume(z3.Implies(ln.e > 1, pts.at(0).e < pts.at(1).e))

            class Co(object):
                _vc_symbolic = True
            co = Co()
            co.points, co.bounds = pts, bnd
            coords.append(co)
            L.append(ln)
            lo.append(lo_)
            hi.append(hi_)

        class HP(object):
            _vc_symbolic = True
        hp = HP()
        hp.coords = [fresh_array('hp%d' % s, (n,), 'r') for s in range(D + 1)]
        hp.data = fresh_array('data', (n,), 'r', masked=True)
        allc = [object()] + [coords[s] for s in order] if extra else list(coords)
        ci = {s: (order.index(s) + 1 if extra else s) for s in range(D)}
        cmap = [(s + 1, ci[s], s) for s in range(D)]
        val = lambda s, i: hp.coords[s + 1].at(i).e
        b = m.GridCellBinIndexInSlices()
        E.cover()
        b.index_data(allc, hp, cmap)
        P, P2 = Int('position'), Int('position2')
        E.assume(z3.And(in_range(P, n), in_range(P2, n)))
        E.prove('sorted by cell', z3.Implies(P.e <= P2.e, b.cell_numbers.at(P).e <= b.cell_numbers.at(P2).e))
        so = b.sort_order
        pf, qf = so.ghost_perm
        i = so.at(P.e).e
        E.prove('an order of all the points', z3.And(in_range(i, n), qf(i) == P.e))
        w = Int('point')
        E.assume(in_range(w, n))
        E.prove('every point is there', z3.And(in_range(qf(w.e), n), so.at(qf(w.e)).e == w.e))
        cell = [b._indices.at(s, P).e for s in range(D)]
        cell2 = [b._indices.at(s, P2).e for s in range(D)]
        cn, cn2 = b.cell_numbers.at(P).e, b.cell_numbers.at(P2).e
        i2 = so.at(P2.e).e
        if 'tensordot' in E.memo:
            # names for the digits of the cell numbers
            dot, rows = E.memo['tensordot']
            for s in range(D):
                E.prove('digit %d' % s, z3.And(rows[s](i) == cell[s], rows[s](i2) == cell2[s]))
            d1, d2 = [r(i) for r in rows], [r(i2) for r in rows]
        else:
            d1, d2 = cell, cell2
        if D > 1:
            nn = lemma(E, 'digits are not negative', 2 * D - 1, nonneg)
            nn(*(L[:-1] + d1))
            nn(*(L[:-1] + d2))
        inside = [z3.And(0 <= cell[s], cell[s] < L[s].e, lo[s](cell[s]) <= val(s, i), val(s, i) < hi[s](cell[s]))
                  for s in range(D)]
        masked = zbool(hp.data.mask_at(i))
        for s in range(D):
            E.prove('a point with a cell lies in that cell (dimension %d)' % s, z3.Implies(cn >= 0, inside[s]))
        E.prove('a masked point is in no cell', z3.Implies(masked, cn == -1))
        K = [Int('cell%d' % s) for s in range(D)]
        cont = [z3.And(in_range(K[s], L[s]), lo[s](K[s].e) <= val(s, i), val(s, i) < hi[s](K[s].e)) for s in range(D)]
        for s in range(D):
            E.prove('the index along dimension %d of a point within a cell is that of the cell' % s,
                    z3.Implies(cont[s], cell[s] == K[s].e))
        E.prove('a valid point within a cell has a cell', z3.Implies(z3.And(z3.Not(masked), *cont), cn >= 0))
        E.prove('outside of the grid or in a cell', cn >= -1)
        same_no = z3.And(cn >= 0, cn == cn2)
        inside2 = [z3.And(0 <= cell2[s], cell2[s] < L[s].e) for s in range(D)]
        for s in range(D):
            E.prove('the second cell too (dimension %d)' % s, z3.Implies(same_no, z3.And(inside2[s])))
        number = lambda d: d[0] + (L[0].e * d[1] if D > 1 else 0) + (L[0].e * L[1].e * d[2] if D > 2 else 0)
        l2 = lemma(E, 'two digits', 5, two)
        l3 = lemma(E, 'three digits', 8, three, lambda n0, n1, a, b, c, a2, b2, c2: [
                two(n0, a, b + n1 * c, a2, b2 + n1 * c2), two(n1, b, c, b2, c2)]) if D == 3 else None
        facts = [z3.Implies(same_no, z3.And(0 <= d[s], d[s] < L[s].e)) for d in (d1, d2) for s in range(D)]
        if 'tensordot' in E.memo:
            facts += [dot(i) == number(d1), dot(i2) == number(d2), z3.Implies(same_no, dot(i) == dot(i2))]
        else:
            facts += [z3.Implies(same_no, number(d1) == number(d2))]
        if D > 1:
            facts.append(l2(L[0], *(d1 + d2)) if D == 2 else l3(L[0], L[1], *(d1 + d2)))
        entails(E, 'cells differ in their numbers', facts, z3.Implies(same_no, z3.And(*[d1[s] == d2[s] for s in range(D)])))
    return u


import itertools as _it
for _D in (1, 2, 3):
    for _dirs in _it.product([False, True], repeat=_D):
        if _D < 3 or _dirs in ((False, False, False), (True, False, True), (False, True, False)):
            make_index(_D, _dirs, _D > 1)


@unit(UNITS, 'GridCellBinIndexInSlices.get_iterator', [DI + ':GridCellBinIndexInSlices.get_iterator'], timeout_ms=30000)
def u_slices(E):
    m = M(DI)
    n = Int('n')
    E.assume(n.e >= 1)
    b = m.GridCellBinIndexInSlices()
    D = 2
    c = fresh_array('cell_numbers', (n,), 'i')
    p, q = qint('p'), qint('q')
    E.assume(forall(p, z3.Implies(in_range(p, n), c.at(p).e >= -1), [c.at(p).e]))
    E.assume(forall([p, q], z3.Implies(z3.And(0 <= p, p <= q, q < n.e), c.at(p).e <= c.at(q).e),
                    [z3.MultiPattern(c.at(p).e, c.at(q).e)]))
    b.cell_numbers, b._indices = c, fresh_array('indices', (D, n), 'i')
    w = Int('w')
    E.assume(in_range(w, n))
    seen = z3.Function('seen', z3.IntSort(), z3.BoolSort())
    st = lambda k: b.cell_slices_indices.at(k, 0).e
    en = lambda k: b.cell_slices_indices.at(k, 1).e
    got = []

    def inv(E, L, k):
        k = iterm(k)
        s = b.cell_slices_indices
        if isinstance(s, list):
            return []
        K = iterm(s.shape[0])
        j = qint('j')
        if z3.is_int_value(k) and not got:
            induct(E, 'points before the first slice are in no cell', lambda x: c.at(x).e == -1, 0, st(0))
            E.assume(z3.Not(seen(0)))
            E.assume(forall(j, z3.Implies(0 <= j, seen(j + 1) == z3.Or(seen(j), z3.And(st(j) <= w.e, w.e < en(j)))), [seen(j + 1)]))
        nxt = z3.If(k < K, st(k), n.e)
        return [('a point is in one of the slices so far iff it is in a cell and before the next slice',
                 seen(k) == z3.And(w.e < nxt, c.at(w).e >= 0)),
                ('slices so far', z3.And(0 <= nxt, nxt <= n.e))]
    E.loops[(DI, 'GridCellBinIndexInSlices.get_iterator', 0)] = LoopSpec(inv)
    E.cover()
    for out, sl in b.get_iterator():
        got.append(1)
        s, e = lift(sl[0]).e, lift(sl[1]).e
        expect(len(out) == D)
        E.prove('a slice of the points', z3.And(0 <= s, s < e, e <= n.e))
        for d in range(D):
            E.prove('cell of the slice', lift(out[d]).e == b._indices.at(d, s).e)
        induct(E, 'all points of a slice are of one cell', lambda x: c.at(x).e == c.at(s).e, s, e)
        E.prove('points outside of the grid are in no slice', c.at(s).e >= 0)
        E.prove('all points of the cell', z3.Implies(z3.And(in_range(w, n), c.at(w).e == c.at(s).e), z3.And(s <= w.e, w.e < e)))
    if isinstance(b.cell_slices_indices, list):
        E.prove('no slices', z3.BoolVal(not b.cell_slices_indices and not got))
        induct(E, 'all points are outside', lambda x: c.at(x).e == -1, 0, n)
    else:
        E.prove('every point in a cell is in a slice', z3.Implies(c.at(w).e >= 0, seen(iterm(b.cell_slices_indices.shape[0]))))


CI = 'cis.collocation.col_implementations'


class Cube(object):
    _vc_symbolic = True


def grid(D, names=('latitude', 'longitude', 'time')):
    cs = []
    for d in range(D):
        co = Cube()
        ln = Int('len%d' % d)
        eng.CUR.assume(ln.e >= 1)
        co.ndim, co.shape, co.standard_name = 1, (ln,), names[d]
        co.points, co.bounds = fresh_array('points%d' % d, (ln,), 'r'), fresh_array('bounds%d' % d, (ln, 2), 'r')
        co.has_bounds = lambda: True
        co.name = lambda d=d: names[d]
        cs.append(co)
    return cs


class Slices(object):
    """contract of the index (proved above): groups of points (positions in sort_order), one per cell with points"""
    _vc_symbolic = True

    def __init__(self, E, D, lens, n):
        self.G = Int('groups')
        self.cell = [z3.Function('cell%d' % d, z3.IntSort(), z3.IntSort()) for d in range(D)]
        self.s, self.e = z3.Function('start', z3.IntSort(), z3.IntSort()), z3.Function('stop', z3.IntSort(), z3.IntSort())
        self.group = z3.Function('group', *([z3.IntSort()] * (D + 1)))
        self.sort_order = SArr((n,), lambda i, f=z3.Function('order', z3.IntSort(), z3.IntSort()): Num(f(i[0])), 'i')
        k, q = qint('k'), qint('q')
        E.assume(self.G.e >= 0)
        E.assume(forall(q, z3.Implies(in_range(q, n), in_range(self.sort_order.at(q).e, n)), [self.sort_order.at(q).e]))
        cs = [c(k) for c in self.cell]
        E.assume(forall(k, z3.Implies(in_range(k, self.G), z3.And(
            0 <= self.s(k), self.s(k) < self.e(k), self.e(k) <= iterm(n), self.group(*cs) == k,
            *[in_range(c, ln) for c, ln in zip(cs, lens)])), [cs[0]]))
        E.assume(forall(k, z3.Implies(in_range(k, self.G), z3.And(
            0 <= self.s(k), self.s(k) < self.e(k), self.e(k) <= iterm(n))), [self.s(k)]))

    def get_iterator(self):
        use('GridCellBinIndexInSlices: one group of points per cell with points (proved in this property)')
        return SSeq(self.G, lambda k: (tuple(Num(c(k)) for c in self.cell), [Num(self.s(k)), Num(self.e(k))]))


def make_data_only(D, order, miss):
    @unit(UNITS, 'BinnedCubeCellOnlyConstraint.get_iterator_for_data_only[%s%s]' % (order, ', missing samples' if miss else ''),
          [CI + ':BinnedCubeCellOnlyConstraint.get_iterator_for_data_only'])
    def u(E):
        m = M(CI)
        n = Int('n')
        E.assume(n.e >= 1)
        lens = [Int('len%d' % d) for d in range(D)]
        c = m.BinnedCubeCellOnlyConstraint()
        sl = c.grid_cell_bin_index_slices = Slices(E, D, lens, n)
        hp = Cube()
        hp.data = fresh_array('values', (n,), 'r')
        # order[j] = dimension of the grid of output dimension j
        pts = Cube()
        g = [None] * D
        for j in range(D):
            g[order[j]] = lens[j]
        pts.data = fresh_array('sample', tuple(g), 'r', masked=True)
        cmap = [(j, order[j], j) for j in range(D)]
        phase, got = [0], []

        def inv(E, L, k):
            # 1: on entry, 2: an arbitrary iteration begins, 3: it ends
            phase[0] += 1
            if phase[0] < 3:
                return []
            kk = iterm(k) - 1
            at = [None] * D
            for j in range(D):
                at[order[j]] = sl.cell[j](kk)
            skip = zbool(pts.data.mask_at(*at)) if miss else z3.BoolVal(False)
            return [('a cell is used unless its sample is missing and is to stay missing', iff(z3.Not(skip), z3.BoolVal(len(got) == 1)))]
        for w in (0, 1):
            E.loops[(CI, 'BinnedCubeCellOnlyConstraint.get_iterator_for_data_only', w)] = LoopSpec(inv)
        E.cover()
        for out, vals in c.get_iterator_for_data_only(miss, cmap, None, hp, None, pts, None):
            got.append(1)
            expect(len(out) == D and isinstance(vals, SArr) and vals.ndim == 1)
            k = sl.group(*[lift(x).e for x in out])
            E.prove('a cell with points', z3.And(in_range(k, sl.G), *[sl.cell[d](k) == lift(out[d]).e for d in range(D)]))
            E.prove('as many values as points', iterm(vals.shape[0]) == sl.e(k) - sl.s(k))
            q = Int('q')
            E.prove('values of the points of the cell', z3.Implies(in_range(q, vals.shape[0]), vals.at(q).e == hp.data.at(
                sl.sort_order.at(sl.s(k) + q.e)).e))
        E.prove('nothing else', z3.BoolVal(not got))
    return u


from vc import engine as eng  # noqa
make_data_only(1, (0,), True)
make_data_only(2, (0, 1), True)
make_data_only(2, (1, 0), True)
make_data_only(3, (2, 0, 1), True)
make_data_only(2, (1, 0), False)


def make_coll(D, r, only, order):
    @unit(UNITS, 'GeneralGriddedCollocator.collocate[%s, %d output%s%s]' % (order, r, 's' if r > 1 else '', '' if only else ', points'),
          [CI + ':GeneralGriddedCollocator.collocate', CI + ':GeneralGriddedCollocator._set_single_value_kernel',
           CI + ':GeneralGriddedCollocator._set_multi_value_kernel', CI + ':GeneralGriddedCollocator._create_collocated_cube'],
          timeout_ms=30000)
    def u(E):
        m = M(CI)
        cs = grid(D)
        n = Int('n')
        E.assume(n.e >= 1)
        lens = [c.shape[0] for c in cs]
        # coordinates of the grid in another order than the standard one
        coords = [None] * D
        for j in range(D):
            coords[order[j]] = cs[j]
        hp = Cube()
        lons = []
        hp.set_longitude_range = lambda v: lons.append(v)
        cmap = [(j, order[j], j) for j in range(D)]
        patch(m, 'make_coord_map', lambda p, d: list(cmap))
        use('make_coord_map: which coordinates of grid and data correspond (bounded)')
        indexed = []
        patch(M(DI), 'create_indexes', lambda o, c, d, cm: indexed.append((o, c, d, cm)))
        made = []

        class GD(object):
            _vc_symbolic = True

            def __init__(self, data, **k):
                self.data, self.k, self.units, self.order = data, k, k.get('units'), None
                made.append(self)

            def transpose(self, o):
                expect(self.order is None)
                self.order = list(o)
        patch(m, 'GriddedData', GD)
        patch(m, 'GriddedDataList', list)
        stds = []
        patch(m, 'set_standard_name_if_valid', lambda o, s: stds.append((o, s)))
        pts, data = Cube(), Cube()
        pts.coords = lambda: coords
        data.get_non_masked_points = lambda: hp
        data.var_name, data.long_name, data.standard_name, data.units = 'dname', 'dlong', 'dstd', 'dunits'
        named, miss = E.choose('names asked for'), E.choose('missing samples stay missing')
        sl = Slices(E, D, lens, n)
        empty = z3.Function('empty', z3.IntSort(), z3.BoolSort())
        V = [z3.Function('V%d' % q, z3.IntSort(), z3.RealSort()) for q in range(r)]
        Vnan = [z3.Function('Vnan%d' % q, z3.IntSort(), z3.BoolSort()) for q in range(r)]
        num = lambda q, t: Num(V[q](t), nan=Vnan[q](t))

        class Vals(object):
            def __init__(self, k):
                self.k = k

        class Constraint(object):
            _vc_symbolic = True

            def items(self, mi, cm, co, dp, sh, p, o):
                expect(dp is hp and p is pts and co is coords and list(cm) == cmap)
                E.prove('the flag for missing samples is passed on', z3.BoolVal(mi is miss))
                return lambda k: (tuple(Num(c(k)) for c in sl.cell),)

            if only:
                def get_iterator_for_data_only(self, *a):
                    f = self.items(*a)
                    return SSeq(sl.G, lambda k: f(k) + (Vals(k),))
            else:
                def get_iterator(self, *a):
                    f = self.items(*a)
                    return SSeq(sl.G, lambda k: f(k) + (('hp', k), Vals(k)))

        def val(k):
            if E.decide(empty(k)):
                raise ValueError
            vs = [num(q, k) for q in range(r)]
            return vs[0] if r == 1 else tuple(vs)

        class Kernel(object):
            _vc_symbolic = True
            return_size = r

            def get_variable_details(self, *a):
                det.append(a)
                return tuple(('n%d' % q, 'l%d' % q, 's%d' % q, 'u%d' % q) for q in range(r))
            if only:
                def get_value_for_data_only(self, v):
                    return val(v.k)
            else:
                def get_value(self, p, v):
                    E.prove('the points of the cell', p[1] == v.k)
                    return val(v.k)
        det = []
        js = [qint('j') for _ in range(D)]
        done = lambda jj, kk: z3.And(0 <= sl.group(*jj), sl.group(*jj) < kk, *([sl.cell[d](sl.group(*jj)) == jj[d] for d in range(D)] +
                                                                              [z3.Not(empty(sl.group(*jj)))]))
        inr = z3.And(*[in_range(x, ln) for x, ln in zip(js, lens)])

        def inv(E, L, k):
            k = iterm(k)
            res = []
            for q in range(r):
                vs = L.values[q]
                res.append(('a value is set iff the kernel gave one', forall(js, z3.Implies(inr, iff(
                    not_(vs.mask_at(*js)), done(js, k))))))
                res.append(('the value is that of the kernel for this cell', forall(js, z3.Implies(
                    z3.And(inr, done(js, k)), same(vs.at(*js), num(q, sl.group(*js)))))))
            return res

        def hav(E, L, k):
            for q in range(r):
                v = L.values[q]
                a = fresh_array('h_values%d' % q, v.shape, 'r', nan=True, track=False, masked=True)
                v.buf.fn, v.mbuf.fn = a.buf.fn, a.mbuf.fn
            return list(L.values)
        for w in range(12):
            E.loops[(CI, 'GeneralGriddedCollocator.collocate', w)] = LoopSpec(inv, havoc_obj=hav)
        c = Duck(m.GeneralGriddedCollocator, fill_value=Real('fill'), var_name='uname' if named else '',
                 var_long_name='ulong' if named else '', var_units='uunits' if named else '',
                 missing_data_for_missing_sample=miss)
        E.cover()
        con = Constraint()
        out = m.GeneralGriddedCollocator.collocate(c, pts, data, con, Kernel())
        E.prove('one output per variable of the kernel, in order', z3.BoolVal(len(out) == r and list(out) == made))
        want = ('uname', 'ulong', 'dstd', 'uunits') if named else ('dname', 'dlong', 'dstd', 'dunits')
        E.prove('details are derived from the names asked for, else of the data', z3.BoolVal(det == [want]))
        E.prove('the index is of the valid points and the coordinates of the grid', z3.BoolVal(any(
            x[0] is con and x[1] is coords and x[2] is hp and list(x[3]) == cmap for x in indexed)))
        E.prove('longitudes are brought into the turn that starts at the edge of the grid', z3.BoolVal(
            len(lons) == (1 if D > 1 else 0)))
        at = [Int('at%d' % d) for d in range(D)]
        E.assume(z3.And(*[in_range(a, ln) for a, ln in zip(at, lens)]))
        if D > 1:
            b = cs[1].bounds
            w, z = Int('w'), Int('z')
            E.prove('edge of the grid', z3.Implies(z3.And(in_range(w, lens[1]), in_range(z, 2)), lift(lons[0]).e <= b.at(w, z).e))
        for q, o in enumerate(out):
            E.prove('details of each output', z3.BoolVal((o.var_name, o.long_name, o.units) == ('n%d' % q, 'l%d' % q, 'u%d' % q)
                                                           and stds[q] == (o, 's%d' % q)))
            dims = dict((d, x) for x, d in o.k['dim_coords_and_dims'])
            E.prove('coordinates of the grid', z3.BoolVal(len(dims) == D and all(dims[d] is cs[d] for d in range(D))))
            E.prove('in the order of the grid', z3.BoolVal([order[d] for d in o.order] == sorted(order)))
            v = o.data
            E.prove('one value per cell', z3.And(*[iterm(x) == ln.e for x, ln in zip(v.shape, lens)]))
            A = [a.e for a in at]
            given = z3.And(done(A, sl.G.e), z3.Not(Vnan[q](sl.group(*A))))
            E.prove('missing iff there is nothing to give', iff(not_(v.mask_at(*A)), given))
            E.prove('value of the kernel for this cell', z3.Implies(given, zbool(same(v.at(*A), num(q, sl.group(*A))))))
    return u


make_coll(1, 1, True, (0,))
make_coll(2, 1, True, (0, 1))
make_coll(2, 3, True, (1, 0))
make_coll(3, 1, True, (2, 0, 1))
make_coll(2, 1, False, (1, 0))


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'collocation by binning of random points (edges, descending, gaps, date line, masks) against direct bin search'
BOUNDED_FUNCTIONS = ['GriddedData.sampled_from', 'GeneralGriddedCollocator.collocate', 'BinnedCubeCellOnlyConstraint']
KERN = ['mean', 'max', 'sum', 'moments', 'min']


def axis(rng, name):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    step = rng.choice([1., 5., 10., 2.5])
    lo = {'longitude': rng.choice([0., -180., -5., 350., 170., 10., 0., -2.5]), 'latitude': rng.choice([-90., 0., -20.]),
          'altitude': rng.choice([0., 100.]), 'time': 149751.}[name]
    if name == 'longitude' and rng.random() < .3:
        step = 360. / n if n != 0 else step
    if name == 'latitude':
        step = min(step, (90. - lo) / n)
    if rng.random() < .7:
        edges = [lo + i * step for i in range(n + 1)]
    else:
        edges = [lo]
        for i in range(n):
            edges.append(edges[-1] + step * rng.choice([.25, .5, 1.]))
    b = [[edges[i], edges[i + 1]] for i in range(n)]
    if rng.random() < .15 and n > 1:                     # a gap between two cells
        i = rng.randrange(n - 1)
        b[i][1] = (b[i][0] + b[i][1]) / 2
    pts = [(x + y) / 2 for x, y in b]
    if rng.random() < .35:
        pts, b = pts[::-1], b[::-1]
        if rng.random() < .7:
            b = [[y, x] for x, y in b]
    return dict(name=name, points=pts, bounds=b)


def cases(rng, tier, scale):
    for t in range(420 * scale):
        names = rng.choice([['latitude', 'longitude'], ['longitude', 'latitude'], ['longitude'], ['latitude'],
                            ['time', 'latitude', 'longitude'], ['altitude', 'time'], ['longitude', 'time', 'latitude'],
                            ['time', 'longitude']])
        dims = [axis(rng, n) for n in names]
        have = set(names)
        for x in ('latitude', 'longitude', 'altitude', 'time'):
            if rng.random() < .3:
                have.add(x)
        if rng.random() < .25 and len(names) > 1:
            have.discard(rng.choice(names))
        if not {'latitude', 'longitude'} <= have and rng.random() < .5:
            have |= {'latitude', 'longitude'}
        if not have & set(names):
            have.add(names[0])
        n = rng.choice([1, 2, 5, 12, 30])
        coords = {}
        for x in ('latitude', 'longitude', 'altitude', 'time'):
            if x not in have:
                continue
            v = []
            ax = [d for d in dims if d['name'] == x]
            for i in range(n):
                if ax and rng.random() < .9:
                    e = [q for b in ax[0]['bounds'] for q in b]
                    lo, hi = min(e), max(e)
                    p = rng.choice(e) if rng.random() < .3 else C.q(rng.uniform(lo - .2 * (hi - lo), hi + .2 * (hi - lo)))
                else:
                    p = C.q(rng.uniform(-80, 80)) + (149751. if x == 'time' else 0)
                if x == 'latitude':
                    p = min(90., max(-90., p))
                v.append(p)
            if x == 'longitude':
                base = rng.choice([0., -180.])
                v = [base + C.mod360(p - base) for p in v]
            coords[x] = v
        size = 1
        for d in dims:
            size *= len(d['points'])
        yield dict(dims=dims, coords=coords, vals=[float(i + 1) for i in range(n)], mask=C.maybe_mask(rng, n, .5),
                   smask=C.maybe_mask(rng, size, .5), miss=rng.random() < .6, kernel=rng.choice(KERN),
                   circular=rng.random() < .2)


def check(c):
    import itertools
    import numpy as np
    from props import c08
    names = [d['name'] for d in c['dims']]
    shape = [len(d['points']) for d in c['dims']]
    shared = [n for n in names if n in c['coords']]
    if c['miss'] and len(shared) != len(names):
        return
    g = C.cube(dict(dims=c['dims'], data=[0.] * int(np.prod(shape)), mask=c['smask']))
    d = C.ung(dict(coords=c['coords'], vals=c['vals'], mask=c['mask']))
    n = len(c['vals'])
    out = d.collocated_onto(g, how='bin', kernel=c['kernel'], missing_data_for_missing_sample=c['miss'])
    per = 3 if c['kernel'] == 'moments' else 1
    if len(out) != per:
        return '%d outputs' % len(out)
    for o in out:
        if [x.name() for x in o.coords(dim_coords=True)] != shared:
            return 'dimensions %r, expected %r' % ([x.name() for x in o.coords(dim_coords=True)], shared)
        for x in shared:
            dd = [q for q in c['dims'] if q['name'] == x][0]
            if not C.same_vals(C.vals(o.coord(x).points), dd['points']):
                return 'coordinate %s changed' % x
    sm = np.array(c['smask'] or [False] * int(np.prod(shape))).reshape(shape)
    use = [i for i in range(n) if not (c['mask'] and c['mask'][i])]
    dims = [q for q in c['dims'] if q['name'] in shared]
    for idx in itertools.product(*[range(len(q['points'])) for q in dims]):
        pts = []
        for i in use:
            ok = True
            for q, k in zip(dims, idx):
                lo, hi = sorted(q['bounds'][k])
                x = c['coords'][q['name']][i]
                if q['name'] == 'longitude':
                    ok = ok and any(lo <= x + t * 360. < hi for t in (-2, -1, 0, 1, 2))
                else:
                    ok = ok and lo <= x < hi
            if ok:
                pts.append(i)
        if c['miss'] and sm[idx]:
            pts = []
        want = c08.stats(c['kernel'], [c['vals'][i] for i in pts])
        got = [C.vals(np.ma.atleast_1d(o.data[idx]))[0] for o in out]
        if not C.same_vals(got, want, 1e-9):
            return 'cell %r (bounds %r): got %r, expected %r from points %r' % (
                idx, [q['bounds'][k] for q, k in zip(dims, idx)], got, want, [[c['coords'][x][i] for x in shared] for i in pts])


def nontrivial(c):
    return len(c['vals']) > 1
