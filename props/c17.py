"""C17 values stay with their own coordinates"""
import numpy as np
from vc.api import *
from vc import arr as A, npmodel
from props import common as C

ID = 'C17'
LEVEL = 'proof'
PROPERTY = dict(
    title='Every view of data keeps each value with its own coordinates',
    statement='Points of ungridded data of which a coordinate is missing (masked or NaN) are removed, and only these, from the '
              'data and from every coordinate alike, the others stay in order; other data made with the same coordinates is '
              'not affected. However the data is looked at - flattened coordinates and data, points by index, iteration over '
              'all or over the non-missing points, hyper_point, data frame, slices, copies, new data with the same '
              'coordinates, data made from points - the n-th point has the n-th value of every coordinate and of the data, '
              'missing exactly where the data is missing. The points of gridded data are its cells in row-major order, each '
              'with the coordinate values of its own row along every dimension, whatever the dimensions are.',
    over=['inputs'],
    text='any values, missing flags and shapes; any set of coordinates',
    why='The tests look at single small examples without missing coordinates or with dimensions of all the standard coordinates.',
    files=['cis/data_io/ungridded_data.py', 'cis/data_io/Coord.py', 'cis/data_io/hyperpoint_view.py',
           'cis/data_io/hyperpoint.py', 'cis/utils.py'],
    mechanism=[('removal of incomplete points', 'cis/data_io/ungridded_data.py: UngriddedData._post_process, '
                                                'UngriddedCoordinates._post_process'),
               ('points', 'cis/data_io/hyperpoint_view.py: UngriddedHyperPointView, GriddedHyperPointView; '
                          'cis/data_io/hyperpoint.py: HyperPoint, HyperPointList'),
               ('copies and frames', 'cis/data_io/ungridded_data.py: as_data_frame, __getitem__, copy, '
                                     'make_new_with_same_coordinates, from_points_array')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); data frames and slices also bounded'
NOTE = ('Removal is proved for 1 to 3 coordinates and data of 1 and 2 dimensions, the row-major iteration for 1 to 3 dimensions '
        '(finite unrolling), all for any sizes, values and missing flags.')
ASSUMPTIONS = ['pandas.DataFrame(columns) keeps every column as it is given (bounded)',
               'the coordinates and the data have the same shape (precondition)']
UD = 'cis.data_io.ungridded_data'
CO = 'cis.data_io.Coord'
HV = 'cis.data_io.hyperpoint_view'
HP = 'cis.data_io.hyperpoint'
UT = 'cis.utils'
NAMES = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


def meta(std):
    return M(UD).Metadata(std[:3], standard_name=std, units='1')


def shape_of(E, two):
    n, m = Int('n'), Int('m')
    E.assume(n >= 1)
    E.assume(m >= 1)
    return (n, m) if two else (n,)


def quiet():
    # (the range of the metadata is for information; it is worked out by numpy and cf_units)
    patch(M(UD).LazyData, 'update_range', lambda self, range=None: None)


def missing(a, i):
    """masked or NaN at flat position i"""
    f = asarr(a)
    v = lift(f.at(i))
    return z3.Or(zbool(f.mask_at(i)), zbool(v.isnan()))


def selection(E, inc, n):
    """the selection which the code made: maps (sigma, tau, size), of which it is proved that they enumerate the points which
    are not incomplete"""
    maps = [v for q, v in E.memo.items() if isinstance(q, tuple) and q[0] == 'sel of']
    j, i = z3.Int('j!q'), z3.Int('i!q')
    ok = None
    for sig, tau, m in [v[:3] for v in maps]:
        ok = (sig, tau, m), z3.And(
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < iterm(m)), z3.And(0 <= sig(j), sig(j) < iterm(n), z3.Not(inc(sig(j)))))),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < iterm(n), z3.Not(inc(i))),
                                      z3.And(0 <= tau(i), tau(i) < iterm(m), sig(tau(i)) == i))))
        if E._solve(z3.Not(ok[1]))[0] == 'discharged':
            return ok
    return ok


def pair(E, name, got, orig, sel, n):
    """got is orig, or the selected elements of it"""
    got, orig = asarr(got), asarr(orig)
    if sel is None:
        got = got.flatten()
        pos, size = (lambda k: k), n
    else:
        pos, size = sel[0], sel[2]
    E.prove(name + ': as many as there are complete points', z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(size)))
    k = Int('k')
    h = zbool(in_range(k, size))
    E.prove(name + ': each is the value of its own point', Bool(z3.Implies(h, z3.And(
        zbool(got.mask_at(k)) == zbool(orig.mask_at(pos(k.e))),
        z3.Or(zbool(orig.mask_at(pos(k.e))), zbool(same(got.at(k), orig.at(pos(k.e)))))))))


def removal(count, two, kind):
    names = NAMES[:count]
    fns = [UD + ':%s.__init__' % kind, UD + ':%s._post_process' % kind, UD + ':LazyData.__init__', UD + ':LazyData.data',
           UD + ':LazyData.data_flattened', UD + ':%s.coords_flattened' % kind, CO + ':CoordList.__init__',
           CO + ':CoordList.find_standard_coords', CO + ':CoordList.get_coords', CO + ':CoordList.get_coord']

    @unit(UNITS, '%s: removal of incomplete points [%d coordinates, %d dimensions]' % (kind, count, 2 if two else 1), fns,
          max_paths=3000)
    def u(E):
        quiet()
        shape = shape_of(E, two)
        k, co = M(UD), M(CO)
        cs, orig = [], []
        for j, nm in enumerate(names):
            a = fresh_array(nm, shape, 'r', masked=E.choose(nm + ' masked') if j < 2 else False, nan=True)
            orig.append(a.copy())
            cs.append(co.Coord(a, meta(nm), 'XYZPT'[j]))
        flat = [o.flatten() for o in orig]
        n = flat[0].shape[0]
        inc = lambda i: z3.Or(*[missing(f, i) for f in flat])
        masked = kind == 'UngriddedData' and E.choose('data masked')
        v = fresh_array('values', shape, 'r', masked=masked)
        v0 = v.copy()
        given = co.CoordList(cs)
        E.cover()
        d = k.UngriddedData(v, M(UD).Metadata('v', units='1'), given) if kind == 'UngriddedData' else k.UngriddedCoordinates(given)
        got = d.coords_flattened
        vals = d.data_flattened if kind == 'UngriddedData' else None
        removed = got[0] is None or not A.dim_eq(asarr(got[0]).shape[0], n) or asarr(d._coords[0]._data) is not asarr(cs[0]._data)
        sel = None
        if any(isinstance(q, tuple) and q[0] == 'sel of' for q in E.memo):
            sel, ok = selection(E, inc, n)
            E.prove('exactly the complete points are kept, in order', ok)
        else:
            i = Int('i')
            E.prove('points are kept only if they are complete', Bool(z3.Implies(zbool(in_range(i, n)), z3.Not(inc(i.e)))))
        for j, nm in enumerate(NAMES):
            if j >= count:
                E.prove('no %s' % nm, z3.BoolVal(got[j] is None))
            else:
                E.prove('%s is there' % nm, z3.BoolVal(got[j] is not None))
                pair(E, nm, got[j], flat[j], sel, n)
        if vals is not None:
            pair(E, 'data', vals, v0.flatten(), sel, n)
        for c, o in zip(cs, orig):
            same_array(E, 'coordinates which were given keep their points', c._data, o)
        # looking again changes nothing
        again = d.coords_flattened
        for x, y in zip(got[:count], again):
            E.prove('the coordinates stay as they are', z3.BoolVal(y is x or asarr(y).ndim == 1))
            pair(E, 'again', y, x, None, asarr(x).shape[0])


def same_array(E, name, a, b):
    a, b = asarr(a), asarr(b)
    i = [Int('i') for _ in b.shape]
    E.prove(name, z3.And(z3.BoolVal(a.ndim == b.ndim), *([iterm(x) == iterm(y) for x, y in zip(a.shape, b.shape)] + [z3.Implies(
        z3.And(*[zbool(in_range(x, y)) for x, y in zip(i, b.shape)]),
        z3.And(zbool(a.mask_at(*i)) == zbool(b.mask_at(*i)), zbool(same(a.at(*i), b.at(*i)))))] if a.ndim == b.ndim else [])))


for _k, _two in ((1, False), (2, False), (3, False), (2, True)):
    removal(_k, _two, 'UngriddedData')
for _k, _two in ((1, False), (2, False), (2, True)):
    removal(_k, _two, 'UngriddedCoordinates')


def view(E):
    """a view of ungridded points; any coordinates may be there"""
    n = Int('n')
    E.assume(n >= 1)
    cs = [fresh_array(nm, (n,), 'r', nan=True) if E.choose('has ' + nm) else None for nm in NAMES]
    if all(c is None for c in cs):
        return None
    d = fresh_array('values', (n,), 'r', masked=E.choose('data masked')) if E.choose('has data') else None
    return n, cs, d


def is_point(E, name, p, cs, d, k, coord_at=None):
    for j, nm in enumerate(NAMES):
        c = cs[j]
        w = None if c is None else (c.at(k) if coord_at is None else coord_at(j))
        E.prove('%s: %s' % (name, nm), (p[j] is None) if w is None else same(p[j], w) if p[j] is not None else z3.BoolVal(False))
    got = p[5]
    E.prove(name + ': value is a list', z3.BoolVal(isinstance(got, list)))
    if d is None:
        E.prove(name + ': no value', z3.BoolVal(len(got) == 0))
    else:
        E.prove(name + ': one value', z3.BoolVal(len(got) == 1))
        m = got[0] is np.ma.masked
        E.prove(name + ': value missing where it is missing', zbool(d.mask_at(*k) if isinstance(k, tuple) else d.mask_at(k)) == z3.BoolVal(m))
        if not m:
            E.prove(name + ': value', same(got[0], d.at(*k) if isinstance(k, tuple) else d.at(k)))


@unit(UNITS, 'UngriddedHyperPointView.__getitem__', [HV + ':UngriddedHyperPointView.__init__', HV + ':UngriddedHyperPointView.__getitem__',
                                                     HV + ':UngriddedHyperPointView.__len__', HP + ':HyperPoint.__new__'], max_paths=3000)
def u_get(E):
    x = view(E)
    if x is None:
        return
    n, cs, d = x
    v = M(HV).UngriddedHyperPointView(list(cs), d)
    E.prove('length', lift(v.length) == lift(n))
    i = Int('item')
    E.cover()
    p, e = raises(lambda: v[i])
    if e is not None and not isinstance(e, IndexError):
        raise e
    E.prove('out of range if and only if there is no such point', Bool(z3.BoolVal(e is not None) == z3.Not(zbool(in_range(i, n)))))
    if e is None:
        is_point(E, 'the point', p, cs, d, i.e)


ITERS = [('__iter__', True), ('__iter__', False), ('iter_all_points', False), ('enumerate_all_points', False),
         ('iter_non_masked_points', True), ('enumerate_non_masked_points', True)]


def per_point(got, cur, wanted, what):
    """loop invariant of a generator: at the end of the body the k-th element was given once, or not at all if not wanted"""
    phase = [0]

    def inv(E, L, k):
        phase[0] += 1
        if phase[0] == 2:
            cur.append(lift(k).e)
        if phase[0] < 3:
            return []
        return [(what, Bool(zbool(wanted(lift(k).e - 1)) == z3.BoolVal(len(got) == 1)))]
    return LoopSpec(inv)


ONCE = 'every point once, unless it is missing and missing values are skipped'


def iteration(fn, skip):
    @unit(UNITS, 'UngriddedHyperPointView.%s%s' % (fn, ' (non-missing)' if skip and fn == '__iter__' else ''),
          [HV + ':UngriddedHyperPointView.' + fn, HV + ':UngriddedHyperPointView.__getitem__'])
    def u(E):
        n = Int('n')
        E.assume(n >= 0)
        cs = [fresh_array(nm, (n,), 'r') if nm in ('latitude', 'time') else None for nm in NAMES]
        d = fresh_array('values', (n,), 'r', masked=E.choose('data masked')) if E.choose('has data') else None
        v = M(HV).UngriddedHyperPointView(list(cs), d, *([skip] if fn == '__iter__' else []))
        got, cur = [], []
        E.loops[(HV, 'UngriddedHyperPointView.' + fn, 0)] = per_point(
            got, cur, lambda k: not_(d.mask_at(k)) if skip and d is not None else True, ONCE)
        E.cover()
        for p in getattr(v, fn)():
            got.append(p)
            k = cur[0]
            if fn.startswith('enumerate'):
                E.prove('index of the point', lift(p[0]) == Num(k))
                p = p[1]
            is_point(E, 'the point', p, cs, d, k)
        E.prove('no point after the last', z3.BoolVal(not got))


for _f, _s in ITERS:
    iteration(_f, _s)


def row_major(dims):
    @unit(UNITS, 'index_iterator [%d dimensions]' % dims, [UT + ':index_iterator'], timeout_ms=30000)
    def u(E):
        """finite: the number of dimensions; the sizes are arbitrary"""
        shape = [Int('s%d' % j) for j in range(dims)]
        for s in shape:
            E.assume(s >= 1)
        N = z3.IntVal(1)
        for s in shape:
            N = N * s.e

        def flat(ix):
            r = z3.IntVal(0)
            for s, x in zip(shape, ix):
                r = r * s.e + iterm(x)
            return r
        got, cur = [], []
        pp = per_point(got, cur, lambda k: True, 'one index tuple for every element')

        def inv(E, L, k):
            r = pp.inv(E, L, k)
            k = lift(k).e
            if not isinstance(L.idx, list) or len(L.idx) != dims:
                raise SpecMismatch('idx is not a list of indices')
            h = z3.And(k < N)
            for j in range(dims):
                r.append(('index %d in range' % j, Bool(z3.Implies(h, zbool(in_range(L.idx[j], shape[j]))))))
            r.append(('the indices are those of element k in row-major order', Bool(z3.Implies(h, flat(L.idx) == k))))
            return r

        def hv(E, L, k):
            L.idx[:] = [Int('idx%d' % j, track=False) for j in range(dims)]
            return [L.idx]
        E.loops[(UT, 'index_iterator', 1)] = LoopSpec(inv, havoc_obj=hv)
        E.cover()
        for ix in M(UT).index_iterator(tuple(shape)):
            got.append(ix)
            E.prove('a tuple of indices', z3.BoolVal(isinstance(ix, tuple) and len(ix) == dims))
            for j in range(dims):
                E.prove('in range', in_range(ix[j], shape[j]))
            E.prove('row-major position', Bool(flat(ix) == cur[0]))
        E.prove('nothing after the last', z3.BoolVal(not got))


for _d in (1, 2, 3):
    row_major(_d)


def gridded_view(E, which):
    """data of 1-3 dimensions, each with one of the standard coordinates or with another"""
    cases = {'all standard': (2, {0: 0, 1: 1}), 'other order': (3, {4: 0, 1: 2, 0: 1}), 'a size-one dimension': (3, {0: 1, 1: 2, 4: 0}),
             'a non-standard dimension': (3, {0: 1, 1: 2}), 'one dimension': (1, {4: 0}), 'only other dimensions': (2, {})}
    nd, m = cases[which]
    shape = tuple(1 if which.startswith('a size') and j == 0 else Int('s%d' % j) for j in range(nd))
    for s in shape:
        if not isinstance(s, int):
            E.assume(s >= 1)
    coords = [None] * 5
    for hp, dim in m.items():
        coords[hp] = (fresh_array(NAMES[hp], (shape[dim],), 'r'), dim)
    d = fresh_array('values', shape, 'r', masked=E.choose('data masked'))
    return shape, coords, d


GRIDS = ['all standard', 'other order', 'a size-one dimension', 'a non-standard dimension', 'one dimension',
         'only other dimensions']


def is_cell(E, name, p, coords, d, un):
    is_point(E, name, p, [None if c is None else c[0] for c in coords], d, un,
             lambda j: coords[j][0].at(un[coords[j][1]]))


@unit(UNITS, 'GriddedHyperPointView.__getitem__', [HV + ':GriddedHyperPointView.__init__', HV + ':GriddedHyperPointView.__getitem__',
                                                   HV + ':GriddedHyperPointView.__len__'], max_paths=3000)
def u_gget(E):
    for w in GRIDS:
        if E.choose(w):
            break
    shape, coords, d = gridded_view(E, w)
    v = M(HV).GriddedHyperPointView(list(coords), d)
    N, un, fl = A.flatmap(shape)
    E.prove('length', lift(v.length) == lift(N))
    i = Int('item')
    E.restrict(in_range(i, N))
    E.cover()
    if E.choose('by indices'):
        ix = tuple(Int('i%d' % j) for j in range(len(shape)))
        for x, s in zip(ix, shape):
            E.restrict(in_range(x, s))
        is_cell(E, 'the cell', v[ix], coords, d, tuple(iterm(x) for x in ix))
    else:
        is_cell(E, 'the cell', v[i], coords, d, un(i.e))


def giteration(fn, skip):
    @unit(UNITS, 'GriddedHyperPointView.%s%s' % (fn, ' (non-missing)' if skip and fn == '__iter__' else ''),
          [HV + ':GriddedHyperPointView.' + fn, HV + ':GriddedHyperPointView.__getitem__'], max_paths=3000)
    def u(E):
        for w in GRIDS:
            if E.choose(w):
                break
        shape, coords, d = gridded_view(E, w)
        v = M(HV).GriddedHyperPointView(list(coords), d, *([skip] if fn == '__iter__' else []))
        N, un, fl = A.flatmap(shape)

        def iterator(sh):
            use('index_iterator: the index tuples of the shape, in row-major order (proved)')
            sh = tuple(sh)
            E.prove('all cells of the data are iterated over', z3.And(z3.BoolVal(len(sh) == len(shape)), *[
                iterm(x) == iterm(y) for x, y in zip(sh, shape)]))
            return SSeq(lift(N), lambda k: tuple(Num(x) for x in un(iterm(k))))
        patch(M(UT), 'index_iterator', iterator)
        got, cur = [], []
        E.loops[(HV, 'GriddedHyperPointView.' + fn, 0)] = per_point(
            got, cur, lambda k: not_(d.mask_at(*un(k))) if skip else True, ONCE)
        E.cover()
        for p in getattr(v, fn)():
            got.append(p)
            k = cur[0]
            if fn.startswith('enumerate'):
                E.prove('index of the point', lift(p[0]) == Num(k))
                p = p[1]
            is_cell(E, 'the cell', p, coords, d, un(k))
        E.prove('no cell after the last', z3.BoolVal(not got))


for _f, _s in ITERS:
    if _f != 'enumerate_all_points':
        giteration(_f, _s)


def complete(E, shape, names, masked_data=True):
    """ungridded data of which no coordinate is missing"""
    quiet()
    co = M(CO)
    cs = [co.Coord(fresh_array(nm, shape, 'r'), meta(nm), 'XYZPT'[NAMES.index(nm)]) for nm in names]
    v = fresh_array('values', shape, 'r', masked=masked_data and E.choose('data masked'))
    return M(UD).UngriddedData(v, M(UD).Metadata('v', units='1'), co.CoordList(cs)), cs, v


def picked(E, name, d, coords, v, size, at):
    """d has, at position k, the elements at(k) of the coordinates and of the data"""
    k = Int('k')
    h = zbool(in_range(k, size))
    for what, got, orig in [('data', d.data, v)] + [(c.standard_name, d.coord(standard_name=c.standard_name).data, c._data) for c in coords]:
        got = asarr(got)
        E.prove('%s: shape of %s' % (name, what), z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(size)))
        x = at(k.e)
        x = x if isinstance(x, tuple) else (x,)
        E.prove('%s: %s' % (name, what), Bool(z3.Implies(h, z3.And(zbool(got.mask_at(k)) == zbool(orig.mask_at(*x)), z3.Or(
            zbool(orig.mask_at(*x)), zbool(same(got.at(k), orig.at(*x))))))))


@unit(UNITS, 'slices, copies and new data', [UD + ':UngriddedData.__getitem__', CO + ':Coord.__getitem__', UD + ':UngriddedData.copy',
                                             CO + ':Coord.copy', CO + ':CoordList.copy', UD + ':UngriddedData.coords',
                                             UD + ':UngriddedData.make_new_with_same_coordinates', UD + ':UngriddedData.coord'],
      max_paths=3000)
def u_copies(E):
    shape = shape_of(E, False)
    d, cs, v = complete(E, shape, NAMES[:1] + NAMES[4:])
    n = shape[0]
    v0 = v.copy()
    E.cover()
    if E.choose('slice'):
        a, b = Int('from'), Int('to')
        E.restrict(and_(a >= 0, a < b, b <= n))
        r = d[a:b]
        picked(E, 'slice', r, cs, v0, b - a, lambda k: a.e + k)
    elif E.choose('copy'):
        picked(E, 'copy', d.copy(), cs, v0, n, lambda k: k)
    else:
        new = fresh_array('new', (n,), 'r', masked=E.choose('new masked'))
        new0 = new.copy()
        if E.choose('copy with new data'):
            r = d.copy(data=new)
        else:
            r = d.make_new_with_same_coordinates(data=new, var_name='w', units='1', flatten=E.choose('flatten'))
        picked(E, 'new data', r, cs, new0, n, lambda k: k)
    picked(E, 'the original', d, cs, v0, n, lambda k: k)


@unit(UNITS, 'new data, flattened', [UD + ':UngriddedData.make_new_with_same_coordinates'], max_paths=3000)
def u_flat(E):
    shape = shape_of(E, True)
    d, cs, v = complete(E, shape, NAMES[:1] + NAMES[4:], False)
    N, un, fl = A.flatmap(shape)
    new = fresh_array('new', shape, 'r', masked=E.choose('new masked'))
    new0 = new.copy()
    E.cover()
    r = d.make_new_with_same_coordinates(data=new, var_name='w', units='1', flatten=True)
    picked(E, 'new data', r, cs, new0, N, lambda k: un(k))


class Frame(object):
    """contract of pandas.DataFrame: keeps the columns"""
    _vc_symbolic = True

    def __init__(self, columns, index=None):
        self.columns, self.index = dict(columns), index

    def __setitem__(self, k, v):
        expect(k not in self.columns, 'a new column')
        self.columns[k] = v


@unit(UNITS, 'as_data_frame', [UD + ':UngriddedData.as_data_frame', UD + ':_coords_as_data_frame', UD + ':_to_flat_ndarray'],
      max_paths=3000)
def u_frame(E):
    two = E.choose('two dimensions')
    shape = shape_of(E, two)
    d, cs, v = complete(E, shape, NAMES[:2] + NAMES[4:])
    other = M(CO).Coord(fresh_array('other', shape, 'r'), M(UD).Metadata('depth', long_name='depth', units='m'))
    if E.choose('a coordinate without standard name'):
        d._coords.append(other)
        cs = cs + [other]
    override('pandas', DataFrame=Frame)
    E.cover()
    copy = E.choose('copy')
    f = d.as_data_frame(copy=copy, time_index=False, name='vals')
    N, un, fl = A.flatmap(shape) if two else (shape[0], lambda k: (k,), None)
    E.prove('a column for every coordinate and one for the data', z3.BoolVal(
        sorted(f.columns) == sorted(['vals'] + [c.name() for c in cs])))
    k = Int('k')
    h = zbool(in_range(k, N))
    for nm, orig in [('vals', v)] + [(c.name(), c._data) for c in cs]:
        got = asarr(f.columns.get(nm, np.zeros(0)))
        E.prove('length of ' + nm, z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(N)))
        g, o = lift(got.at(k)), orig.at(*un(k.e))
        m = zbool(orig.mask_at(*un(k.e)))
        E.prove(nm + ' is NaN if and only if it is missing, else the value of the point', Bool(z3.Implies(h, z3.If(
            m, zbool(g.isnan()), zbool(same(g, o))))))


@unit(UNITS, 'hyper_point', [UD + ':UngriddedData.hyper_point', UD + ':UngriddedCoordinates.hyper_point'])
def u_hp(E):
    shape = shape_of(E, False)
    d, cs, v = complete(E, shape, NAMES)
    i = Int('i')
    E.restrict(in_range(i, shape[0]))
    coords = E.choose('coordinates only')
    x = M(UD).UngriddedCoordinates(d._coords) if coords else d
    E.cover()
    is_point(E, 'hyper_point', x.hyper_point(i), [c._data for c in cs], None if coords else v, i.e)


def from_points(count):
    @unit(UNITS, 'from_points_array [%d]' % count, [UD + ':UngriddedData.from_points_array', HP + ':HyperPointList.vals',
                                                     HP + ':HyperPointList.latitudes', HP + ':HyperPointList.longitudes',
                                                     HP + ':HyperPointList.altitudes', HP + ':HyperPointList.air_pressures',
                                                     HP + ':HyperPointList.times', HP + ':HyperPoint.__new__'])
    def u(E):
        quiet()
        has = [E.choose('has ' + nm) for nm in NAMES]
        if not any(has):
            return
        cs = [[Real('%s%d' % (nm, j)) if h else None for j in range(count)] for nm, h in zip(NAMES, has)]
        vs = [Real('v%d' % j) for j in range(count)]
        pts = [M(HP).HyperPoint(*([c[j] for c in cs] + [vs[j]])) for j in range(count)]
        patch(npmodel.np_mod, 'zeros', npmodel.m_zeros)
        E.cover()
        d = M(UD).UngriddedData.from_points_array(pts)
        E.prove('number of points', lift(asarr(d.data).shape[0]) == count)
        E.prove('the coordinates of the points', z3.BoolVal(sorted(c.standard_name for c in d.coords()) == sorted(
            nm for nm, h in zip(NAMES, has) if h)))
        for j in range(count):
            E.prove('value %d' % j, same(asarr(d.data).at(j), vs[j]))
            for nm, h, c in zip(NAMES, has, cs):
                if h:
                    E.prove('%s of point %d' % (nm, j), same(asarr(d.coord(standard_name=nm).data).at(j), c[j]))


for _c in (1, 2, 3):
    from_points(_c)


@unit(UNITS, 'HyperPoint.modified', [HP + ':HyperPoint.modified', HP + ':HyperPoint.get_coord_tuple'])
def u_mod(E):
    old = [Real('old ' + nm) for nm in NAMES]
    p = M(HP).HyperPoint(*(old + [Real('old value')]))
    which = [E.choose('new ' + nm) for nm in NAMES]
    new = [Real('new ' + nm) if w else None for nm, w in zip(NAMES, which)]
    E.cover()
    q = p.modified(*new)
    for j, nm in enumerate(NAMES):
        E.prove('%s of the new point' % nm, same(q[j], new[j] if which[j] else old[j]))
        E.prove('%s of the old point' % nm, same(p[j], old[j]))
    E.prove('value', same(q.val[0], p.val[0]))


# ---- bounded: data frames, slices and the whole chain on the real code ------------------------------------------------------
RULE = ('Random ungridded data of 1 to 9 points in 1 or 2 dimensions with any of the standard coordinates and another, some '
        'points without a coordinate (masked or NaN), masked data, two variables which share their coordinates; random gridded '
        'data of 1 to 3 dimensions, standard, other, of size one or without coordinate, in any order.')
BOUNDED_FUNCTIONS = [UD + ':UngriddedData.as_data_frame', UD + ':UngriddedDataList.as_data_frame', UD + ':_coords_as_data_frame',
                     UD + ':UngriddedData.__getitem__', UD + ':UngriddedData.from_points_array',
                     UD + ':UngriddedData.get_all_points', UD + ':UngriddedData.get_non_masked_points',
                     UD + ':UngriddedData.get_coordinates_points', UD + ':UngriddedCoordinates.get_all_points',
                     'cis.data_io.gridded_data:GriddedData.get_all_points',
                     'cis.data_io.gridded_data:GriddedData.get_non_masked_points',
                     'cis.data_io.gridded_data:GriddedData.get_coordinates_points',
                     'cis.data_io.gridded_data:GriddedData.find_standard_coords']


def cases(rng, tier, scale):
    for _ in range(int((500 if tier == 'quick' else 3000) * scale)):
        if rng.random() < 0.6:
            two = rng.random() < 0.35
            shape = [rng.randint(1, 3), rng.randint(1, 3)] if two else [rng.randint(1, 9)]
            n = int(np.prod(shape))
            names = rng.sample(NAMES, rng.randint(1, 5)) + (['depth'] if rng.random() < 0.3 else [])
            rng.shuffle(names)
            lack = rng.choice([0, 0, 0.1, 0.4])
            coords, cmask = {}, {}
            for nm in names:
                v = [float(rng.randint(-80, 80)) if nm != 'time' else rng.randint(0, 400) * 0.25 + 50000. for _ in range(n)]
                if rng.random() < 0.3:
                    v = [float('nan') if rng.random() < lack else x for x in v]
                elif rng.random() < 0.4:
                    cmask[nm] = [int(rng.random() < lack) for _ in range(n)]
                coords[nm] = v
            if all(any(ismiss(coords[nm][j], cmask.get(nm), j) for nm in names) for j in range(n)):
                continue
            d = dict(coords=coords, cmask=cmask, shape=shape, vals=[rng.randint(-50, 50) / 4. for _ in range(n)])
            if rng.random() < 0.5:
                d['mask'] = [int(rng.random() < 0.4) for _ in range(n)]
            yield dict(kind='ungridded', d=d, second=[float(rng.randint(0, 99)) for _ in range(n)],
                       at=rng.randint(0, 8), new=[float(rng.randint(0, 99)) for _ in range(n)],
                       slice=sorted(rng.sample(range(0, 11), 2)) + [rng.choice([1, 1, 2, 3])])
        else:
            names = rng.sample(NAMES + ['depth', 'band'], rng.randint(1, 3))
            dims = []
            for nm in names:
                k = rng.choice([1, 2, 3])
                p = sorted(rng.sample(range(-80, 80), k), reverse=rng.random() < 0.3)
                dims.append(dict(name=nm, points=[float(x) for x in p]))
                if rng.random() < 0.15:
                    dims[-1]['anonymous'] = True
            n = int(np.prod([len(c['points']) for c in dims]))
            d = dict(dims=dims, data=[rng.randint(-50, 50) / 4. for _ in range(n)])
            if rng.random() < 0.6:
                d['mask'] = [int(rng.random() < 0.4) for _ in range(n)]
            if rng.random() < 0.3:
                d['aux'] = [dict(name='time', points=[3.0], dims=[])] if 'time' not in names else []
            yield dict(kind='gridded', d=d)


def ismiss(v, mask, j):
    return bool(v != v or (mask is not None and mask[j]))


def point(p):
    v = p[5]
    return [None if x is None else float(x) for x in p[:5]] + [[None if x is np.ma.masked else float(x) for x in v]]


def table(names, rows):
    """expected points: one [5 standard coordinates, [value]] per row"""
    return [[r[nm] if nm in names else None for nm in NAMES] + [r['value']] for r in rows]


def views(what, v, want, wanted_skip, skip):
    k = [w for w in want if w[5] != [None]]
    tests = [('length', len(v), len(want)),
             ('points by index', [point(v[j]) for j in range(len(want))], want),
             ('iteration', [point(p) for p in v], k if skip else want),
             ('iter_all_points', [point(p) for p in v.iter_all_points()], want),
             ('iter_non_masked_points', [point(p) for p in v.iter_non_masked_points()], k),
             ('enumerate_all_points', [(int(i), point(p)) for i, p in v.enumerate_all_points()], list(enumerate(want))),
             ('enumerate_non_masked_points', [(int(i), point(p)) for i, p in v.enumerate_non_masked_points()],
              [(i, w) for i, w in enumerate(want) if w[5] != [None]])]
    for name, got, exp in tests:
        if got != exp:
            return '%s: %s gives %r instead of %r' % (what, name, got, exp)


def check_ungridded(case):
    import cis.data_io.ungridded_data as U
    d = case['d']
    names = list(d['coords'])
    n = len(d['vals'])
    keep = [j for j in range(n) if not any(ismiss(d['coords'][nm][j], d['cmask'].get(nm), j) for nm in names)]
    mask = d.get('mask') or [0] * n

    def rows(values, msk, idx):
        return [dict([(nm, d['coords'][nm][j]) for nm in names], value=[None if msk[j] else values[j]]) for j in idx]

    coords = C.coord_list(d)
    shape = d['shape']
    one = U.UngriddedData(C.nparr(d['vals'], d.get('mask'), shape=shape), U.Metadata(name='v', long_name='v', units='K'), coords)
    two = U.UngriddedData(C.nparr(case['second'], None, shape=shape), U.Metadata(name='w', long_name='w', units='K'), coords)
    both = [('the data', one, rows(d['vals'], mask, keep)), ('the second data', two, rows(case['second'], [0] * n, keep))]
    for what, x, want in both:
        r = columns(what, x, names, want) or views(what + ' all points', x.get_all_points(), table(names, want), None, False) \
            or views(what + ' non-missing points', x.get_non_masked_points(), table(names, want), None, True)
        if r:
            return r
    bare = table(names, [dict(r, value=[]) for r in both[0][2]])
    r = views('coordinates of the data', one.get_coordinates_points(), bare, None, False)
    if r:
        return r
    u = U.UngriddedCoordinates(C.coord_list(d))
    r = views('the coordinates', u.get_all_points(), bare, None, False) or views(
        'the coordinates, non-missing', u.get_non_masked_points(), bare, None, True)
    if r:
        return r
    want = both[0][2]
    if all(nm in names for nm in NAMES):
        j = case['at'] % len(keep)
        got, exp = point(list(one.hyper_point(j)[:5]) + [list(one.hyper_point(j)[5])]), table(names, want)[j]
        if got != exp:
            return 'hyper_point %d is %r instead of %r' % (j, got, exp)
    for skip in (False, True):
        pts = list(one.get_non_masked_points() if skip else two.get_all_points())
        exp = [r for r in want if r['value'] != [None]] if skip else both[1][2]
        if pts:
            back = U.UngriddedData.from_points_array(pts)
            r = columns('data made from the points', back, [nm for nm in names if nm in NAMES], exp)
            if r:
                return r
    same = one.copy()
    r = columns('a copy', same, names, want)
    if r:
        return r
    if len(keep) == n or len(shape) == 1:
        a, b, st = case['slice']
        if len(shape) == 1 and len(range(*slice(a, b, st).indices(len(keep)))):
            r = columns('a slice', one[a:b:st], names, want[a:b:st])
            if r:
                return r
        new = np.array(case['new'])[:len(keep)]
        r = columns('new data with the same coordinates', one.make_new_with_same_coordinates(
            data=new.reshape(one.data.shape), var_name='z', units='1', flatten=case['at'] % 2 == 0), names,
            [dict(r, value=[x]) for r, x in zip(want, new.tolist())])
        if r:
            return r
    data = U.UngriddedDataList([one, two])
    f = data.as_data_frame()
    cols = dict((nm, [r[nm] for r in want]) for nm in names if nm != 'time')
    cols.update(v=[r['value'][0] for r in want], w=[r['value'][0] for r in both[1][2]])
    if 'time' in names:
        t = [(x - __import__('datetime').datetime(1600, 1, 1)).total_seconds() / 86400. for x in
             [__import__('datetime').datetime(i.year, i.month, i.day, i.hour, i.minute, i.second) for i in f.index]]
        if not C.same_vals(t, [r['time'] for r in want]):
            return 'the times of the data frame are %r instead of %r' % (t, [r['time'] for r in want])
    if sorted(f.columns) != sorted(cols):
        return 'the columns of the data frame are %r instead of %r' % (sorted(f.columns), sorted(cols))
    for nm in cols:
        if not C.same_vals([float(x) for x in f[nm]], cols[nm]):
            return 'the column %s of the data frame is %r instead of %r' % (nm, list(f[nm]), cols[nm])


def columns(what, x, names, want):
    if sorted(c.name() for c in x.coords()) != sorted(names):
        return '%s has the coordinates %r instead of %r' % (what, sorted(c.name() for c in x.coords()), sorted(names))
    for nm, got, exp in [('value', x.data, [r['value'][0] for r in want])] + [
            (nm, x.coord(nm).data, [r[nm] for r in want]) for nm in names]:
        if not C.same_vals(C.vals(got), exp):
            return '%s: %s is %r instead of %r' % (what, nm, C.vals(got), exp)
    if not C.same_vals(C.vals(x.data_flattened), [r['value'][0] for r in want]):
        return '%s: data_flattened is %r' % (what, C.vals(x.data_flattened))
    for nm, c in zip(NAMES, x.coords_flattened):
        if (c is None) != (nm not in names) or c is not None and not C.same_vals(C.vals(c), [r[nm] for r in want]):
            return '%s: coords_flattened has %s %r' % (what, nm, c)


def check_gridded(case):
    d = case['d']
    g = C.cube(d)
    shape = [len(c['points']) for c in d['dims']]
    mask = d.get('mask') or [0] * len(d['data'])
    names = [c['name'] for c in d['dims'] if c['name'] in NAMES and not c.get('anonymous')]
    want = []
    for j, ix in enumerate(np.ndindex(*shape)):
        r = dict((c['name'], c['points'][i]) for c, i in zip(d['dims'], ix))
        r['value'] = [None if mask[j] else d['data'][j]]
        want.append(r)
    want = table(names, want)
    for what, v, skip in (('all points', g.get_all_points(), False), ('non-missing points', g.get_non_masked_points(), True),
                          ('coordinates points', g.get_coordinates_points(), False)):
        k = [w for w in want if w[5] != [None]]
        tests = [('length', len(v), len(want)),
                 ('cells by position', [point(v[j]) for j in range(len(want))], want),
                 ('cells by indices', [point(v[ix]) for ix in np.ndindex(*shape)], want),
                 ('iteration', [point(p) for p in v], k if skip else want),
                 ('iter_all_points', [point(p) for p in v.iter_all_points()], want),
                 ('iter_non_masked_points', [point(p) for p in v.iter_non_masked_points()], k),
                 ('enumerate_non_masked_points', [(int(i), point(p)) for i, p in v.enumerate_non_masked_points()],
                  [(i, w) for i, w in enumerate(want) if w[5] != [None]])]
        for name, got, exp in tests:
            if got != exp:
                return '%s: %s gives %r instead of %r' % (what, name, got, exp)


def check(case):
    return check_ungridded(case) if case['kind'] == 'ungridded' else check_gridded(case)


def nontrivial(case):
    d = case['d']
    if case['kind'] == 'gridded':
        return len(d['dims']) > 1
    return any(x != x for v in d['coords'].values() for x in v) or any(any(m) for m in d['cmask'].values())
