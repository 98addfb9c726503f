"""C03 subsetting of gridded data"""
from vc.api import *
from props import common as C

ID = 'C03'
LEVEL = 'proof'
PROPERTY = dict(
    title='Subsetting gridded data keeps exactly the cells inside the limits',
    statement='Subsetting gridded data keeps, along each limited dimension, exactly the cells inside the limits, both ends '
              'included (points for coordinates without bounds; for latitude/longitude with bounds, cells overlapping the '
              'limits; longitudes are circular). With a shape, every cell whose point is outside of the shape is masked and '
              'cells inside keep their value or mask. Each kept cell keeps its value, mask, coordinates and bounds (longitude '
              'up to a whole turn); the result is None when nothing is left. All variables of a list are subset alike and the '
              'input is not altered.',
    over=['inputs'],
    text='every limit value, grid and shape of the data; iris extract/intersection trusted (exercised bounded)',
    why='Tests use two or three small grids; masks, dimension order, limits on points and both longitude conventions need '
        'specific inputs.',
    files=['cis/subsetting/subset.py', 'cis/data_io/gridded_data.py'],
    mechanism=[('constraints', 'cis/subsetting/subset.py: GriddedSubsetConstraint._make_extract_and_intersection_constraints'),
               ('selection', 'cis/subsetting/subset.py: GriddedSubsetConstraint.constrain'),
               ('shape mask', 'cis/subsetting/subset.py: _get_gridded_subset_region_indices')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); iris selection itself bounded'
NOTE = ('Proved: every limit reaches iris as the right predicate or range, the shape mask for every 2-d grid and dimension '
        'order. The selection done by iris (extract, intersection) and shapely.contains are trusted, and exercised by a '
        'bounded comparison with a brute-force oracle.')
ASSUMPTIONS = ['iris.cube.Cube.extract / intersection behave as documented (bounded check only)',
               'shapely.contains is trusted', 'floating point treated as real arithmetic']
SUB = 'cis.subsetting.subset'


class FConstraint(object):
    """iris.Constraint: a conjunction of per-coordinate predicates"""

    def __init__(self, **kw):
        self.preds = list(kw.items())

    def __and__(self, o):
        r = FConstraint()
        r.preds = self.preds + o.preds
        return r


def iris_mod(mod):
    patch(mod.iris, 'Constraint', FConstraint)


@unit(UNITS, '_make_extract_and_intersection_constraints',
      [SUB + ':GriddedSubsetConstraint._make_extract_and_intersection_constraints'])
def u1(E):
    mod = M(SUB)
    iris_mod(mod)
    names = ['a', 'b', 'c']
    lo, hi = {}, {}
    modulus = {}
    for x in names:
        lo[x], hi[x] = Real('lo_' + x), Real('hi_' + x)
        modulus[x] = 360 if E.choose('modulus_' + x) else None
    data = types.SimpleNamespace(coord=lambda x: types.SimpleNamespace(units=types.SimpleNamespace(modulus=modulus[x])))
    c = mod.GriddedSubsetConstraint({x: slice(lo[x], hi[x]) for x in names})
    E.cover()
    ext, inter = c._make_extract_and_intersection_constraints(data)
    v = {x: Real('v_' + x) for x in names}
    bound = {x: (Real('bl_' + x), Real('bu_' + x)) if E.choose('bounds_' + x) else None for x in names}
    for x in names:
        ps = [f for k, f in ext.preds if k == x]
        sel = Bool(z3.BoolVal(True))
        for f in ps:
            sel = and_(sel, Bool(zbool(f(types.SimpleNamespace(point=v[x], bound=bound[x])))))
        if x in inter:
            E.prove('only circular coordinates use the intersection', z3.BoolVal(modulus[x] is not None))
            E.prove('range handed to the intersection', and_(lift(inter[x][0]) == lo[x], lift(inter[x][1]) == hi[x]))
            E.prove('no other restriction', sel)
        else:
            E.prove('a cell is extracted iff its point is within the limits', iff(sel, and_(v[x] >= lo[x], v[x] <= hi[x])))
    E.prove('no other coordinate is restricted', z3.BoolVal({k for k, _ in ext.preds} | set(inter) == set(names)))


class FCube(object):
    """2-d cube seen through its contract: shape, ndim, data, extract/intersection recorded"""
    _vc_symbolic = True

    def __init__(self, log, data=None, x=None, y=None, xfirst=False):
        self.log, self._data, self.xc, self.yc, self.xfirst = log, data, x, y, xfirst

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, v):
        self._data = v

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return len(self.shape)

    def extract(self, c):
        self.log.append(('extract', c))
        return None if eng.CUR.choose('extract_none') else self

    def intersection(self, **k):
        self.log.append(('intersection', k))
        if eng.CUR.choose('intersection_none'):
            raise IndexError('nothing')
        return self

    def coord(self, axis=None):
        return {'X': self.xc, 'Y': self.yc}[axis]

    def coord_dims(self, c):
        return ((0,) if (c is self.xc) == self.xfirst else (1,))


@unit(UNITS, 'GriddedSubsetConstraint.constrain', [SUB + ':GriddedSubsetConstraint.constrain'], timeout_ms=20000)
def u2(E):
    mod = M(SUB)
    iris_mod(mod)
    ny, nx = Int('ny'), Int('nx')
    E.assume(and_(ny >= 1, nx >= 1))
    masked = E.choose('masked')
    orig = fresh_array('data', (ny, nx), masked=masked)
    old = orig.copy()
    log = []
    cube = FCube(log, orig)
    with_shape = E.choose('shape')
    inter = E.choose('intersection')
    G = mod.gridded_data
    patch(G, 'make_from_cube', lambda c: c)
    lims = {'lon': slice(Real('a'), Real('b')), 'alt': slice(Real('c'), Real('d'))}
    if with_shape:
        lims['shape'] = 'SHAPE'
    inside = z3.Function('inside', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    cons = FConstraint(alt=None)
    c = mod.GriddedSubsetConstraint(dict(lims))
    seen = []

    def make(self, d):
        seen.append(dict(self._limits))
        return cons, ({'lon': (1, 2)} if inter else {})
    patch(mod.GriddedSubsetConstraint, '_make_extract_and_intersection_constraints', make)
    use('_make_extract_and_intersection_constraints')

    def region(d, shape):
        use('_get_gridded_subset_region_indices: the flat (row-major) indices of the cells whose point is in the shape')
        expect(shape == 'SHAPE')
        N, un, fl = arr.flatmap((ny, nx))
        m = Int('nin')
        E.assume(m >= 0)
        f = z3.Function('idx', z3.IntSort(), z3.IntSort())
        k, p, q = qint('k'), qint('p'), qint('q')
        E.assume(forall(k, z3.Implies(z3.And(0 <= k, k < m.e), z3.And(0 <= f(k), f(k) < iterm(N), inside(*un(f(k)))))))
        g = z3.Function('idxinv', z3.IntSort(), z3.IntSort(), z3.IntSort())
        E.assume(forall([p, q], z3.Implies(z3.And(in_range(p, ny), in_range(q, nx), inside(p, q)), z3.And(
            0 <= g(p, q), g(p, q) < m.e, f(g(p, q)) == fl((p, q)))), patterns=[inside(p, q)]))
        E.memo['inv'] = g
        return SArr((m,), lambda i: Num(f(i[0])), 'i')
    patch(mod, '_get_gridded_subset_region_indices', region)
    E.cover()
    r = c.constrain(cube)
    expect(len(seen) == 1)
    E.prove('all coordinate limits are used, and the shape is not taken for one', z3.BoolVal(set(seen[0]) == {'lon', 'alt'}))
    E.prove('the extraction is done first, then the intersection if there is one', z3.BoolVal(
        log[0] == ('extract', cons) and (log[1:] == ([('intersection', {'lon': (1, 2)})] if inter else []) or r is None)))
    y, x = Int('y'), Int('x')
    E.assume(z3.And(in_range(y, ny), in_range(x, nx)))
    if r is None:
        E.prove('None only when nothing is left', z3.BoolVal(True in E.decisions))
        return
    # name the witness of the cell
    m2 = r.data.mask_at(y, x)
    if with_shape:
        if E.decide(inside(y.e, x.e)):
            g = E.memo['inv'](y.e, x.e)
            E.prove('a cell inside is among the indices', g >= 0)
            E.prove('a cell inside the shape keeps its mask', iff(m2, old.mask_at(y, x)))
        else:
            E.prove('a cell outside of the shape is masked', m2)
    else:
        E.prove('mask unchanged', iff(m2, old.mask_at(y, x)))
    E.prove('values unchanged', same(r.data.at(y, x), old.at(y, x)))


@unit(UNITS, '_get_gridded_subset_region_indices', [SUB + ':_get_gridded_subset_region_indices'])
def u3(E):
    mod = M(SUB)
    nx, ny = Int('nx'), Int('ny')
    E.assume(and_(nx >= 1, ny >= 1))
    xp, yp = fresh_array('x', (nx,)), fresh_array('y', (ny,))
    xfirst = E.choose('xfirst')
    xc, yc = types.SimpleNamespace(points=xp), types.SimpleNamespace(points=yp)
    shape = (nx, ny) if xfirst else (ny, nx)
    cube = FCube([], SArr(shape, lambda i: 0.0), xc, yc, xfirst)
    got = []

    def points(a, b, region):
        use('_get_indices_for_lat_lon_points: the positions of the points (first, second) inside the region')
        got.append((a, b, region))
        return 'RESULT'
    patch(mod, '_get_indices_for_lat_lon_points', points)
    E.cover()
    r = mod._get_gridded_subset_region_indices(cube, 'SHAPE')
    expect(len(got) == 1)
    xs, ys, reg = got[0]
    E.prove('the region is the shape', z3.BoolVal(reg == 'SHAPE' and r == 'RESULT'))
    ix, iy = Int('ix'), Int('iy')
    E.assume(z3.And(in_range(ix, nx), in_range(iy, ny)))
    N, un, fl = arr.flatmap(shape)
    f = fl((ix.e, iy.e) if xfirst else (iy.e, ix.e))
    E.prove('one point per cell', z3.And(iterm(xs.shape[0]) == iterm(N), iterm(ys.shape[0]) == iterm(N)))
    E.prove('the x of a cell is at the flat index of the cell', same(xs.at(f), xp.at(ix)))
    E.prove('the y of a cell is at the flat index of the cell', same(ys.at(f), yp.at(iy)))


# ---- bounded stand-in -------------------------------------------------------------------------------------------------
SHARDS = 4
LIMIT_S = 25
RULE = ('grids of 1-6 x 1-4 (x 1-3) cells in every dimension order, ascending or descending, with or without bounds, masks and '
        'auxiliary coordinates; limits on, next to and off the points, in either longitude convention; shapes; lists')
BOUNDED_FUNCTIONS = ['GriddedData.subset', 'GriddedDataList.subset', 'iris extract/intersection', 'shape selection']


def cases(rng, tier, scale):
    while True:
        nx, ny, nz = rng.randrange(1, 7), rng.randrange(1, 5), rng.randrange(1, 4)
        lb = rng.choice([-180., 0.])
        lon = C.grid_points(rng, lb, lb + 359, nx)
        lat = C.grid_points(rng, -80, 80, ny)
        alt = C.grid_points(rng, 0, 1000, nz)
        X, Y, Z = dict(name='longitude', points=lon), dict(name='latitude', points=lat), dict(name='altitude', points=alt)
        dims = [X, Y, Z] if rng.random() < .4 else [X, Y]
        rng.shuffle(dims)
        for c in dims:
            if c is not X and rng.random() < .25:
                c['points'] = c['points'][::-1]
            if len(c['points']) > 1 and rng.random() < .35:
                c['guess'] = True
        if rng.random() < .5:
            # the kind of cells of a coordinate which is not circular is irrelevant
            k, Z['guess'] = rng.randrange(4), False
            Z['bounds'] = [[[p, p], [p, p + .0625], [p - .03125, p + .0625], [p - .0625, p]][k] for p in Z['points']]
            if sorted(Z['points']) != Z['points']:
                Z['bounds'] = [b[::-1] for b in Z['bounds']]
        n = 1
        for c in dims:
            n *= len(c['points'])
        lims = {}

        def lim(pts, a, b):
            k = rng.random()
            if k < .6:
                x, y = sorted([rng.choice(pts) + rng.choice([0, 0, .125, -.125, 3, -3, C.TINY, -C.TINY]) for _ in range(2)])
            else:
                x, y = sorted([C.q(rng.uniform(a, b)) for _ in range(2)])
            return [x, y]
        l2 = rng.choice([-180., 0., lb])
        if rng.random() < .7:
            l = lim(lon, l2, l2 + 360)
            t = rng.choice([0, 0, 360, -360])
            lims[rng.choice(['longitude', 'x', 'lon'])] = [l[0] + t, l[1] + t]
        if rng.random() < .5:
            lims[rng.choice(['latitude', 'y'])] = lim(lat, -90, 90)
        if Z in dims and rng.random() < .7:
            lims[rng.choice(['altitude', 'alt'])] = lim(alt, 0, 1000)
        aux = []
        if rng.random() < .4:
            aux = [dict(name='tag', points=[7. * i for i in range(len(dims[0]['points']))], dims=[0])]
        shape = None
        if len(dims) == 2 and rng.random() < .35:
            lims = {}
            cx, cy = rng.choice(lon) + 1.3 + rng.choice([0, 0, 360, -360]), rng.choice(lat) + .7
            r = rng.choice([10., 50., 100.])
            shape = [[cx - r, cy - r * .6], [cx + r, cy - r * .6], [cx, cy + r * .6]] if rng.random() < .6 else \
                [[cx - r, cy - r * .6], [cx + r, cy - r * .6], [cx + r, cy + r * .6], [cx, cy - .3], [cx - r, cy + r * .6]]
        if not lims and not shape:
            continue
        yield dict(dims=dims, data=[float(i + 1) for i in range(n)], mask=C.maybe_mask(rng, n, .5), aux=aux, lims=lims,
                   shape=shape, form=rng.choice(['slice', 'list']), extra=rng.randrange(0, 3) if not shape and
                   rng.random() < .3 else None, int=rng.random() < .15)


AX = dict(x='longitude', y='latitude', lon='longitude', alt='altitude')


def check(c):
    from cis.data_io.gridded_data import GriddedDataList
    import warnings
    g = C.cube(dict(c, dtype=int if c['int'] else float))
    objs = [g]
    if c['extra'] is not None:
        for e in range(c['extra']):
            objs.append(g.make_new_with_same_coordinates(data=g.data.copy() * (e + 2), var_name='w%d' % e, history='h'))
        src = GriddedDataList(objs)
    else:
        src = g
    before = C.snap(objs)
    kw = {k: (slice(*v) if c['form'] == 'slice' else list(v)) for k, v in c['lims'].items()}
    poly = None
    if c['shape']:
        from shapely.geometry import Polygon, Point
        poly = Polygon(c['shape'])
        if poly.bounds[2] - poly.bounds[0] > 359:
            return
        kw['shape'] = poly if c['form'] == 'slice' else poly.wkt
    lims = dict((AX.get(k, k), v) for k, v in c['lims'].items())
    if poly is not None:
        b = poly.bounds
        lims = dict(longitude=[b[0], b[2]], latitude=[b[1], b[3]])
    keep = []
    for d in g.coords(dim_coords=True):
        pts = d.points.tolist()
        if d.name() not in lims:
            keep.append(list(range(len(pts))))
            continue
        a, b = lims[d.name()]
        if b - a > 360 and d.name() == 'longitude':
            return
        out = []
        for i, p in enumerate(pts):
            turns = (-720, -360, 0, 360, 720) if d.name() == 'longitude' else (0,)
            if d.name() == 'altitude' or d.bounds is None:
                ins = any(a <= p + t <= b for t in turns)
            else:
                l, u = sorted(d.bounds[i].tolist())
                # cells which only touch the limits are not claimed either way
                if any(abs(l + t - b) < 1e-6 or abs(u + t - a) < 1e-6 for t in turns):
                    return
                ins = any(l + t <= b and u + t >= a for t in turns)
            if ins:
                out.append(i)
        keep.append(out)
    try:
        r = src.subset(**kw)
    except ValueError as e:
        if 'greater than' in str(e):
            return
        raise
    if C.snap(objs) != before:
        return 'the input was altered'
    if not all(keep):
        return None if r is None else 'nothing is within the limits but got %s' % r
    if r is None:
        return 'cells %r are within the limits but got None' % keep
    rs = list(r) if c['extra'] is not None else [r]
    if len(rs) != len(objs):
        return '%d variables became %d' % (len(objs), len(rs))
    for s, r1 in zip(objs, rs):
        e = cells(s, keep, poly)
        if e is None:
            return
        got = cells(r1, None, None)
        if got != e:
            return 'cells %r, expected %r' % (got, e)
        if r1.var_name != s.var_name or r1.units != s.units:
            return 'metadata changed'
        for d in r1.coords(dim_coords=True):
            if d.name() == 'longitude' and 'longitude' in lims and d.bounds is None:
                a, b = lims['longitude']
                if not all(a - 1e-6 <= p <= b + 1e-6 for p in d.points):
                    return 'longitudes %r outside of the limits %r' % (d.points.tolist(), (a, b))


def cells(g, keep, poly):
    """{place: value and everything attached} of the kept cells"""
    import itertools
    from shapely.geometry import Point
    out = {}
    data = np.ma.asanyarray(g.data)
    dcs = [g.coords(dimensions=i, dim_coords=True) for i in range(g.ndim)]
    dcs = [d[0] for d in dcs]
    scal = [(d.name(), float(d.points[0]), d.bounds) for d in g.coords(dimensions=()) if d.name() in C.STD]
    for ix in itertools.product(*(keep or [range(s) for s in g.shape])):
        key, b, pt = [], [], {}
        for n, p, bb in scal:
            key.append((n, round(C.mod360(p), 6) % 360 if n == 'longitude' else round(p, 6)))
            b.append((n, None if bb is None else [round(float(v) - p, 6) for v in bb[0]]))
        for d, i in zip(dcs, ix):
            p = float(d.points[i])
            pt[d.name()] = p
            b.append((d.name(), None if d.bounds is None else [round(float(v) - p, 6) for v in d.bounds[i]]))
            key.append((d.name(), round(C.mod360(p), 6) % 360 if d.name() == 'longitude' else round(p, 6)))
        v = data[ix]
        v = None if v is np.ma.masked else float(v)
        if poly is not None:
            cand = [Point(pt['longitude'] + t, pt['latitude']) for t in (-720, -360, 0, 360, 720)]
            if any(poly.exterior.distance(q) < 1e-7 for q in cand):
                return None
            if not any(poly.contains(q) for q in cand):
                v = None
        att = []
        for a in g.aux_coords:
            if a.name() in C.STD:
                continue
            ds = g.coord_dims(a)
            v2 = a.points[tuple(ix[k] for k in ds)] if ds else a.points
            att.append((a.name(), np.ravel(v2).tolist()))
        out[tuple(sorted(key))] = (v, sorted(b, key=str), att)
    return out
