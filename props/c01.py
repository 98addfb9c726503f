"""C01 longitudes"""
from vc.api import *
from props import common as C

ID = 'C01'
LEVEL = 'proof'
PROPERTY = dict(
    title='Longitude re-ranging keeps every point in its geographical place',
    statement='Setting the longitude range of any dataset, coordinate or point view to start at s leaves every longitude '
              'in [s, s+360) and changes each one only by a whole number of turns. For gridded data (ascending longitude '
              'dimension spanning less than a turn, at most one turn from the range) the data values, masks, cell bounds '
              'and auxiliary coordinates are rolled together, so each value stays attached to the same place, and the '
              'longitudes stay ascending. No other coordinate, no data value and no other dataset is altered.',
    over=['inputs'],
    text='every array length, longitude values, range start, data values, masks, bounds and auxiliary coordinates '
         '(lon within one turn of the range for the gridded data and point views)',
    why='The tests sample a few fixed grids and starts; the claim is over all longitudes, starts and shapes, including '
        'points exactly at the range limits, and grids lying wholly on one side of the range.',
    files=['cis/utils.py', 'cis/data_io/Coord.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/gridded_data.py',
           'cis/data_io/hyperpoint_view.py', 'cis/data_io/common_data.py'],
    mechanism=[('wrapping of longitude values', 'cis/utils.py: fix_longitude_range'),
               ('rolling of gridded data', 'cis/data_io/gridded_data.py: GriddedData.set_longitude_range'),
               ('views', 'cis/data_io/hyperpoint_view.py: set_longitude_range')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5), gridded roll and views proved for all sizes'
NOTE = ('All obligations are generated from the current source of the five functions; iris cube accessors and wrap_lons '
        'are trusted contracts; floats are treated as reals.')
ASSUMPTIONS = ['floating point treated as real arithmetic',
               'iris.analysis.cartography.wrap_lons and the Cube accessors (coords, dim_coords, aux_coords, coord_dims, '
               'replace_coord, data) behave as documented']


def wrap_lons_contract(lons, base, period):
    """trusted contract of iris.analysis.cartography.wrap_lons: ((x - base) % period) + base, element by element"""
    eng.CUR.axioms.add('iris.analysis.cartography.wrap_lons(x, base, period) = ((x - base) mod period) + base, '
                       'pointwise, masks kept')
    return ((lons - base) % period) + base


def iris_stub():
    m = types.ModuleType('iris.analysis.cartography')
    m.wrap_lons = wrap_lons_contract
    shadow.OVERRIDES['iris.analysis.cartography'] = m


def place(E, new, old, start, name):
    """new is within [start, start+360) and differs from old by a whole number of turns"""
    new, old, start = lift(new), lift(old), lift(start)
    E.prove(name + ': within [start, start+360)', and_(new >= start, new < start + 360))
    E.prove(name + ': same place (difference is a multiple of 360)', z3.IsInt((new.real() - old.real()) / 360))


@unit(UNITS, 'fix_longitude_range', ['cis.utils:fix_longitude_range'])
def u1(E):
    iris_stub()
    n = Int('n')
    E.assume(n >= 0)
    lons = fresh_array('lons', (n,), masked=True)
    start = Real('start')
    old = lons.copy()
    E.cover()
    r = M('cis.utils').fix_longitude_range(lons, start)
    i = Int('i')
    E.assume(in_range(i, n))
    place(E, r.at(i), old.at(i), start, 'each longitude')
    E.prove('length kept', iterm(r.shape[0]) == n.e)
    E.prove('missing stays missing', iff(r.mask_at(i), old.mask_at(i)))


@unit(UNITS, 'Coord.set_longitude_range', ['cis.data_io.Coord:Coord.set_longitude_range', 'cis.utils:fix_longitude_range'])
def u1b(E):
    iris_stub()
    K = M('cis.data_io.Coord').Coord
    n = Int('n')
    E.assume(n >= 0)
    lons = fresh_array('lons', (n,), masked=True)
    old = lons.copy()
    start = Real('start')
    c = Duck(K, _data=lons, _data_flattened=lons)
    E.cover()
    K.set_longitude_range(c, start)
    i = Int('i')
    E.assume(in_range(i, n))
    place(E, c._data.at(i), old.at(i), start, 'each longitude')
    E.prove('the flattened copy is not left stale', z3.BoolVal(c._data_flattened is None))


@unit(UNITS, 'UngriddedHyperPointView.set_longitude_range',
      ['cis.data_io.hyperpoint_view:UngriddedHyperPointView.set_longitude_range'])
def u2(E):
    V = M('cis.data_io.hyperpoint_view').UngriddedHyperPointView
    n = Int('n')
    E.assume(n >= 0)
    cs = [fresh_array(x, (n,)) for x in ('lat', 'lon', 'alt', 'pres', 'time')]
    data = fresh_array('vals', (n,), masked=True)
    start = Real('start')
    old = [c for c in cs]
    oldlon = cs[1].copy()
    view = V(cs, data)
    i = Int('i')
    E.assume(in_range(i, n))
    # precondition: at most one turn away
    E.assume(and_(oldlon.at(i) >= start - 360, oldlon.at(i) < start + 720))
    E.cover()
    view.set_longitude_range(start)
    place(E, view.coords[1].at(i), oldlon.at(i), start, 'each longitude')
    for k in (0, 2, 3, 4):
        E.prove('coordinate %d untouched' % k, z3.BoolVal(view.coords[k] is old[k]))
    E.prove('data untouched', z3.BoolVal(view.data is data))


GV = 'cis.data_io.hyperpoint_view'


@unit(UNITS, 'GriddedHyperPointView.set_longitude_range', [GV + ':GriddedHyperPointView.set_longitude_range'])
def u3(E):
    V = M(GV).GriddedHyperPointView
    n = Int('n')
    E.assume(n >= 1)
    lat = fresh_array('lat', (Int('nlat'),))
    lon = fresh_array('lon', (n,))
    old = lon.copy()
    start = Real('start')
    q = qint('q')
    E.assume(forall(q, z3.Implies(in_range(q, n), and_(old.at(q) >= start - 360, old.at(q) < start + 720))))
    view = Duck(V, coords=[lat, lon], dims_to_std_coords_map={0: 0, 1: 1}, num_dimensions=2)

    def inv(E, L, k):
        j = qint('j')
        v = lift(L.new_coord.at(j))
        o = lift(old.at(j))
        return [('the done ones are in place', forall(j, z3.Implies(z3.And(j >= 0, j < k.e), z3.And(
            v.real() >= start.real(), v.real() < start.real() + 360,
            z3.Or(v.real() == o.real(), v.real() == o.real() + 360, v.real() == o.real() - 360)))))]

    def hav(E, cur, k):
        cur.buf.fn = fresh_array('h_new', cur.shape, cur.kind, track=False).buf.fn
        return cur
    E.loops[(GV, 'GriddedHyperPointView.set_longitude_range', 0)] = LoopSpec(inv, havoc={'new_coord': hav})
    E.cover()
    V.set_longitude_range(view, start)
    i = Int('i')
    E.assume(in_range(i, n))
    place(E, view.coords[1].at(i), old.at(i), start, 'each longitude')
    E.prove('length kept', iterm(view.coords[1].shape[0]) == n.e)
    E.prove('latitudes untouched', z3.BoolVal(view.coords[0] is lat))


class FakeCoord(object):
    """an iris coordinate: points, bounds, copy(points, bounds)"""
    _vc_symbolic = True

    def __init__(self, name, points, bounds=None):
        self.standard_name, self.points, self.bounds = name, points, bounds

    def has_bounds(self):
        return self.bounds is not None

    def copy(self, points=None, bounds=None):
        if points is None:
            return FakeCoord(self.standard_name, self.points.copy(), None if self.bounds is None else self.bounds.copy())
        return FakeCoord(self.standard_name, points, bounds)

    def name(self):
        return self.standard_name


@unit(UNITS, 'GriddedData.set_longitude_range', ['cis.data_io.gridded_data:GriddedData.set_longitude_range'],
      timeout_ms=20000)
def u4(E):
    G = M('cis.data_io.gridded_data').GriddedData
    n, m = Int('nlon'), Int('nlat')
    E.assume(n >= 1)
    E.assume(m >= 0)
    lonp = fresh_array('lon', (n,))
    start = Real('start')
    E.assume(and_(start >= -1000, start <= 1000))
    a, b = qint('a'), qint('b')
    # precondition: ascending, spans less than a turn, at most one turn from the range
    E.assume(forall([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n.e), zbool(lift(lonp.at(a)) < lonp.at(b)))))
    E.assume(lift(lonp.at(n.e - 1)) < lift(lonp.at(0)) + 360)
    E.assume(lift(lonp.at(0)) >= start - 360)
    E.assume(lift(lonp.at(n.e - 1)) < start + 720)
    hasb = E.choose('bounds')
    lonb = fresh_array('lonb', (n, 2)) if hasb else None
    latp = fresh_array('lat', (m,))
    # an auxiliary coordinate along longitude whose value is the original position: says where each column came from
    tag = FakeCoord('tag', SArr((n,), lambda i: Num(i[0]), 'i'), fresh_array('tagb', (n, 2)) if hasb else None)
    # two-dimensional auxiliary coordinates, and one which does not span longitude
    aux2 = FakeCoord('aux2', fresh_array('aux2', (m, n)))
    aux3 = FakeCoord('aux3', fresh_array('aux3', (n, m)))
    auxl = FakeCoord('auxl', fresh_array('auxl', (m,)))
    lon = FakeCoord('longitude', lonp, lonb)
    lat = FakeCoord('latitude', latp)
    data = fresh_array('data', (m, n), masked=True)
    keep = {k: v.copy() for k, v in dict(lon=lonp, lat=latp, tagb=tag.bounds, aux2=aux2.points, aux3=aux3.points,
                                         auxl=auxl.points, data=data, lonb=lonb).items() if v is not None}
    dims = {'tag': (1,), 'aux2': (0, 1), 'aux3': (1, 0), 'auxl': (0,), 'longitude': (1,), 'latitude': (0,)}
    cube = Duck(G, dim_coords=[lat, lon], aux_coords=[tag, aux2, aux3, auxl], data=data)

    def replace(c):
        for l in (cube.dim_coords, cube.aux_coords):
            for k, o in enumerate(l):
                if o.name() == c.name():
                    l[k] = c
                    return
        raise KeyError(c.name())

    def coords(name=None, standard_name=None, **k):
        nm = standard_name or name
        return [c for c in cube.dim_coords + cube.aux_coords if nm is None or c.name() == nm]
    cube.__dict__.update(coords=coords, coord=lambda *x, **k: coords(*x, **k)[0], replace_coord=replace,
                         coord_dims=lambda c: dims[c if isinstance(c, str) else c.name()],
                         shape=(m, n), ndim=2)
    originals = (lat, lon, tag, aux2, aux3, auxl)
    E.cover()
    G.set_longitude_range(cube, start)
    new = {c.name(): c for c in cube.dim_coords + cube.aux_coords}
    j, y = Int('j'), Int('y')
    E.assume(in_range(j, n))
    E.assume(in_range(y, m))
    i = lift(new['tag'].points.at(j)).e             # the original position of the new column j
    E.prove('each column comes from an original column', z3.And(i >= 0, i < n.e))
    L = new['longitude']
    E.prove('number of longitudes kept', iterm(L.points.shape[0]) == n.e)
    place(E, L.points.at(j), keep['lon'].at(i), start, 'each longitude')
    E.prove('longitudes ascending', z3.Implies(j.e + 1 < n.e, zbool(lift(L.points.at(j)) < L.points.at(j.e + 1))))
    j2 = Int('j2')
    E.assume(in_range(j2, n))
    E.prove('no column is lost or doubled', z3.Implies(j2.e != j.e, lift(new['tag'].points.at(j2)).e != i))
    E.prove('data values move with their longitude', same(cube.data.at(y, j), keep['data'].at(y.e, i)))
    E.prove('masks move with their longitude', iff(cube.data.mask_at(y, j), keep['data'].mask_at(y.e, i)))
    off = lift(L.points.at(j)).real() - lift(keep['lon'].at(i)).real()
    E.prove('bounds kept or still absent', z3.BoolVal((L.bounds is not None) == hasb))
    if hasb and L.bounds is not None:
        for s in (0, 1):
            E.prove('bounds move with their longitude',
                    lift(L.bounds.at(j, s)).real() == lift(keep['lonb'].at(i, s)).real() + off)
            E.prove('auxiliary bounds move with their longitude',
                    same(new['tag'].bounds.at(j, s), keep['tagb'].at(i, s)))
    E.prove('auxiliary coordinate moves with its longitude', same(new['aux2'].points.at(y, j), keep['aux2'].at(y.e, i)))
    E.prove('transposed auxiliary coordinate moves with its longitude',
            same(new['aux3'].points.at(j, y), keep['aux3'].at(i, y.e)))
    E.prove('other auxiliary coordinate untouched', same(new['auxl'].points.at(y), keep['auxl'].at(y)))
    E.prove('latitudes untouched', same(new['latitude'].points.at(y), keep['lat'].at(y)))
    # frame: the coordinate objects (which other datasets may share) are not modified
    E.prove('original longitude coordinate object not modified', z3.And(
        z3.BoolVal(lon.points is lonp and lon.bounds is lonb), zbool(same(lonp.at(j), keep['lon'].at(j)))))
    E.prove('original auxiliary coordinate objects not modified', z3.And(
        z3.BoolVal(all(x.points is not None for x in originals)), lift(tag.points.at(j)).e == j.e,
        zbool(same(aux2.points.at(y, j), keep['aux2'].at(y, j)))))


# ---- bounded stand-in -------------------------------------------------------------------------------------------------
SHARDS = 4
LIMIT_S = 20
RULE = ('random and boundary longitudes / grids (1-8 columns, regular and irregular, whole and regional, with and without '
        'bounds, masks, 1-d and 2-d auxiliary coordinates, shared coordinates), random and boundary starts')
BOUNDED_FUNCTIONS = ['set_longitude_range of GriddedData, GriddedDataList, UngriddedData, UngriddedDataList, '
                     'UngriddedCoordinates, Coord, both hyperpoint views']


def lonlist(rng, start, n, turns):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .3:
            x = start + rng.choice([0, 360, -360, 180, .125, -.125, 359.875])
        else:
            x = C.q(rng.uniform(start - 360, start + 720))
        if turns:
            x += 360 * rng.choice([-2, -1, 0, 0, 1, 2])
        elif not start - 360 <= x < start + 720:
            x = start
        out.append(x)
    return out


def cases(rng, tier, scale):
    while True:
        start = rng.choice([-180., 0., -180., 0., 180., -360., 90., C.q(rng.uniform(-360, 360))])
        k = rng.random()
        if k < .45:
            kind = rng.choice(['fix', 'coord', 'ung', 'ungc', 'view', 'view', 'ulist'])
            n = rng.randrange(0 if kind in ('fix', 'coord') else 1, 7)
            c = dict(kind=kind, start=start, lon=lonlist(rng, start, n, kind not in ('view', 'gview')),
                     mask=C.maybe_mask(rng, n, .4))
            c['lat'] = [C.q(rng.uniform(-90, 90)) for _ in range(n)]
            c['vals'] = C.rand_vals(rng, n)
            yield c
        else:
            nx, ny = rng.randrange(1, 8), rng.randrange(1, 4)
            whole = rng.random() < .5
            base = rng.choice([-180., 0., start, start - 360, C.q(rng.uniform(start - 359, start + 300)), start + 359])
            if whole and nx > 1:
                lon = [base + 360. / nx * i for i in range(nx)] if 360 % nx == 0 else [base + 32 * i for i in range(nx)]
            else:
                lon = C.grid_points(rng, base, base + 350, nx, regular=rng.random() < .5)
            lon = [x for x in lon if start - 360 <= x < start + 720]
            if not lon or lon[-1] - lon[0] >= 360:
                continue
            nx = len(lon)
            order = rng.choice(['yx', 'xy', 'yxt'])
            n = nx * ny * (2 if order == 'yxt' else 1)
            b = None
            if rng.random() < .6:
                e = [lon[0] - 1] + [(p + q) / 2 for p, q in zip(lon, lon[1:])] + [lon[-1] + 1]
                b = [[e[i], e[i + 1]] for i in range(nx)]
            yield dict(kind=rng.choice(['cube', 'cube', 'cube', 'shared', 'gview', 'list']), start=start, lon=lon, bounds=b,
                       ny=ny, order=order, data=[float(i) for i in range(n)], mask=C.maybe_mask(rng, n, .4),
                       aux=rng.random() < .6, auxb=rng.random() < .5, circular=whole and nx > 1 and rng.random() < .5,
                       int=all(float(x).is_integer() for x in lon) and rng.random() < .2)


def build(c):
    nx, ny = len(c['lon']), c['ny']
    X = dict(name='longitude', points=c['lon'], bounds=c['bounds'], circular=c['circular'])
    Y = dict(name='latitude', points=[10. * i for i in range(ny)])
    T = dict(name='time', points=[1., 2.])
    dims = {'yx': [Y, X], 'xy': [X, Y], 'yxt': [Y, X, T]}[c['order']]
    xd, yd = dims.index(X), dims.index(Y)
    aux = []
    if c['aux']:
        aux = [dict(name='tag', points=[100. + i for i in range(nx)], dims=[xd],
                    bounds=[[100. + i, 200. + i] for i in range(nx)] if c['auxb'] else None),
               dict(name='two', points=[[1000. * j + i for i in range(nx)] for j in range(ny)], dims=[yd, xd],
                    bounds=[[[1000. * j + i, 7000. * j + i] for i in range(nx)] for j in range(ny)]
                    if c['auxb'] else None),
               dict(name='owt', points=[[1000. * j + i for j in range(ny)] for i in range(nx)], dims=[xd, yd]),
               dict(name='ony', points=[5. * j for j in range(ny)], dims=[yd])]
    g = C.cube(dict(dims=dims, data=c['data'], mask=c['mask'], aux=aux))
    if c['int']:
        x = g.coord('longitude')
        nb = None if x.bounds is None else x.bounds.copy()
        x.bounds = None
        x.points = x.points.astype(int)
        x.bounds = nb
    return g, xd


def cells(g, xd):
    """{(geographical place, other indices): everything attached to it}"""
    x = g.coord('longitude')
    out = {}
    for j, p in enumerate(x.points):
        col = {}
        for a in g.aux_coords:
            ds = g.coord_dims(a)
            if xd in ds:
                col[a.name()] = np.take(a.points, j, axis=ds.index(xd)).tolist()
                if a.bounds is not None:
                    col[a.name() + 'b'] = np.take(a.bounds, j, axis=ds.index(xd)).tolist()
            else:
                col[a.name()] = a.points.tolist()
        col['data'] = C.vals(np.ma.asanyarray(g.data).take(j, axis=xd))
        for k in g.coords(dim_coords=True):
            if k.name() != 'longitude':
                col[k.name()] = k.points.tolist()
        if x.bounds is not None:
            col['b'] = [round(float(v - p), 6) for v in x.bounds[j]]
        key = round(C.mod360(float(p)), 6) % 360
        if key in out:
            return 'two columns at the same place %r' % key
        out[key] = col
    return out


def check(c):
    import numpy as np
    start, kind = c['start'], c['kind']
    if kind in ('cube', 'shared', 'list', 'gview'):
        g, xd = build(c)
        before = cells(g, xd)
        if kind == 'gview':
            v = g.get_all_points()
            d0 = C.snap(g)
            pts = [list(p.coord_tuple) for p in v.iter_all_points()] if False else [tuple(v[i][:5]) + (v[i].val[0],)
                                                                                   for i in range(len(v))]
            v.set_longitude_range(start)
            new = [tuple(v[i][:5]) + (v[i].val[0],) for i in range(len(v))]
            if C.snap(g) != d0:
                return 'the view altered the dataset'
            for p, q in zip(pts, new):
                if not (start <= q[1] < start + 360) or not C.same_place(p[1], q[1]):
                    return 'point %r became %r' % (p, q)
                if [C.snap(x) for x in p[:1] + p[2:]] != [C.snap(x) for x in q[:1] + q[2:]]:
                    return 'point %r became %r' % (p, q)
            return
        others = []
        if kind == 'shared':
            others = [g.make_new_with_same_coordinates(data=g.data.copy(), var_name='w', history='x')]
            s0 = C.snap(others)
        if kind == 'list':
            from cis.data_io.gridded_data import GriddedDataList
            h = g.make_new_with_same_coordinates(data=g.data.copy(), var_name='w', history='x')
            l = GriddedDataList([g, h])
            l.set_longitude_range(start)
            todo = list(l)
        else:
            g.set_longitude_range(start)
            todo = [g]
        if kind == 'shared' and C.snap(others) != s0:
            return 'another dataset sharing the coordinates was altered'
        for g in todo:
            x = np.asarray(g.coord('longitude').points, dtype=float)
            if not (np.all(x >= start) and np.all(x < start + 360)):
                return 'longitudes %r not within [%r, %r+360)' % (x.tolist(), start, start)
            if not np.all(np.diff(x) > 0):
                return 'longitudes %r not ascending' % (x.tolist(),)
            if g.coord_dims('longitude') != (xd,):
                return 'longitude moved to dimension %r' % (g.coord_dims('longitude'),)
            after = cells(g, xd)
            if after != before:
                return 'contents moved: %r became %r' % (before, after)
        return
    lon, lat, v = c['lon'], c['lat'], c['vals']

    def cmp(new, mask=None):
        new = np.ma.asanyarray(new)
        if new.size != len(lon):
            return 'number of longitudes changed'
        m = np.ma.getmaskarray(new).ravel()
        for i, (a, b) in enumerate(zip(lon, np.ma.getdata(new).ravel())):
            if mask is not None and bool(mask[i]) != bool(m[i]):
                return 'mask of element %d changed' % i
            if mask is not None and mask[i]:
                continue
            if not (start <= b < start + 360) or not C.same_place(a, b):
                return 'longitude %r became %r for range start %r' % (a, b, start)
    if kind == 'fix':
        from cis.utils import fix_longitude_range
        return cmp(fix_longitude_range(C.nparr(lon, c['mask']), start), c['mask'])
    if kind == 'coord':
        k = C.coord('longitude', lon, c['mask'])
        k.data_flattened
        k.set_longitude_range(start)
        return cmp(k.data, c['mask']) or cmp(k.data_flattened, c['mask'])
    d = dict(coords=dict(latitude=lat, longitude=lon, time=[float(i) for i in range(len(lon))]), vals=v, mask=c['mask'])
    if kind == 'view':
        o = C.ung(d)
        w = o.get_all_points()
        w.set_longitude_range(start)
        new = [w[i] for i in range(len(w))]
        r = cmp([p.longitude for p in new])
        if r:
            return r
        if [p.latitude for p in new] != lat or [p.time for p in new] != d['coords']['time'] or \
                not C.same_vals([p.val[0] for p in new], C.vals(C.nparr(v, c['mask']))):
            return 'other values of the points altered'
        if o.lon.points.tolist() != lon:
            return 'the view altered the dataset'
        return
    if kind == 'ulist':
        from cis.data_io.ungridded_data import UngriddedDataList
        o1 = C.ung(d)
        o2 = C.ung(dict(d, coords=dict(d['coords'], longitude=lon[::-1]))) if False else \
            o1.make_new_with_same_coordinates(data=o1.data.copy(), var_name='w')
        L = UngriddedDataList([o1, o2])
        L.set_longitude_range(start)
        objs = list(L)
    else:
        objs = [C.ung(d) if kind == 'ung' else C.ungc(d)]
        objs[0].coords()
        objs[0].coord(standard_name='longitude').data_flattened
        objs[0].set_longitude_range(start)
    for o in objs:
        k = o.coord(standard_name='longitude')
        r = cmp(k.data) or cmp(k.data_flattened)
        if r:
            return r
        if o.coord(standard_name='latitude').data.tolist() != lat or \
                o.coord(standard_name='time').data.tolist() != d['coords']['time']:
            return 'another coordinate was altered'
        if kind != 'ungc' and not C.same_vals(C.vals(o.data), C.vals(C.nparr(v, c['mask']))):
            return 'data altered'


def from_model(unit, ob, m):
    """inputs of the verifier's counterexample, as concrete cases"""
    a = m.get('lons') or m.get('lon')
    if not a or not a['data']:
        return []
    lon = [float(x) for x in a['data'][:a['shape'][0]]]
    start = float(m.get('start', 0))
    n = len(lon)
    if unit == 'GriddedData.set_longitude_range':
        lb = m.get('lonb')
        b = [[lb['data'][2 * i], lb['data'][2 * i + 1]] for i in range(n)] if lb else None
        return [dict(kind='cube', start=start, lon=lon, bounds=b, ny=1, order='yx', data=[float(i) for i in range(n)],
                     mask=None, aux=True, auxb=False, circular=False, int=False)]
    kind = {'fix_longitude_range': 'fix', 'Coord.set_longitude_range': 'coord'}.get(unit, 'view')
    return [dict(kind=kind, start=start, lon=lon, lat=[0.] * n, vals=[1.] * n, mask=None)]
