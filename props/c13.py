"""C13 aggregation of ungridded data"""
from vc.api import *
from props import common as C

ID = 'C13'
LEVEL = 'proof'
PROPERTY = dict(
    title='Aggregation of ungridded data fills exactly the requested cells',
    statement='Aggregating ungridded data over grids given for some of its coordinates gives data on the cells from start to end '
              'in steps of the given size (each cell includes its lower edge and not its upper one, the last one reaches the end), '
              'at the middles of the cells, for these coordinates, in the order of the coordinates of the data; a coordinate '
              'without a grid becomes one cell which contains all its values, with their minimum and maximum as bounds and the '
              'middle as its point. The value of a cell is the kernel (by default the mean, standard deviation and number) of '
              'exactly the valid values of the points in it, missing if there are none; longitudes count modulo 360. Grids may '
              'be given as slices or lists, by any name of the coordinate, with dates, partial dates and time steps for time; a '
              'start or end left out is the smallest or largest value. Every variable of a list is aggregated, in order; the '
              'input is not changed.',
    over=['inputs'],
    text='any numbers of points and cells, steps and limits',
    why='Tests aggregate a few points with round limits; the number of cells, edges and defaults only show for particular steps, '
        'limits and coordinates.',
    files=['cis/aggregation/ungridded_aggregator.py', 'cis/data_io/ungridded_data.py',
           'cis/collocation/col_implementations.py'],
    mechanism=[('grid specification', 'cis/data_io/ungridded_data.py: _aggregate_ungridded'),
               ('cells', 'cis/aggregation/ungridded_aggregator.py: UngriddedAggregator, aggregation_grid_array'),
               ('binning', 'cis/collocation/col_implementations.py: GeneralGriddedCollocator (C09), kernels (C08)')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole aggregations bounded'
NOTE = ('Proved for all limits and steps (real arithmetic): the number, middles and bounds of the cells, collapsed coordinates, the '
        'grid specification and the structure of the aggregation on top of the collocation by binning (C09) and the kernels '
        '(C08). Floating point effects on the number of cells and whole aggregations are bounded.')
ASSUMPTIONS = ['reals instead of floating point']

UA = 'cis.aggregation.ungridded_aggregator'
UD = 'cis.data_io.ungridded_data'
from vc.engine import zbool  # noqa
from vc import engine as eng  # noqa


@unit(UNITS, 'aggregation_grid_array', [UA + ':aggregation_grid_array'], timeout_ms=20000)
def u_grid(E):
    m = M(UA)
    start, delta, t = Real('start'), Real('delta'), Real('cells')
    E.assume(z3.And(delta.e > 0, t.e > 0))
    end = Num(start.e + t.e * delta.e)
    entails(E, 'range in cells', [delta.e != 0], (t.e * delta.e) / delta.e == t.e)
    E.assume((t.e * delta.e) / delta.e == t.e)
    E.cover()
    g = m.aggregation_grid_array(start, end, delta)
    n = iterm(g.shape[0])
    tol = z3.Q(1, 1000000)
    E.prove('the cells reach the end', z3.ToReal(n) >= t.e - tol)
    E.prove('every cell starts before the end', z3.ToReal(n) - 1 < t.e + tol)
    whole = Int('whole')
    E.prove('as many cells as fit', z3.Implies(z3.And(whole.e >= 1, t.e == z3.ToReal(whole.e)), n == whole.e))
    k = Int('cell')
    E.assume(in_range(k, g.shape[0]))
    E.prove('middle of the cell', lift(g.at(k)).real() == start.e + (z3.ToReal(k.e) + z3.Q(1, 2)) * delta.e)


class AggCoord(object):
    """coordinate of ungridded data, by its contract"""
    _vc_symbolic = True

    def __init__(self, name, points=None, standard=True):
        self._name, self.points, self.units = name, points, 'units of ' + name
        self.standard_name = name if standard else ''
        self.var_name = name[:3]

    def name(self):
        return self._name


class NewCoord(object):
    """iris DimCoord by its contract: guess_bounds puts the bounds halfway between the points"""
    _vc_symbolic = True

    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None, bounds=None):
        self.points, self.standard_name, self.var_name, self.units, self.bounds = asarr(points), standard_name, var_name, units, bounds
        self.guessed = False

    def name(self):
        return self.standard_name or self.var_name

    def guess_bounds(self):
        use('iris DimCoord.guess_bounds: bounds halfway between regular points')
        expect(self.bounds is None)
        self.guessed = True
        p = self.points
        h = z3.Q(1, 2)

        def at(i):
            k, side = i[0], i[1]
            n = iterm(p.shape[0])
            lo = z3.If(k == 0, p.at(0).real() - h * (p.at(1).real() - p.at(0).real()), h * (p.at(k - 1).real() + p.at(k).real()))
            hi = z3.If(k == n - 1, p.at(n - 1).real() + h * (p.at(n - 1).real() - p.at(n - 2).real()), h * (p.at(k).real() + p.at(k + 1).real()))
            return Num(z3.If(iterm(side) == 0, lo, hi))
        E = eng.CUR
        E.prove('bounds can only be guessed for two or more points', iterm(p.shape[0]) >= 2)
        self.bounds = SArr((p.shape[0], 2), at, 'r')


def dimcoord():
    override('iris.coords', DimCoord=NewCoord)
    patch(M(UA).UngriddedAggregator, '_get_CF_coordinate_units', staticmethod(lambda c: 'CF ' + c.units))


@unit(UNITS, 'UngriddedAggregator._make_partially_collapsed_coord', [UA + ':UngriddedAggregator._make_partially_collapsed_coord',
                                                                   UA + ':aggregation_grid_array'], timeout_ms=20000)
def u_part(E):
    m = M(UA)
    dimcoord()
    start, end, delta = Real('start'), Real('end'), Real('delta')
    E.assume(z3.And(delta.e > 0, end.e > start.e))
    one = E.choose('a single cell')
    E.assume(z3.And(end.e - start.e <= delta.e, end.e - start.e > delta.e * z3.Q(1, 100000)) if one else
             end.e - start.e > delta.e * z3.Q(100001, 100000))
    c = AggCoord('latitude')
    E.cover()
    r = m.UngriddedAggregator({})._make_partially_collapsed_coord(c, slice(start, end, delta))
    E.prove('names and units of the coordinate', z3.BoolVal(
        (r.var_name, r.standard_name, r.units) == ('latitude', 'latitude', 'CF units of latitude')))
    n = iterm(r.points.shape[0])
    k = Int('cell')
    E.assume(in_range(k, r.points.shape[0]))
    lo = start.e + z3.ToReal(k.e) * delta.e
    b = asarr(r.bounds)
    E.prove('bounds of every cell', iterm(b.shape[0]) == n)
    if one:
        E.prove('one cell', n <= 1)
        E.prove('the cell is the whole range', z3.And(lift(b.at(k, 0)).real() == start.e, lift(b.at(k, 1)).real() == end.e))
    else:
        E.prove('the cell', z3.And(lift(b.at(k, 0)).real() == lo, lift(b.at(k, 1)).real() == lo + delta.e))
    E.prove('middle of the cell', lift(r.points.at(k)).real() == lo + delta.e / 2)


def extremes(p):
    lo, hi = Real('minimum'), Real('maximum')

    def f(v):
        def g(x, *a, **k):
            expect(x is p and not a and not k, 'extreme of the points')
            use('numpy.min/max: smallest and largest element')
            return v
        return g
    for nm, v in (('numpy.min', lo), ('numpy.max', hi), ('numpy.amin', lo), ('numpy.amax', hi)):
        lib_contract(nm, f(v))
    p.min, p.max = f(lo).__get__(p), f(hi).__get__(p)
    eng.CUR.assume(lo.e <= hi.e)
    return lo, hi


@unit(UNITS, 'UngriddedAggregator._make_fully_collapsed_coord', [UA + ':UngriddedAggregator._make_fully_collapsed_coord',
                                                               UA + ':UngriddedAggregator._get_coord_start_end_centre',
                                                               UA + ':UngriddedAggregator._add_max_min_bounds_for_collapsed_coords'])
def u_full(E):
    m = M(UA)
    dimcoord()
    N = Int('n')
    E.assume(N.e >= 1)
    p = fresh_array('points', (N,), 'r')
    lo, hi = extremes(p)
    c = AggCoord('altitude', p)
    E.cover()
    a = m.UngriddedAggregator({})
    r = a._make_fully_collapsed_coord(c)
    E.prove('names and units of the coordinate', z3.BoolVal(
        (r.var_name, r.standard_name, r.units) == ('altitude', 'altitude', 'CF units of altitude')))
    E.prove('one point', z3.BoolVal(conc(r.points.shape[0]) == 1))
    mid = lift(r.points.at(0)).real()
    E.prove('in the middle', mid - lo.e == hi.e - mid)
    b = r.bounds
    E.prove('contains everything', z3.BoolVal(b.shape == (1, 2) and b[0, 0] == -np.inf and b[0, 1] == np.inf))
    # afterwards its bounds are the extremes, those of other coordinates are kept
    kept = NewCoord(np.array([5.]), 'latitude', bounds=np.array([[0., 10.]]))
    many = NewCoord(np.array([5., 15.]), 'time', bounds=np.array([[0., 10.], [10., 20.]]))
    kb, mb = kept.bounds, many.bounds

    class Cube(object):
        _vc_symbolic = True

        def coords(self):
            return [kept, r, many]

    class Source(object):
        _vc_symbolic = True

        def coord(self, name):
            expect(name == 'altitude')
            return c
    a._add_max_min_bounds_for_collapsed_coords(Cube(), Source())
    nb = asarr(r.bounds)
    E.prove('bounds of the collapsed coordinate', z3.And(lift(nb.at(0, 0)).real() == lo.e, lift(nb.at(0, 1)).real() == hi.e))
    E.prove('other bounds are kept', z3.BoolVal(kept.bounds is kb and many.bounds is mb))


@unit(UNITS, 'UngriddedAggregator.aggregate', [UA + ':UngriddedAggregator.aggregate'])
def u_agg(E):
    m = M(UA)
    names = ['latitude', 'time', 'longitude'][:E.choose('three coordinates') and 3 or E.choose('two coordinates') and 2 or 1]
    grids = {n: ('grid', n) for n in names if E.choose('grid for ' + n)}
    extra = E.choose('grid for a coordinate which does not exist')
    clash = E.choose('name of a coordinate')
    log = []
    given = dict(grids)
    if extra:
        given['pressure'] = 'x'

    class NC(object):
        def __init__(self, kind, c, k):
            self.kind, self.c, self.points, self.var_name = kind, c, [0.] * k, c.name()[:3]

        def name(self):
            return self.c.name()
    cs = [AggCoord(n) for n in names]

    class Data(object):
        _vc_symbolic = True

        def coords(self):
            return list(cs)
    data, kernel = Data(), object()
    A = m.UngriddedAggregator
    patch(A, '_make_fully_collapsed_coord', lambda s, c: NC('full', c, 1))
    patch(A, '_make_partially_collapsed_coord', lambda s, c, g: NC(g, c, 2 + names.index(c.name())))
    patch(A, '_add_max_min_bounds_for_collapsed_coords', lambda s, cube, src: log.append(('bounds', cube, src)))

    class Cube(object):
        def __init__(self, d, dim_coords_and_dims=None, **k):
            self.shape, self.cd = d.shape, dim_coords_and_dims
            log.append(('cube', self))

        def coords(self):
            return [c for c, _ in self.cd]
    override('iris.cube', Cube=Cube)

    class Out(object):
        def __init__(self, n):
            self.var_name = self.nm = n

        def rename(self, n):
            self.nm = n
            self.var_name = None                 # iris
    outs = [Out('v'), Out('lat' if clash else 'w'), Out('u')]
    CIM = M('cis.collocation.col_implementations')

    class Coll(object):
        def __init__(self, *a, **k):
            expect(not a and not k)

        def collocate(self, points, d, con, kern):
            use('GeneralGriddedCollocator.collocate: one cube per variable on the cells of the given cube (C09)')
            log.append(('collocate', points, d, con, kern))
            return outs

    class Con(object):
        pass
    patch(CIM, 'GeneralGriddedCollocator', Coll)
    patch(CIM, 'BinnedCubeCellOnlyConstraint', Con)
    E.cover()
    r, e = raises(A(given).aggregate, data, kernel)
    if extra:
        E.prove('an unknown coordinate is refused', z3.BoolVal(e is not None and type(e).__name__ == 'CoordinateNotFoundError'))
        return
    E.prove('no error', z3.BoolVal(e is None))
    cube = [x[1] for x in log if x[0] == 'cube'][0]
    E.prove('one dimension per coordinate, in order', z3.BoolVal([c.c for c, _ in cube.cd] == cs and [d for _, d in cube.cd] == list(range(len(cs)))))
    E.prove('on its grid, or collapsed', z3.BoolVal([c.kind for c, _ in cube.cd] == [grids.get(n, 'full') for n in names]))
    E.prove('shape', z3.BoolVal(tuple(cube.shape) == tuple(len(c.points) for c, _ in cube.cd)))
    col = [x for x in log if x[0] == 'collocate']
    E.prove('binned once onto these cells', z3.BoolVal(len(col) == 1 and col[0][1] is cube and col[0][2] is data and isinstance(
        col[0][3], Con) and col[0][4] is kernel))
    E.prove('bounds of the collapsed coordinates', z3.BoolVal(log[-1] == ('bounds', outs, data)))
    E.prove('all variables', z3.BoolVal(r is outs or list(r) == outs))
    E.prove('names', z3.BoolVal([o.var_name for o in outs] == ['v', 'aggregated_lat' if clash else 'w', 'u']))


@unit(UNITS, '_aggregate_ungridded', [UD + ':_aggregate_ungridded', UD + ':UngriddedData.aggregate', UD + ':UngriddedDataList.aggregate'])
def u_spec(E):
    import datetime as dt
    m = M(UD)
    tu = M('cis.time_util')
    log = []

    class Points(object):
        _vc_symbolic = True

        def __init__(self, n):
            self.lo, self.hi = Real('min_' + n), Real('max_' + n)

        def min(self):
            return self.lo

        def max(self):
            return self.hi

    class Units(object):
        _vc_symbolic = True

        def date2num(self, d):
            use('date2num of the units of the coordinate')
            return ('number of', d)

    class Co(object):
        _vc_symbolic = True

        def __init__(self, n):
            self.n, self.points, self.units = n, Points(n), Units()

        def name(self):
            return 'name of ' + self.n
    cs = {}

    class Data(object):
        _vc_symbolic = True
        var_name, filenames = 'v', ['f']

        def _get_coord(self, n):
            return cs.setdefault(n, Co(n))
    data, kern = Data(), object()

    def get_kernel(how, *a):
        use('get_kernel: the kernel of this name, moments by default')
        log.append(('kernel', how))
        return kern
    patch(M('cis.collocation.col'), 'get_kernel', get_kernel)
    outs = []

    class Result(list):
        def add_history(self, h):
            log.append(('history', h))

    class Agg(object):
        def __init__(self, spec):
            self.spec = dict(spec)
            spec.clear()

        def aggregate(self, d, k):
            use('UngriddedAggregator.aggregate (proved in this property)')
            log.append(('aggregate', self.spec, d, k))
            return Result(outs)
    patch(M(UA), 'UngriddedAggregator', Agg)
    a, b, s = Real('a'), Real('b'), Real('s')
    D1, D2, TD = dt.datetime(2010, 1, 2), dt.datetime(2011, 3, 4, 5), dt.timedelta(days=3, hours=6)
    p = tu.PartialDateTime(2008, 2)

    def pick(n):
        kind = [k for k in ('slice', 'list', 'dates', 'partial', 'no start') if k == 'no start' or E.choose('%s: %s' % (n, k))][0]
        form = (lambda x, y, z: slice(x, y, z)) if kind in ('slice', 'no start') else (lambda x, y, z: [x, y, z])
        if kind in ('slice', 'list'):
            return form(a, b, s), (a, b, s)
        if kind == 'dates':
            return form(D1, D2, TD), (('number of', D1), ('number of', D2), 3.25)
        if kind == 'partial':
            return [p, TD], (('number of', dt.datetime(2008, 2, 1)), ('number of', dt.datetime(2008, 2, 29, 23, 59, 59)), 3.25)
        if E.choose('%s: no stop either' % n):
            return form(None, None, s), (cs.setdefault(n, Co(n)).points.lo, cs[n].points.hi, s)
        return form(None, b, s), (cs.setdefault(n, Co(n)).points.lo, b, s)
    g1, w1 = pick('x')
    kw, want = dict(x=g1), {'name of x': w1}
    if E.choose('second coordinate'):
        kw['t'], want['name of t'] = [a, D2, TD], (a, ('number of', D2), 3.25)
    nout = E.choose('several outputs') and 2 or 1
    outs[:] = ['out%d' % k for k in range(nout)]
    lst = E.choose('list')
    E.cover()
    fn = m.UngriddedDataList.__dict__['aggregate'] if lst else m.UngriddedData.__dict__['aggregate']
    r = fn(data, 'how', **kw)
    ag = [x for x in log if x[0] == 'aggregate']
    E.prove('aggregated once with the kernel', z3.BoolVal(len(ag) == 1 and ag[0][2] is data and ag[0][3] is kern and ('kernel', 'how') in log))
    spec = ag[0][1]
    E.prove('grids of the coordinates', z3.BoolVal(set(spec) == set(want)))

    def eq(x, y):
        if isinstance(x, Num) or isinstance(y, Num):
            return x is y or lift(x).real() == lift(y).real()
        return x == y
    for n in want:
        for what, x, y in zip(('start', 'end', 'step'), (spec[n].start, spec[n].stop, spec[n].step), want[n]):
            q = eq(x, y)
            E.prove(what, q if z3.is_expr(q) else z3.BoolVal(bool(q)))
    E.prove('all outputs', z3.BoolVal(r == 'out0' if nout == 1 and not lst else list(r) == outs))


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'aggregation of random points over random grid specifications against a direct bin search'
BOUNDED_FUNCTIONS = ['UngriddedData.aggregate', 'UngriddedDataList.aggregate', 'UngriddedAggregator']
LIMIT_S = 40
T0 = 149750.                       # 2010-01-01


def cases(rng, tier, scale):
    for t in range(350 * scale):
        names = [x for x in ['latitude', 'longitude', 'altitude', 'time', 'air_pressure'] if rng.random() < .6] or ['time']
        if rng.random() < .7:
            names = [x for x in ('latitude', 'longitude') if x not in names] + names
        rng.shuffle(names)
        gridded = [x for x in names if rng.random() < .6][:3]
        dec = rng.random() < .4
        grids = {}
        for x in gridded:
            if x == 'time':
                kind = rng.choice(['num', 'num', 'dt', 'pdt'])
                step = rng.choice([1., .25, .5, 2.])
                start, n = T0 + rng.choice([0, 1, 2]), rng.choice([1, 2, 3, 6])
                g = dict(kind=kind, start=start, stop=start + n * step + (rng.random() < .2) * step / 4, step=step)
                if kind == 'pdt':
                    g = dict(kind=kind, month=rng.choice([1, 2, 3]), step=rng.choice([7., 10., 31.]))
            else:
                lo = {'latitude': rng.choice([-90., 0., -20.]), 'longitude': rng.choice([-180., 0., 90., -10., 170., 2.5]),
                      'altitude': rng.choice([0., 100.]), 'air_pressure': rng.choice([100., 1000.])}[x]
                step = rng.choice(['0.1', '0.3', '0.7', '1.1', '0.05', '10', '3.3'] if dec else ['1', '10', '2.5', '20', '.25'])
                n = rng.choice([1, 2, 3, 4, 7])
                from fractions import Fraction as F
                stop = F(lo) + n * F(step) + (rng.random() < .15) * F(step) / 4
                if x == 'latitude':
                    stop = min(stop, 90)
                if x == 'longitude' and rng.random() < .2:
                    lo, step, stop = rng.choice([-180., 0., 90.]), rng.choice(['90', '60', '45']), None
                    stop = F(lo) + 360
                g = dict(kind='num', start=lo, stop=float(stop), step=step)
            g['as'] = rng.choice(['slice', 'list', 'list'])
            if rng.random() < .1 and g['kind'] == 'num':
                g['none'] = rng.choice(['start', 'stop'])
            ax = dict(latitude='y', longitude='x', altitude='z', air_pressure='p', time='t')[x]
            g['key'] = rng.choice([x, x, ax, x[:3]])
            grids[x] = g
        n = rng.choice([1, 2, 4, 10, 25])
        coords = {}
        for x in names:
            v = []
            for i in range(n):
                g = grids.get(x)
                if g and 'start' in g and rng.random() < .9:
                    st = float(g['step'])
                    lo, hi = g['start'], g['stop']
                    if rng.random() < .3 and not dec:
                        p = lo + st * rng.randrange(0, int((hi - lo) / st) + 2)
                    else:
                        p = C.q(rng.uniform(lo - .2 * (hi - lo), hi + .2 * (hi - lo)), 8. if not dec else 64.) + (1 / 512. if dec else 0)
                elif x == 'time':
                    p = T0 + C.q(rng.uniform(0, 90))
                else:
                    p = C.q(rng.uniform(-80, 80)) + (500. if x == 'air_pressure' else 0)
                if x == 'latitude':
                    p = min(90., max(-90., p))
                v.append(p)
            if x == 'longitude':
                base = rng.choice([0., -180.])
                v = [base + C.mod360(p - base) for p in v]
            coords[x] = v
        nv = rng.choice([1, 1, 2])
        yield dict(coords=coords, grids=grids, dec=dec, how=rng.choice(['', '', 'mean', 'max', 'min', 'sum', 'stddev', 'moments']),
                   vs=[dict(vals=[float((i + 1) * (q + 1)) for i in range(n)], mask=C.maybe_mask(rng, n, .5), name='v%d' % q,
                            units=rng.choice(['K', 'm'])) for q in range(nv)])


def cells_of(c, x):
    """list of (lower, upper, middle) or None if the coordinate collapses"""
    from fractions import Fraction as F
    import datetime
    import math
    g = c['grids'].get(x)
    if g is None:
        return None
    if g['kind'] == 'pdt':
        a = datetime.datetime(2010, g['month'], 1)
        b = datetime.datetime(2010, g['month'] + 1, 1) - datetime.timedelta(seconds=1)
        z = datetime.datetime(2010, 1, 1)
        start, stop = F(T0) + F((a - z).days), F(T0) + F((b - z).days) + F((b - z).seconds, 86400)
    else:
        start, stop = F(repr(g['start'])), F(repr(g['stop']))
        if g.get('none') == 'start':
            start = F(min(c['coords'][x]))
        if g.get('none') == 'stop':
            stop = F(max(c['coords'][x]))
    step = F(g['step'])
    k = math.ceil((stop - start) / step)
    one = [(start, stop)] if k == 1 else [(start + i * step, start + (i + 1) * step) for i in range(k)]
    return [(float(a), float(b), float(start + i * step + step / 2)) for i, (a, b) in enumerate(one)]


def check(c):
    import itertools
    import datetime
    import numpy as np
    from props import c08
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.time_util import PartialDateTime
    data = [C.ung(dict(coords=c['coords'], vals=v['vals'], mask=v['mask'], name=v['name'], units=v['units'])) for v in c['vs']]
    names = list(c['coords'])
    n = len(c['vs'][0]['vals'])
    cells, kw = {}, {}
    for x in names:
        cells[x] = cells_of(c, x)
        if cells[x] is not None and not cells[x]:
            return                                        # nothing asked for
        if cells[x] and x == 'longitude' and cells[x][-1][1] - cells[x][0][0] > 360.:
            return                                        # more than one turn
        g = c['grids'].get(x)
        if g is None:
            continue
        if g['kind'] == 'pdt':
            s = [PartialDateTime(2010, g['month']), datetime.timedelta(days=g['step'])]
        else:
            a, b, st = g['start'], g['stop'], float(g['step'])
            if g['kind'] == 'dt':
                z = datetime.datetime(2010, 1, 1)
                a, b, st = z + datetime.timedelta(days=a - T0), z + datetime.timedelta(days=b - T0), datetime.timedelta(days=st)
            if g.get('none') == 'start':
                a = None
            if g.get('none') == 'stop':
                b = None
            s = slice(a, b, st) if g['as'] == 'slice' else [a, b, st]
        kw[g['key']] = s
    if np.prod([len(q or [0]) for q in cells.values()]) > 2000:
        return
    if cells.get('latitude') and len(cells['latitude']) > 1 and all(-90 <= m <= 90 for a, b, m in cells['latitude']):
        cells['latitude'] = [(max(a, -90.), min(b, 90.), m) for a, b, m in cells['latitude']]
    before = C.snap(data)
    out = (data[0] if len(data) == 1 else UngriddedDataList(data)).aggregate(how=c['how'], **kw)
    out = list(out) if isinstance(out, list) else [out]
    if C.snap(data) != before:
        return 'the input has changed'
    stats = ['', '_std_dev', '_num_points'] if c['how'] in ('', 'moments') else ['']
    if [o.var_name for o in out] != [v['name'] + s for v in c['vs'] for s in stats]:
        return 'outputs %r' % [o.var_name for o in out]
    boxes = []
    for o in out:
        if [x.name() for x in o.coords(dim_coords=True)] != names:
            return 'dimensions %r, expected %r' % ([x.name() for x in o.coords(dim_coords=True)], names)
    for x in names:
        v, q = c['coords'][x], out[0].coord(x)
        if cells[x] is None:
            want = [(min(v), max(v), min(v) + (max(v) - min(v)) / 2)]
        else:
            want = cells[x]
        if len(q.points) != len(want):
            return '%s: %d cells, expected %d' % (x, len(q.points), len(want))
        for k, (a, b, mid) in enumerate(want):
            lo, hi = q.bounds[k]
            if not C.close(q.points[k], mid, 1e-8) or not C.close(lo, a, 1e-8) or not C.close(hi, b, 1e-8):
                return '%s: cell %d is [%r, %r] at %r, expected [%r, %r] at %r' % (x, k, lo, hi, q.points[k], a, b, mid)
        boxes.append([(None, None)] if cells[x] is None else [(a, b) for a, b, m in want])
        for o in out[1:]:
            if not np.array_equal(o.coord(x).points, q.points) or not np.array_equal(o.coord(x).bounds, q.bounds):
                return '%s differs between outputs' % x

    def inside(x, p, a, b):
        if a is None:
            return True
        if x == 'longitude':
            return any(a <= p + 360. * t < b for t in (-2, -1, 0, 1, 2))
        return a <= p < b
    for idx in itertools.product(*[range(len(b)) for b in boxes]):
        pts = [i for i in range(n) if all(inside(x, c['coords'][x][i], *boxes[d][idx[d]]) for d, x in enumerate(names))]
        if c['dec'] and any(abs(c['coords'][x][i] + t - e) < 1e-6 for i in range(n) for d, x in enumerate(names)
                            for e in boxes[d][idx[d]] if e is not None for t in (0, 360., -360.)):
            continue
        for k, v in enumerate(c['vs']):
            use = [i for i in pts if not (v['mask'] and v['mask'][i])]
            want = c08.stats(c['how'] or 'moments', [v['vals'][i] for i in use])
            got = [C.vals(np.ma.atleast_1d(o.data[idx]))[0] for o in out[k * len(stats):(k + 1) * len(stats)]]
            if not C.same_vals(got, want):
                return 'cell %r of %s: got %r, expected %r from the points %r' % (
                    [boxes[d][idx[d]] for d in range(len(names))], names, got, want, [[c['coords'][x][i] for x in names] for i in use])


def nontrivial(c):
    return len(c['vs'][0]['vals']) > 1 and bool(c['grids'])
