"""C14 collapse of gridded data"""
import itertools
from vc.api import *
from props import common as C

ID = 'C14'
LEVEL = 'proof'
PROPERTY = dict(
    title='Collapsing gridded data applies the kernel over the dimensions asked for',
    statement='Collapsing gridded data over some of its coordinates gives, for every combination of the remaining dimensions, the '
              'kernel (by default the mean, the corrected sample standard deviation and the number of values, in this order) of '
              'exactly the non-missing values along the collapsed dimensions, missing if there are none; the mean and sum are '
              'weighted with the areas of the cells when latitude is collapsed. The remaining coordinates stay with their '
              'dimensions; a coordinate whose dimensions are all collapsed becomes one cell; a coordinate over several '
              'dimensions, only some of which are collapsed, becomes its unweighted mean along these, on the remaining ones, and '
              'derived coordinates (hybrid height or pressure) follow. Every variable of a list is collapsed, in order. The '
              'input is not changed, except that missing bounds of its dimension coordinates are filled in.',
    over=['inputs'],
    text='any shapes, order of dimensions, masks, collapsed coordinates and auxiliary coordinates',
    why='Tests collapse one or two dimensions of grids whose auxiliary coordinates begin with the first dimension; mixed up '
        'dimensions only show for other layouts.',
    files=['cis/aggregation/gridded_collapsor.py', 'cis/aggregation/collapse_kernels.py', 'cis/data_io/gridded_data.py'],
    mechanism=[('collapse', 'cis/aggregation/gridded_collapsor.py: GriddedCollapsor'),
               ('kernels', 'cis/aggregation/collapse_kernels.py: StddevKernel, CountKernel, aggregation_kernels'),
               ('entry points', 'cis/data_io/gridded_data.py: _collapse_gridded, GriddedDataList.collapsed')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); whole collapses bounded'
NOTE = ('Proved for coordinates and data of up to three (collapsed dimensions: four) dimensions of any sizes and values, with Cube.collapsed and area_weights of iris '
        'as trusted contracts; the iris kernels themselves and whole collapses are checked bounded.')
ASSUMPTIONS = ['iris: Cube.collapsed aggregates over the dimensions of the coordinates (checked bounded)',
               'iris: area_weights are the areas of the cells (checked bounded)', 'reals instead of floating point']
GC = 'cis.aggregation.gridded_collapsor'
CK = 'cis.aggregation.collapse_kernels'
GD = 'cis.data_io.gridded_data'


class PCoord(object):
    """multidimensional coordinate by its contract"""
    _vc_symbolic = True

    def __init__(self, points):
        self.points, self.shape, self.ndim = points, points.shape, points.ndim

    def copy(self, points=None, bounds=None):
        r = PCoord(asarr(points))
        r.of = self
        return r


def make_partial(D):
    @unit(UNITS, '_partially_collapse_multidimensional_coord [%dd]' % D,
          [GC + ':GriddedCollapsor._partially_collapse_multidimensional_coord'], timeout_ms=20000)
    def u(E):
        import iris.analysis
        m = M(GC)
        ns = [Int('n%d' % k) for k in range(D)]
        E.assume(z3.And(*[n.e >= 1 for n in ns]))
        dims = [k for k in range(D) if E.choose('dimension %d' % k)]
        if not dims or len(dims) == D:
            return
        if len(dims) > 1 and E.choose('the other way round'):
            dims = dims[::-1]
        p = fresh_array('points', tuple(ns), 'r')
        c = PCoord(p)
        rec = []

        class Mean(object):
            _vc_symbolic = True

            def aggregate(self, a, axis=None, **k):
                use('iris MEAN.aggregate: mean along an axis')
                expect(axis in (-1, a.ndim - 1) and not k)
                rec.append(a)
                return fresh_array('means', a.shape[:-1], 'r')
        mean = Mean()
        patch(iris.analysis.MEAN, 'aggregate', mean.aggregate)
        E.cover()
        f = m.GriddedCollapsor._partially_collapse_multidimensional_coord
        r = f(c, dims if E.choose('list') else set(dims))
        E.prove('one mean', z3.BoolVal(len(rec) == 1 and r.of is c))
        rest = [k for k in range(D) if k not in dims]
        a = rec[0]
        E.prove('on the remaining dimensions', z3.And(z3.BoolVal(a.ndim == len(rest) + 1), *[
            iterm(a.shape[i]) == ns[k].e for i, k in enumerate(rest)]))
        E.prove('on the remaining dimensions of the coordinate', z3.And(z3.BoolVal(r.points.ndim == len(rest)), *[
            iterm(r.points.shape[i]) == ns[k].e for i, k in enumerate(rest)]))
        # every row consists of the points of this place, each once
        at = [Int('at%d' % k) for k in range(D)]
        E.assume(z3.And(*[in_range(i, n) for i, n in zip(at, ns)]))
        if len(dims) == 1:
            col = at[dims[0]].e
            E.prove('as many as points', iterm(a.shape[-1]) == ns[dims[0]].e)
            E.prove('the points of this place', lift(a.at(*[at[k] for k in rest] + [Num(col)])).real() == p.at(*at).real())
        else:
            sd = sorted(dims)
            N, un, fl = arr.flatmap([ns[k] for k in sd])
            E.prove('as many as points', iterm(a.shape[-1]) == N.e)
            col = fl([at[k].e for k in sd])
            E.prove('the points of this place', lift(a.at(*[at[k] for k in rest] + [Num(col)])).real() == p.at(*at).real())


from vc import arr  # noqa
make_partial(2)
make_partial(3)


@unit(UNITS, '_calc_new_dims', [GC + ':GriddedCollapsor._calc_new_dims'], timeout_ms=20000, max_paths=5000)
def u_dims(E):
    m = M(GC)
    k = 3 if E.choose('3') else 2 if E.choose('2') else 1
    mm = 2 if E.choose('two collapsed') else 1
    ds, cs = [Int('dim%d' % i) for i in range(k)], [Int('gone%d' % i) for i in range(mm)]
    E.assume(z3.And(*[d.e >= 0 for d in ds + cs]))
    E.assume(z3.And(z3.Distinct(*[d.e for d in ds]) if k > 1 else True, z3.Distinct(*[d.e for d in cs]) if mm > 1 else True))
    E.cover()
    r = list(m.GriddedCollapsor._calc_new_dims(tuple(ds), list(cs)))
    keep = [d for d in ds if not E.decide(z3.Or(*[d.e == c.e for c in cs]))]
    E.prove('one for every remaining dimension', z3.BoolVal(len(r) == len(keep)))
    for got, d in zip(r, keep):
        E.prove('its place among the remaining ones', iterm(got) == d.e - z3.Sum(*[z3.If(c.e < d.e, 1, 0) for c in cs]))


def make_full(D):
    @unit(UNITS, '_gridded_full_collapse [%dd]' % D, [GC + ':GriddedCollapsor._gridded_full_collapse',
                                                       GC + ':GriddedCollapsor._calc_new_dims'], max_paths=6000)
    def u(E):
        import iris.analysis
        import iris.cube
        import iris.analysis.cartography as cart
        m = M(GC)
        log = []
        names = ['time', 'latitude', 'longitude'][:D] if D > 1 else ['latitude']
        gone = [k for k in range(D) if E.choose('over dimension %d' % k)]
        if not gone:
            return

        class Coord(object):
            _vc_symbolic = True

            def __init__(self, name, dims, std=True):
                self._name, self.dims, self.standard_name = name, dims, name if std else None

            def name(self):
                return self._name
        coords = [Coord(names[k], (k,)) for k in gone]
        every = [t for n in (1, 2, 3) for t in itertools.permutations(range(D), n)]

        def pick(label):
            for t in every[:-1]:
                if E.choose('%s on %r' % (label, t)):
                    return t
            return every[-1]
        aux = [Coord('aux', pick('auxiliary'), False)]
        if D == 2 and E.choose('another'):
            aux.append(Coord('aux2', pick('another'), False))

        class Factory(object):
            _vc_symbolic = True

            def __init__(self, deps, of=None):
                self.dependencies, self.of = deps, of

            def updated(self, mp):
                use('AuxCoordFactory.updated: the same factory with other coordinates')
                return Factory({k: None if c is None else mp[id(c)] for k, c in self.dependencies.items()}, self)
        own = Coord('own', (0,), False)
        facts = []
        if E.choose('derived coordinate'):
            facts.append(Factory({'delta': None, 'sigma': own, 'surface': aux[0], 'other': aux[-1] if len(aux) > 1 else None}))
        auxs = aux + [own]
        if E.choose('in another order'):
            auxs = auxs[::-1]

        class Data(object):
            _vc_symbolic = True

            def __init__(self, of=None):
                self.of, self.removed, self.added, self.factories_removed, self.factories = of, [], [], [], []
                self.copied = None if of is None else [Factory({k: None if c is None else ('copy', c) for k, c in f.dependencies.items()}, f) for f in facts]

            def coord_dims(self, c):
                return c.dims

            @property
            def aux_coords(self):
                return tuple(auxs)

            @property
            def aux_factories(self):
                if self.of is None:
                    return tuple(facts)
                return tuple(f for f in self.copied if f not in self.factories_removed)

            def remove_aux_factory(self, f):
                expect(self.of is not None and f in self.copied)
                self.factories_removed.append(f)

            def remove_coord(self, c):
                self.removed.append(c)

            def __deepcopy__(self, memo):
                return Data(self)
        data = Data()

        class New(object):
            _vc_symbolic = True

            def __init__(self, src):
                self.src, self.added, self.factories = src, [], []

            def add_aux_coord(self, c, dims=None):
                self.added.append((c, tuple(dims)))

            def coord(self, n):
                for c, _ in self.added:
                    if c.name() == n:
                        return c
                c = [c for c in auxs if c.name() == n and c not in self.src.removed]
                expect(len(c) == 1)
                return ('collapsed', c[0])

            @property
            def aux_factories(self):
                return tuple(self.factories)

            def add_aux_factory(self, f):
                self.factories.append(f)
        news = []

        def collapsed(d, over, kernel, **kw):
            use('Cube.collapsed: aggregates over the dimensions of the coordinates')
            log.append((d, list(over), kernel, kw))
            news.append(New(d))
            return news[-1]

        def weights(d):
            use('area_weights: areas of the cells')
            expect(d is data or getattr(d, 'of', None) is data)
            return 'areas'
        patch(iris.cube.Cube, 'collapsed', collapsed)
        patch(cart, 'area_weights', weights)
        pc = []

        def partial(c, dims, *a, **k):
            use('_partially_collapse_multidimensional_coord (proved in this property)')
            expect(not a and not k)
            r = Coord(c.name(), None)
            pc.append((r, c, sorted(dims)))
            return r
        patch(m.GriddedCollapsor, '_partially_collapse_multidimensional_coord', staticmethod(partial))
        kern = iris.analysis.MEAN if E.choose('mean') else iris.analysis.MAX if E.choose('max') else object()
        E.cover()
        r, e = raises(m.GriddedCollapsor(data, coords)._gridded_full_collapse, kern)
        known = isinstance(kern, iris.analysis.Aggregator) or kern is iris.analysis.MEAN
        E.prove('an error only for something else than a kernel', z3.BoolVal((e is None) == known))
        if e is not None:
            return
        E.prove('collapsed once, over the coordinates with the kernel', z3.BoolVal(
            len(log) == 1 and log[0][1] == coords and log[0][2] is kern))
        d, _, _, kw = log[0]
        E.prove('the input is left alone', z3.BoolVal(d is not data and d.of is data and not data.removed and not data.added
                                                      and not data.factories_removed and not data.factories))
        weighted = kern is iris.analysis.MEAN and 'latitude' in [c.standard_name for c in coords]
        E.prove('weighted with areas over latitude', z3.BoolVal(kw == (dict(weights='areas') if weighted else {})))
        part = [c for c in auxs if set(c.dims) & set(gone) and set(c.dims) - set(gone)]
        E.prove('partly collapsed coordinates are treated apart', z3.BoolVal(
            set(d.removed) == set(part) and len(pc) == len(part) == len(r.added)))
        rest = [k for k in range(D) if k not in gone]
        for c in part:
            x = [(q, l) for q, s, l in pc if s is c]
            E.prove('mean along its own collapsed dimensions', z3.BoolVal(
                len(x) == 1 and x[0][1] == sorted(i for i, dd in enumerate(c.dims) if dd in gone)))
            got = [t for q, t in r.added if q is x[0][0]]
            E.prove('on the remaining dimensions', z3.BoolVal(got == [tuple(rest.index(dd) for dd in c.dims if dd in rest)]))
        if facts:
            f = facts[0]
            if set(part) & set(f.dependencies.values()):
                E.prove('derived coordinate is rebuilt', z3.BoolVal(len(r.factories) == 1 and r.factories[0].of is f and len(d.factories_removed) == 1))
                want = {k: None if c is None else ([q for q, s, l in pc if s is c] or [('collapsed', c)])[0] for k, c in f.dependencies.items()}
                E.prove('from the collapsed coordinates', z3.BoolVal(r.factories[0].dependencies == want))
            else:
                E.prove('derived coordinate is left to iris', z3.BoolVal(not r.factories and not d.factories_removed))
    return u


make_full(1)
make_full(2)
make_full(3)


@unit(UNITS, 'GriddedCollapsor.__call__', [GC + ':GriddedCollapsor.__call__'])
def u_call(E):
    m = M(GC)
    ck = M(CK)
    log = []

    class Dim(object):
        _vc_symbolic = True

        def __init__(self, k, bounds, n):
            self.k, self._bounds, self.points, self.guessed = k, bounds, [0.] * n, 0

        def has_bounds(self):
            return self._bounds or self.guessed > 0

        def guess_bounds(self, *a):
            expect(not a)
            E.prove('bounds are only guessed where there are none', z3.BoolVal(not self.has_bounds() and len(self.points) > 1))
            self.guessed += 1

        def name(self):
            return 'c%d' % self.k
    dims = [Dim(k, E.choose('bounds %d' % k), 1 if E.choose('a single point %d' % k) else 3) for k in range(2)]

    class Data(object):
        _vc_symbolic = True

        def coords(self, dim_coords=None):
            expect(dim_coords is True)
            return list(dims)
    data = Data()

    def full(self, kernel):
        use('_gridded_full_collapse (proved in this property)')
        E.prove('with bounds', z3.BoolVal(all(c.has_bounds() or len(c.points) == 1 for c in dims)))
        log.append(kernel)
        return ['a', kernel, 'b'] if two else ('collapsed', kernel)
    two = E.choose('several')
    patch(m.GriddedCollapsor, '_gridded_full_collapse', full)

    class L(list):
        append_or_extend = M('cis.data_io.common_data').CommonDataList.__dict__['append_or_extend']
    patch(M(GD), 'GriddedDataList', L)
    multi = E.choose('several kernels')
    ks = ['k0', 'k1', 'k2'] if multi else ['k']
    E.cover()
    r = m.GriddedCollapsor(data, ['c'])(ck.MultiKernel('n', ks) if multi else 'k')
    E.prove('every kernel, in order', z3.BoolVal(log == ks))
    want = [x for k in ks for x in (['a', k, 'b'] if two else [('collapsed', k)])]
    E.prove('every output, in order', z3.BoolVal(list(r) == want))
    E.prove('same coordinates', z3.BoolVal(all(c.guessed <= 1 for c in dims)))


@unit(UNITS, 'collapsed', [GD + ':_collapse_gridded', GD + ':GriddedData.collapsed', GD + ':GriddedDataList.collapsed'])
def u_entry(E):
    import iris.analysis
    m = M(GD)
    ck = M(CK)
    log, hist = [], []

    class Out(list):
        def add_history(self, h):
            hist.append((self, h))

    class Co(object):
        _vc_symbolic = True

        def __init__(self, n):
            self.n = n

        def name(self):
            return 'name of %s' % (self.n,)

    class Data(object):
        _vc_symbolic = True
        collapsed = m.GriddedData.__dict__['collapsed']

        def __init__(self, k):
            self.k = k

        def _get_coord(self, n):
            return Co((self.k, n))
    ds = [Data(k) for k in range(2)]

    class Agg(object):
        def __init__(self, data, coords):
            self.data, self.coords = data, coords

        def __call__(self, kernel):
            use('GriddedCollapsor (proved in this property)')
            log.append((self.data, [c.n for c in self.coords], kernel))
            return Out([('out', self.data.k, 0), ('out', self.data.k, 1)])
    patch(M(GC), 'GriddedCollapsor', Agg)
    how, want = None, 'moments'
    for h in ('', None, 'mean', 'max', 'min', 'sum', 'moments', iris.analysis.MEAN, ck.MultiKernel('x', []), 'nonsense', 3):
        if E.choose('kernel %r' % (h,)):
            how = h
            break
    E.cover()
    one = E.choose('one coordinate')
    cs = 'x' if one else ['x', 't']
    if E.choose('list'):
        lst = m.GriddedDataList.__dict__['collapsed']

        class L(list):
            pass
        patch(m, 'GriddedDataList', L)
        r, e = raises(lst, L(ds), cs, how=how)
        n = 2
    else:
        r, e = raises(ds[0].collapsed, cs, how=how)
        n = 1
    if how in ('nonsense', 3):
        E.prove('no such kernel', z3.BoolVal(isinstance(e, (ValueError, KeyError)) and not log))
        return
    expect(e is None, repr(e))
    k = how if not (how is None or isinstance(how, str)) else ck.aggregation_kernels[how or 'moments']
    E.prove('collapsed over the coordinates with the kernel', z3.BoolVal(
        [(d.k, c) for d, c, _ in log] == [(i, [(i, x) for x in (['x'] if one else ['x', 't'])]) for i in range(n)] and all(q is k for _, _, q in log)))
    E.prove('all outputs, in order', z3.BoolVal(list(r) == [('out', i, j) for i in range(n) for j in range(2)]))


@unit(UNITS, 'aggregation_kernels', [CK + ':CountKernel.count_kernel_func'])
def u_kernels(E):
    import iris.analysis as ia
    ck = M(CK)
    k = ck.aggregation_kernels
    E.cover()
    E.prove('kernels by name', z3.BoolVal(k['sum'] is ia.SUM and k['mean'] is ia.MEAN and k['min'] is ia.MIN and k['max'] is ia.MAX))
    mo = k['moments'].sub_kernels
    E.prove('mean, standard deviation, number', z3.BoolVal(
        len(mo) == 3 and mo[0] is ia.MEAN and type(mo[1]) is ck.StddevKernel and type(mo[2]) is ck.CountKernel))
    masked = E.choose('masked')
    n = Int('n'); E.assume(n.e >= 1)
    d = fresh_array('d', (n, 3), 'r', masked=masked)

    class Rec(object):
        pass

    def count(self, axis=None):
        use('count of a masked array: number of values along the axis which are not masked')
        q = Rec()
        q.a, q.axis = self, axis
        return q
    patch(arr.SArr, 'count', count) if hasattr(arr.SArr, 'count') else None
    r = ck.CountKernel.count_kernel_func(d, -1)
    i, j = Int('i'), Int('j')
    E.assume(z3.And(in_range(i, n), in_range(j, 3)))
    E.prove('number of the valid values of the data', z3.And(z3.BoolVal(r.axis in (-1, 1)), iterm(r.a.shape[0]) == n.e, iterm(r.a.shape[1]) == 3,
                                                    zbool(r.a.mask_at(i, j)) == (zbool(d.mask_at(i, j)) if masked else z3.BoolVal(False))))


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'collapses of random grids over random coordinates against direct reductions'
BOUNDED_FUNCTIONS = ['GriddedData.collapsed', 'GriddedDataList.collapsed', 'StddevKernel', 'CountKernel', 'iris kernels']
LIMIT_S = 40
ALIAS = dict(latitude=['latitude', 'y', 'lat'], longitude=['longitude', 'x', 'lon'], altitude=['altitude', 'z', 'alt'],
             time=['time', 't', 'tim'], model_level=['model_level'])


def cases(rng, tier, scale):
    for t in range(300 * scale):
        names = [x for x in ['time', 'altitude', 'model_level', 'latitude', 'longitude'] if rng.random() < .6]
        if ('latitude' in names) != ('longitude' in names):
            names = [x for x in names if x not in ('latitude', 'longitude')] + ['latitude', 'longitude']
        names = names[:4] if len(names) > 4 and 'latitude' not in names else names
        if not names:
            names = ['latitude', 'longitude']
        if rng.random() < .5:
            rng.shuffle(names)
        dims = []
        for x in names:
            n = rng.choice([2, 2, 3, 4] if x in ('latitude', 'longitude') else [1, 2, 3, 4])
            lo, hi = dict(latitude=(-80, 80), longitude=(-180, 170), altitude=(0, 5000), time=(149750., 149800.),
                          model_level=(0, 10))[x]
            d = dict(name=x, points=C.grid_points(rng, lo, hi, n))
            if x == 'model_level':
                d['units'] = 'm'
            if x == 'latitude' and rng.random() < .3:
                d['points'] = d['points'][::-1]
            if rng.random() < .3:
                d['guess'] = True
            dims.append(d)
        n = 1
        for d in dims:
            n *= len(d['points'])
        aux = []
        if len(dims) > 1 and rng.random() < .75:
            for k in range(rng.choice([1, 1, 2])):
                dd = rng.sample(range(len(dims)), rng.choice([1, 2, 2, min(3, len(dims))]))
                if rng.random() < .5:
                    dd = sorted(dd)
                sh = [len(dims[i]['points']) for i in dd]
                size = 1
                for x in sh:
                    size *= x
                v = C.rand_vals(rng, size)
                aux.append(dict(name='aux%d' % k, dims=dd, shape=sh, points=v))
        over = rng.sample(range(len(dims)), rng.choice([1, 1, 2, min(3, len(dims))]) if len(dims) > 1 else 1)
        hyb = rng.random() < .4 and 'altitude' not in names and [k for k in aux if len(k['dims']) > 1]
        yield dict(dims=dims, data=[abs(v) + 1 for v in C.rand_vals(rng, n)] if rng.random() < .5 else C.rand_vals(rng, n),
                   mask=C.maybe_mask(rng, n), aux=aux, over=over, names=[rng.choice(ALIAS[dims[i]['name']]) for i in over],
                   how=rng.choice(['', 'moments', None, 'mean', 'mean', 'min', 'max', 'sum', 'iris']), lst=rng.random() < .3,
                   obj=rng.random() < .2, hyb=hyb[0]['name'] if hyb else None,
                   hyb_dim=rng.random() < .4, delta=rng.random() < .6)


def build(c, k=0):
    import numpy as np
    d = dict(dims=c['dims'], data=[v + k for v in c['data']], mask=c['mask'], name='v%d' % k, long_name='long %d' % k)
    g = C.cube(d)
    from iris.coords import AuxCoord
    for a in c['aux']:
        g.add_aux_coord(AuxCoord(np.array(a['points'], dtype=float).reshape(a['shape']), long_name=a['name'], units='m'), tuple(a['dims']))
    if c['hyb']:
        from iris.aux_factory import HybridHeightFactory
        n = len(c['dims'][0]['points'])
        sig = AuxCoord(np.linspace(1., .25, n), long_name='sigma')
        g.add_aux_coord(sig, 0)
        delta = None
        if c['delta']:
            if c['hyb_dim'] and c['dims'][0]['name'] == 'model_level':
                delta = g.coord('model_level')
            else:
                delta = AuxCoord(np.arange(n) * 100., long_name='level_height', units='m')
                g.add_aux_coord(delta, 0)
        g.add_aux_factory(HybridHeightFactory(delta, sig, g.coord(c['hyb'])))
    return g


def check(c):
    import numpy as np
    import iris.analysis
    from cis.data_io.gridded_data import GriddedDataList
    gs = [build(c, k) for k in range(2 if c['lst'] else 1)]
    before = [(C.snap(g.data), [(x.name(), C.snap(x.points), g.coord_dims(x)) for x in g.coords(dim_coords=False)],
               [(x.name(), C.snap(x.points), g.coord_dims(x)) for x in g.coords(dim_coords=True)]) for g in gs]
    how = {'iris': iris.analysis.MEAN}.get(c['how'], c['how'])
    over = [gs[0].coord(c['dims'][i]['name']) for i in c['over']] if c['obj'] and not c['lst'] else list(c['names'])
    try:
        r = (GriddedDataList(gs) if c['lst'] else gs[0]).collapsed(over if len(over) > 1 else over[0], how=how)
    except Exception as e:
        return 'collapse over %s fails: %s: %s' % (c['names'], type(e).__name__, e)
    after = [(C.snap(g.data), [(x.name(), C.snap(x.points), g.coord_dims(x)) for x in g.coords(dim_coords=False)],
              [(x.name(), C.snap(x.points), g.coord_dims(x)) for x in g.coords(dim_coords=True)]) for g in gs]
    if before != after:
        return 'the input was changed by collapsing'
    kinds = ['mean', 'std', 'num'] if c['how'] in ('', None, 'moments') else [{'iris': 'mean'}.get(c['how'], c['how'])]
    if len(r) != len(kinds) * len(gs):
        return '%d outputs' % len(r)
    shape = [len(d['points']) for d in c['dims']]
    D = len(shape)
    rest = [i for i in range(D) if i not in c['over']]
    w = np.ones(shape)
    if 'latitude' in [c['dims'][i]['name'] for i in c['over']]:
        b = {}
        for i, d in enumerate(c['dims']):
            if d['name'] in ('latitude', 'longitude'):
                p = [float(x) for x in d['points']]
                e = [p[0] - (p[1] - p[0]) / 2] + [(x + y) / 2 for x, y in zip(p, p[1:])] + [p[-1] + (p[-1] - p[-2]) / 2]
                if d['name'] == 'latitude':
                    e = [min(90., max(-90., x)) for x in e]
                e = [math.radians(x) for x in e]
                b[d['name']] = (i, [(math.sin(y) - math.sin(x)) if d['name'] == 'latitude' else y - x for x, y in zip(e, e[1:])])
        for nm, (i, ws) in b.items():
            w = w * np.array(ws).reshape([-1 if k == i else 1 for k in range(D)])
        w = np.abs(w) * 6367470. ** 2
    data = np.array(c['data'], dtype=float).reshape(shape)
    mask = np.zeros(shape, bool) if c['mask'] is None else np.array(c['mask']).reshape(shape)
    for gi in range(len(gs)):
        for ki, kind in enumerate(kinds):
            o = r[gi * len(kinds) + ki]
            if o.shape != tuple(shape[i] for i in rest):
                return '%s: shape %r instead of %r' % (kind, o.shape, tuple(shape[i] for i in rest))
            want_name = 'v%d' % gi + dict(std='_std_dev', num='_num_points').get(kind, '')
            if o.var_name != want_name:
                return 'name %s instead of %s' % (o.var_name, want_name)
            if not o.is_gridded or 'ollapsed' not in o.history:
                return 'not CIS data with a history'
            got = np.ma.asanyarray(o.data)
            for idx in np.ndindex(*[shape[i] for i in rest]):
                sel = [slice(None)] * D
                for i, k in zip(rest, idx):
                    sel[i] = k
                sel = tuple(sel)
                ok = ~mask[sel]
                v, ww = (data[sel] + gi)[ok].ravel(), w[sel][ok].ravel()
                if kind == 'num':
                    want = float(v.size)
                elif v.size == 0 or (kind == 'std' and v.size == 1):
                    want = None
                else:
                    want = {'mean': lambda: (v * ww).sum() / ww.sum(), 'min': v.min, 'max': v.max, 'sum': lambda: (v * ww).sum(),
                            'std': lambda: math.sqrt(((v - v.mean()) ** 2).sum() / (v.size - 1))}[kind]()
                x = got[idx]
                x = None if C.ismissing(x) else float(x)
                if kind == 'std' and v.size == 1 and x is not None and c['mask'] is None:
                    continue
                if (want is None) != (x is None) or (want is not None and abs(x - want) > 1e-6 * max(1., abs(want), np.abs(v * ww).sum() if kind == 'sum' else 0)):
                    return '%s over %s at %r: %r instead of %r' % (kind, c['names'], idx, x, want)
            for i, d in enumerate(c['dims']):
                co = o.coords(d['name'])
                if len(co) != 1:
                    return 'coordinate %s: %d in the output' % (d['name'], len(co))
                if i in rest:
                    if o.coord_dims(co[0]) != (rest.index(i),) or not C.same_vals(C.vals(co[0].points), d['points']):
                        return 'coordinate %s changed' % d['name']
                elif co[0].points.size != 1 or o.coord_dims(co[0]) != ():
                    return 'collapsed coordinate %s has %r' % (d['name'], co[0].points)
            auxv = {}
            for a in c['aux'] + ([dict(name='sigma', dims=[0], shape=shape[:1], points=np.linspace(1., .25, shape[0]))] if c['hyb'] else []):
                co = o.coords(a['name'])
                if len(co) != 1:
                    return 'auxiliary coordinate %s: %d in the output' % (a['name'], len(co))
                p = np.array(a['points'], dtype=float).reshape(a['shape'])
                keep = [x for x in a['dims'] if x in rest]
                if not keep:
                    if co[0].points.size != 1:
                        return 'collapsed auxiliary coordinate has %r' % co[0].points
                    auxv[a['name']] = np.array(float(co[0].points[0]))
                    continue
                gone = tuple(k for k, x in enumerate(a['dims']) if x not in rest)
                want = p.mean(axis=gone) if gone else p
                dims = tuple(rest.index(x) for x in keep)
                if o.coord_dims(co[0]) != dims or not C.same_vals(C.vals(co[0].points), C.vals(want)):
                    return 'auxiliary coordinate %s on %r collapsed over %r: %r on %r instead of %r on %r' % (
                        a['name'], a['dims'], c['over'], co[0].points.tolist(), o.coord_dims(co[0]), want.tolist(), dims)
                full = np.transpose(want, np.argsort(dims)).reshape([shape[x] if x in keep else 1 for x in rest])
                auxv[a['name']] = full
            if c['hyb'] and 0 in rest:
                co = [x for x in o.derived_coords]
                if len(co) != 1:
                    return 'derived coordinate: %d in the output' % len(co)
                n = shape[0]
                delta = 0.
                if c['delta']:
                    delta = (np.array(c['dims'][0]['points'], dtype=float) if c['hyb_dim'] and c['dims'][0]['name'] == 'model_level' else np.arange(n) * 100.)
                    delta = delta.reshape([n if x == 0 else 1 for x in rest])
                want = delta + auxv['sigma'] * auxv[c['hyb']]
                got = np.transpose(co[0].points, np.argsort(o.coord_dims(co[0]))) if co[0].points.ndim > 1 else co[0].points
                if not C.same_vals(C.vals(got), C.vals(want)):
                    return 'derived coordinate %r instead of %r' % (got.tolist(), want.tolist())


import math  # noqa


def nontrivial(c):
    return len(c['dims']) > 1
