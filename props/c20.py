"""C20 statistical comparison"""
import math
import numpy as np
from vc.api import *
from props import common as C
from vc import arr as A

ID = 'C20'
LEVEL = 'proof'
PROPERTY = dict(
    title='Comparison statistics use exactly the points present in both data sets',
    statement='The statistics of two data sets of the same size (compared point by point, row by row whatever their shapes) are '
              'those of exactly the points which are missing in neither: their number, the mean and corrected sample standard '
              'deviation of each data set, of the differences (second minus first) and of the differences relative to the first '
              '(where that is not zero), Spearman\'s rank correlation and the linear regression of the second on the first. '
              'Each result is reported under its own name, in this order, and as a cube of its own variable; the data sets are not '
              'changed.',
    over=['inputs'],
    text='any two data sets, missing values, types, shapes and memory layouts',
    why='Tests use one small masked example; a statistic which takes points missing in the other data set, or differences the '
        'wrong way round for some types, is a plausible number.',
    files=['cis/stats.py', 'cis/utils.py', 'cis/cis_main.py'],
    mechanism=[('statistics', 'cis/stats.py: StatsAnalyzer'), ('results', 'cis/stats.py: StatisticsResult'),
               ('points in both', 'cis/utils.py: apply_intersection_mask_to_two_arrays'), ('command', 'cis/cis_main.py: stats_cmd')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); the numbers bounded'
NOTE = ('Proved: which points and which values every statistic is taken of, and where each result goes, for data of one or two '
        'dimensions of any sizes and values; the statistics of numpy and scipy are trusted contracts, whose numbers are compared '
        'with independently computed ones bounded.')
ASSUMPTIONS = ['numpy: mean, std(ddof) and count are those of the elements which are not missing (numbers checked bounded)',
               'scipy: mstats.spearmanr and linregress are those of the pairs of which neither is missing (numbers checked bounded)',
               'numpy: quotients of masked arrays are missing where the divisor is zero (checked bounded)',
               'at least three points in both, not all equal; reals instead of floating point']
ST = 'cis.stats'
UT = 'cis.utils'

def pick(E, name, k):
    for j in range(k - 1):
        if E.choose('%s %d' % (name, j)):
            return j
    return k - 1


def each(E, name, got, n, value, mask):
    """got is an array of n elements with this value, or missing"""
    got = asarr(got)
    E.prove(name + ': shape', z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(n)))
    k = Int('k')
    mk = zbool(mask(k))
    E.prove(name, Bool(z3.Implies(zbool(in_range(k, n)), z3.And(zbool(got.mask_at(k)) == mk, z3.Or(mk, zbool(same(got.at(k), value(k))))))))


@unit(UNITS, 'apply_intersection_mask_to_two_arrays', [UT + ':apply_intersection_mask_to_two_arrays'])
def u_mask(E):
    n, m = Int('n'), Int('m')
    two = E.choose('two dimensions')
    shape = (n, m) if two else (n,)
    a = fresh_array('a', shape, 'r', masked=E.choose('a masked'))
    b = fresh_array('b', shape, 'r', masked=E.choose('b masked'))
    a0, b0 = a.copy(), b.copy()
    E.cover()
    x, y = M(UT).apply_intersection_mask_to_two_arrays(a, b)
    at = [Int('at%d' % i) for i in range(len(shape))]
    h = z3.And(*[zbool(in_range(i, d)) for i, d in zip(at, shape)])
    either = z3.Or(zbool(a0.mask_at(*at)), zbool(b0.mask_at(*at)))
    for what, got, o in (('first', x, a0), ('second', y, b0)):
        got = asarr(got)
        E.prove(what + ': shape', z3.And(z3.BoolVal(got.ndim == len(shape) and got.is_masked), *[iterm(p) == iterm(q) for p, q in zip(got.shape, shape)]))
        E.prove(what + ': missing exactly where either is', Bool(z3.Implies(h, zbool(got.mask_at(*at)) == either)))
        E.prove(what + ': its own values', Bool(z3.Implies(h, z3.Or(either, zbool(same(got.at(*at), o.at(*at)))))))
    for what, now, o in (('first', a, a0), ('second', b, b0)):
        E.prove(what + ' argument is not changed', Bool(z3.Implies(h, z3.And(zbool(now.mask_at(*at)) == zbool(o.mask_at(*at)),
                                                                            zbool(same(now.at(*at), o.at(*at)))))))


class Value(object):
    """the result of a statistic: a number of which only where it comes from is known"""
    _vc_symbolic = True

    def __init__(self, what, *args, **k):
        self.what, self.args, self.k = what, args, k

    def __str__(self):
        return '<%s>' % self.what


class Scipy(object):
    _vc_symbolic = True


def snapshots(args):
    return [asarr(a).copy() if isinstance(a, A.SArr) else a for a in args]


def begin(E):
    """the statistics of numpy and scipy by their contracts: of the elements which are not missing (in either argument)"""
    m = M(ST)
    for nm in ('numpy.mean', 'numpy.std', 'numpy.ma.count', 'numpy.ma.mean', 'numpy.ma.std'):
        def f(*a, _n=nm, **k):
            use(_n + ': of the elements which are not missing')
            return Value(_n.split('.')[-1], *snapshots(a), **k)
        lib_contract(nm, f)
    sc = Scipy()
    sc.stats = Scipy()
    sc.stats.mstats = Scipy()

    def spearmanr(x, y):
        use('scipy.stats.mstats.spearmanr: of the pairs of which neither is missing')
        v = Value('spearman', *snapshots((x, y)))
        return [v, Value('probability')]

    def linregress(x, y):
        use('scipy.stats.mstats.linregress: of the pairs of which neither is missing')
        xs = snapshots((x, y))
        return [Value(w, *xs) for w in ('slope', 'intercept', 'r', 'probability', 'error')]
    sc.stats.mstats.spearmanr, sc.stats.mstats.linregress = spearmanr, linregress
    patch(m, 'scipy', sc)
    return m


class Data(object):
    _vc_symbolic = True

    def __init__(self, name, data):
        self.var_name, self.data, self.shape = name, data, data.shape


def analyser(E):
    m = begin(E)
    n, k = Int('n'), Int('k')
    E.assume(z3.And(n.e >= 1, k.e >= 1))
    if E.choose('of different shapes'):
        N, un, fl = A.flatmap((n, k))
        a = fresh_array('a', (n, k), 'i' if E.choose('integers') else 'r', masked=E.choose('a masked'))
        b = fresh_array('b', (N,), 'r', masked=E.choose('b masked'))
    else:
        N = n
        a = fresh_array('a', (n,), 'r', masked=E.choose('a masked'))
        b = fresh_array('b', (n,), 'i' if E.choose('integers') else 'r', masked=E.choose('b masked'))
    a0, b0 = a.copy(), b.copy()
    fa, fb = (a0.flatten(), b0.flatten())
    d1, d2 = Data('first', a), Data('second', b)
    E.cover()
    s = m.StatsAnalyzer(d1, d2)

    def unchanged():
        for nm, d, x, o in (('first', d1, a, fa), ('second', d2, b, fb)):
            E.prove('the %s keeps its array' % nm, z3.BoolVal(d.data is x))
            each(E, 'the %s data set is not changed' % nm, asarr(d.data).flatten(), N, o.at, o.mask_at)
    both = lambda k: z3.Or(zbool(fa.mask_at(k)), zbool(fb.mask_at(k)))
    return m, s, N, fa, fb, both, unchanged


def pairs(E, name, x, y, N, fa, fb, both):
    """statistics of pairs: x and y are the two data sets; pairs with a missing element do not count"""
    x, y = asarr(x), asarr(y)
    for nm, got, o in (('first', x, fa), ('second', y, fb)):
        E.prove('%s: size of the %s' % (name, nm), z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(N)))
    k = Int('k')
    h = zbool(in_range(k, N))
    E.prove(name + ': the points of both', Bool(z3.Implies(h, z3.Or(zbool(x.mask_at(k)), zbool(y.mask_at(k))) == both(k))))
    E.prove(name + ': their values', Bool(z3.Implies(h, z3.Or(both(k), z3.And(zbool(same(x.at(k), fa.at(k))), zbool(same(y.at(k), fb.at(k))))))))


def stat(E, name, v, what, N, value, mask, ddof=None):
    E.prove(name + ': the statistic', z3.BoolVal(isinstance(v, Value) and v.what == what and v.k == ({} if ddof is None else {'ddof': ddof})
                                                and len(v.args) == 1))
    each(E, name + ': of', v.args[0], N, value, mask)


def rel(fa, fb):
    """relative difference where the first is not zero"""
    return lambda k: (fb.at(k) - fa.at(k)) / fa.at(k)


METHODS = ['points_count', 'means', 'stddevs', 'abs_mean', 'abs_stddev', 'rel_mean', 'rel_stddev', 'spearmans_rank', 'linear_regression']


def results(E, m, res, method, N, fa, fb, both, pre=''):
    """the results of a method and how many there are"""
    P = pre + method
    if method == 'points_count':
        r, = res[:1]
        E.prove(P + ': kind', z3.BoolVal(isinstance(r, m.PointsCount)))
        v = r.num_points
        E.prove(P + ': count', z3.BoolVal(v.what == 'count' and not v.k))
        x = asarr(v.args[0])
        k = Int('k')
        E.prove(P + ': size', iterm(x.shape[0]) == iterm(N))
        E.prove(P + ': points of both', Bool(z3.Implies(zbool(in_range(k, N)), zbool(x.mask_at(k)) == both(k))))
        return 1
    if method in ('means', 'stddevs'):
        for i, (r, o, nm) in enumerate(zip(res[:2], (fa, fb), ('first', 'second'))):
            E.prove('%s: kind %d' % (P, i), z3.BoolVal(isinstance(r, m.DatasetMean if method == 'means' else m.DatasetStddev) and
                                                       r.ds_name == nm and r.ds_no == i + 1))
            stat(E, '%s %d' % (P, i + 1), r.mean if method == 'means' else r.stddev, 'mean' if method == 'means' else 'std', N, o.at, both,
                 None if method == 'means' else 1)
        return 2
    if method.startswith('abs') or method.startswith('rel'):
        kind, attr = dict(abs_mean=(m.AbsoluteMean, 'abs_mean'), abs_stddev=(m.AbsoluteStddev, 'abs_stddev'), rel_mean=(m.RelativeMean, 'rel_mean'),
                          rel_stddev=(m.RelativeStddev, 'rel_stddev'))[method]
        E.prove(P + ': kind', z3.BoolVal(isinstance(res[0], kind)))
        f = (lambda k: fb.at(k) - fa.at(k)) if method.startswith('abs') else rel(fa, fb)
        stat(E, P, getattr(res[0], attr), 'mean' if method.endswith('mean') else 'std', N, f, both, None if method.endswith('mean') else 1)
        return 1
    if method == 'spearmans_rank':
        E.prove(P + ': kind', z3.BoolVal(isinstance(res[0], m.SpearmansRank) and res[0].spearman.what == 'spearman'))
        pairs(E, P, res[0].spearman.args[0], res[0].spearman.args[1], N, fa, fb, both)
        return 1
    for r, kind, attr, what in zip(res, (m.LinearRegressionGradient, m.LinearRegressionIntercept, m.LinearRegressionRValue, m.LinearRegressionStderr),
                                   ('grad', 'intercept', 'r', 'stderr'), ('slope', 'intercept', 'r', 'error')):
        E.prove('%s: %s' % (P, what), z3.BoolVal(isinstance(r, kind) and getattr(r, attr).what == what))
        pairs(E, P + ' ' + what, getattr(r, attr).args[0], getattr(r, attr).args[1], N, fa, fb, both)
    return 4


def method_unit(method):
    @unit(UNITS, method, [ST + ':StatsAnalyzer.__init__', ST + ':StatsAnalyzer.' + method] +
          ([UT + ':apply_intersection_mask_to_two_arrays'] if method in ('means', 'stddevs') else []))
    def u(E):
        m, s, N, fa, fb, both, unchanged = analyser(E)
        if method.startswith('rel'):
            k = z3.Int('z')
            E.assume(z3.ForAll([k], lift(fa.at(k)).real() != 0))
        res = getattr(s, method)()
        k = results(E, m, list(res), method, N, fa, fb, both)
        E.prove('number of results', z3.BoolVal(len(res) == k))
        unchanged()


for _m in METHODS:
    method_unit(_m)


@unit(UNITS, 'analyze', [ST + ':StatsAnalyzer.analyze', ST + ':StatsAnalyzer.__init__'] + [ST + ':StatsAnalyzer.' + x for x in METHODS])
def u_all(E):
    m, s, N, fa, fb, both, unchanged = analyser(E)
    k = z3.Int('z')
    E.assume(z3.ForAll([k], lift(fa.at(k)).real() != 0))
    res = list(s.analyze())
    at = 0
    for x in METHODS:
        at += results(E, m, res[at:], x, N, fa, fb, both, 'analyze: ')
    E.prove('number of results', z3.BoolVal(len(res) == at))
    unchanged()


RESULTS = [('PointsCount', 'Number of points'), ('DatasetMean', 'Mean value of dataset'), ('DatasetStddev', 'Standard deviation for dataset'),
           ('AbsoluteMean', 'Mean of absolute difference'), ('AbsoluteStddev', 'Standard deviation of absolute difference'),
           ('RelativeMean', 'Mean of relative difference'), ('RelativeStddev', 'Standard deviation of relative difference'),
           ('SpearmansRank', "Spearman's rank coefficient"), ('LinearRegressionGradient', 'Linear regression gradient'),
           ('LinearRegressionIntercept', 'Linear regression intercept'), ('LinearRegressionRValue', 'Linear regression r-value'),
           ('LinearRegressionStderr', 'Linear regression standard error')]
VARS = ['num_points', None, None, 'abs_mean', 'abs_stddev', 'rel_mean', 'rel_stddev', 'spearman', 'regression_gradient', 'regression_intercept',
        'regression_r', 'regression_stderr']


@unit(UNITS, 'results', [ST + ':%s.%s' % (x, f) for x, t in RESULTS for f in ('__init__', 'pprint', 'as_cube')])
def u_results(E):
    m = M(ST)
    made = []

    class Cube(object):
        _vc_symbolic = True

        def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None):
            made.append(self)
            self.data, self.long_name, self.var_name = data, long_name, var_name
    patch(m, 'Cube', Cube)
    v = Value('number')
    for (cls, text), var in zip(RESULTS, VARS):
        for no in (1, 2) if var is None else (None,):
            del made[:]
            r = getattr(m, cls)(v) if no is None else getattr(m, cls)(v, 'the name', no)
            E.prove(cls + ': printed', z3.BoolVal(r.pprint() == '%s%s: <number>' % (text, '' if no is None else ' %d' % no)))
            c = r.as_cube()
            E.prove(cls + ': a cube of the number', z3.BoolVal(len(made) == 1 and c is made[0] and (c.data is v or list(c.data) == [v])))
            E.prove(cls + ': name of its own', z3.BoolVal(c.var_name == (var or 'dataset_%s_%d' % (
                'mean' if cls == 'DatasetMean' else 'stddev', no)) and bool(c.long_name) and (no is None or 'the name' in c.long_name)))
    E.cover()


@unit(UNITS, 'stats_cmd', ['cis.cis_main:stats_cmd'])
def u_cmd(E):
    """finite: the groups of data asked for"""
    m = M('cis.cis_main')
    d = [object(), object()]
    log = []

    class Reader(object):
        _vc_symbolic = True

        def read_datagroups(self, groups):
            log.append(('read', groups))
            return list(d)

    class Result(object):
        _vc_symbolic = True

        def __init__(self, k):
            self.k = k

        def pprint(self):
            return 'result %d' % self.k

        def as_cube(self):
            return ('cube', self.k)

    class Analyzer(object):
        _vc_symbolic = True

        def __init__(self, a, b):
            log.append(('analyse', a, b))

        def analyze(self):
            return [Result(k) for k in range(3)]

    class Cubes(list):
        _vc_symbolic = True

        def add_history(self, h):
            log.append(('history', h))

        def save_data(self, f):
            log.append(('save', list(self), f))
    printed = []
    patch(m, 'DataReader', Reader)
    if 'print' not in m.__dict__:
        import builtins
        m.print = builtins.print
    patch(m, 'print', lambda *a: printed.append(a))
    patch(M(ST), 'StatsAnalyzer', Analyzer)
    patch(M('cis.data_io.gridded_data'), 'GriddedDataList', Cubes)
    g = [dict(filenames=['f1', 'f2'], variables=['va']), dict(filenames=['f3'], variables=['vb'])]
    if E.choose('one group'):
        g = [dict(filenames=['f1', 'f2', 'f3'], variables=['va', 'vb'])]

    class Args(object):
        _vc_symbolic = True
        datagroups, output = g, 'out.nc' if E.choose('output') else None
    E.cover()
    m.stats_cmd(Args)
    E.prove('the data asked for', z3.BoolVal([x for x in log if x[0] == 'read'] == [('read', g)]))
    E.prove('compared in the order given', z3.BoolVal([x[1:] for x in log if x[0] == 'analyse'] == [(d[0], d[1])]))
    E.prove('every result is printed, in order', z3.BoolVal([x[0] for x in printed if x and str(x[0]).startswith('result')] ==
                                                           ['result 0', 'result 1', 'result 2']))
    saved = [x for x in log if x[0] == 'save']
    h = [x[1] for x in log if x[0] == 'history']
    if Args.output:
        E.prove('every result is saved', z3.BoolVal(saved == [('save', [('cube', 0), ('cube', 1), ('cube', 2)], 'out.nc')]))
        E.prove('where it is from', z3.BoolVal(len(h) == 1 and all(w in h[0] for w in ('f1', 'f2', 'f3', 'va', 'vb'))))
    else:
        E.prove('nothing is saved', z3.BoolVal(not saved))


RULE = ('pairs of data sets of one to three dimensions, all types, memory layouts and missing values; gridded and ungridded; '
        'ties and equal values')
BOUNDED_FUNCTIONS = [ST + ':StatsAnalyzer.analyze']
DT = ['f8', 'f8', 'f4', 'i8', 'i4', 'i2', 'u1', 'u2', '>f8']


def cases(rng, tier, scale):
    k = 0
    while True:
        k += 1
        shapes = rng.choice([[[3], [3]], [[4], [4]], [[2, 3], [2, 3]], [[2, 3], [6]], [[8], [2, 2, 2]], [[5], [5]], [[10], [5, 2]], [[4, 2], [2, 4]],
                             [[12], [12]], [[7], [7]]])
        n = int(np.prod(shapes[0]))

        def var():
            return dict(vals=[rng.randint(1, 250) for _ in range(n)] if rng.random() < .6 else
                        [rng.randint(1, 6) for _ in range(n)], mask=C.maybe_mask(rng, n, .6), dtype=rng.choice(DT),
                        layout=rng.choice(['C', 'C', 'F', 'strided', 'reversed']), gridded=rng.random() < .4)
        c = dict(kind='stats', shapes=shapes, a=var(), b=var())
        if rng.random() < .3:
            c['b']['vals'] = [v + rng.choice([0, 0, 1]) for v in c['a']['vals']]
        if rng.random() < .2:
            for i in range(n):
                if rng.random() < .4:
                    c['a']['vals'][i] = 0
        for v in (c['a'], c['b']):
            if v['dtype'] in ('i2', 'i4', 'u2', 'u1', 'i8') and rng.random() < .3:
                lo, hi = dict(i2=(-32768, 32767), i4=(-2**31, 2**31 - 1), u2=(0, 65535), u1=(0, 255), i8=(-2**40, 2**40))[v['dtype']]
                v['vals'] = [rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(n)]
        if k % 12 == 0:
            c['kind'] = 'command'
        yield c


def make(v, shape, name):
    from props.c19 import array
    from cis.data_io.ungridded_data import UngriddedData, Metadata
    from cis.data_io.gridded_data import GriddedData
    from cis.data_io.Coord import Coord, CoordList
    a = array(v, shape)
    if v['gridded']:
        return GriddedData(a, var_name=name, long_name=name, units='1')
    n = int(np.prod(shape))
    cs = CoordList([Coord(np.arange(n, dtype=float).reshape(shape), Metadata(standard_name='latitude', units='degrees'), 'Y')])
    return UngriddedData(a, Metadata(name=name, long_name=name, units='1'), cs)


def mean(x):
    return math.fsum(x) / len(x) if x else None


def sd(x):
    if len(x) < 2:
        return None
    m = mean(x)
    return math.sqrt(math.fsum((v - m) ** 2 for v in x) / (len(x) - 1))


def ranks(x):
    return [sum(1 for w in x if w < v) + (sum(1 for w in x if w == v) + 1) / 2. for v in x]


def pearson(x, y):
    if len(x) < 3 or len(set(x)) == 1 or len(set(y)) == 1:
        return None
    return math.fsum((a - mean(x)) * (b - mean(y)) for a, b in zip(x, y)) / (len(x) - 1) / sd(x) / sd(y)


NAMES = ['num_points', 'dataset_mean_1', 'dataset_mean_2', 'dataset_stddev_1', 'dataset_stddev_2', 'abs_mean', 'abs_stddev', 'rel_mean',
         'rel_stddev', 'spearman', 'regression_gradient', 'regression_intercept', 'regression_r', 'regression_stderr']
TEXT = ['Number of points', 'Mean value of dataset 1', 'Mean value of dataset 2', 'Standard deviation for dataset 1',
        'Standard deviation for dataset 2', 'Mean of absolute difference', 'Standard deviation of absolute difference',
        'Mean of relative difference', 'Standard deviation of relative difference', "Spearman's rank coefficient",
        'Linear regression gradient', 'Linear regression intercept', 'Linear regression r-value', 'Linear regression standard error']


def check(c):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return stats_check(c) or (command_check(c) if c['kind'] == 'command' else None)


def command_check(c):
    import contextlib
    import io
    import os
    import tempfile
    from unittest import mock
    import netCDF4
    from cis import cis_main
    from cis.stats import StatsAnalyzer
    d = [make(c[x], s, 'v' + x) for x, s in zip('ab', c['shapes'])]
    x, y = [C.vals(e.data) for e in d]
    x = [p for p, q in zip(x, y) if p is not None and q is not None]
    if len(x) < 3 or len(set(x)) == 1:
        return None
    want = [(r.as_cube(), r.pprint()) for r in StatsAnalyzer(*d).analyze()]
    groups = [dict(filenames=['one.nc', 'two.nc'], variables=['va']), dict(filenames=['three.nc'], variables=['vb'])]
    out = io.StringIO()
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'stats.nc')
        args = mock.Mock(datagroups=groups, output=f)
        with mock.patch.object(cis_main, 'DataReader') as reader, contextlib.redirect_stdout(out):
            reader.return_value.read_datagroups.return_value = list(d)
            cis_main.stats_cmd(args)
        if reader.return_value.read_datagroups.call_args != mock.call(groups):
            return 'read %s' % (reader.return_value.read_datagroups.call_args,), 'command'
        lines = out.getvalue().splitlines()
        if lines[-len(want):] != [t for q, t in want]:
            return 'printed %s instead of %s' % (lines, [t for q, t in want]), 'command'
        nc = netCDF4.Dataset(f)
        try:
            for q, t in want:
                if q.var_name not in nc.variables:
                    return '%s is not in the output' % q.var_name, 'command'
                a, b = np.ma.ravel(nc.variables[q.var_name][...]), np.ma.ravel(q.data)
                if not C.same_vals(C.vals(a), C.vals(b)):
                    return '%s is %s in the output, not %s' % (q.var_name, a, b), 'command'
                h = getattr(nc.variables[q.var_name], 'history', '') + getattr(nc, 'history', '')
                if not all(w in h for w in ('one.nc', 'two.nc', 'three.nc', 'va', 'vb')):
                    return 'the history is %s' % h, 'command'
        finally:
            nc.close()
    return None


def stats_check(c):
    from cis.stats import StatsAnalyzer
    d = [make(c[x], s, 'v' + x) for x, s in zip('ab', c['shapes'])]
    x, y = [C.vals(e.data) for e in d]
    pairs = [(float(p), float(q)) for p, q in zip(x, y) if p is not None and q is not None]
    if len(pairs) < 3:
        return None
    x, y = [p for p, q in pairs], [q for p, q in pairs]
    before = [C.snap(e.data) for e in d]
    plain = not any(isinstance(e.data, np.ma.MaskedArray) for e in d)
    diff = [q - p for p, q in pairs]
    rel = [(q - p) / p for p, q in pairs if p]
    if plain and 0 in x:
        rel = []
    want = [len(pairs), mean(x), mean(y), sd(x), sd(y), mean(diff), sd(diff), mean(rel) if rel else None, sd(rel) if rel else None,
            pearson(ranks(x), ranks(y)), None, None, None, None]
    scales = dict(abs_mean=max(map(abs, x + y)), abs_stddev=max(map(abs, x + y)), rel_mean=max(map(abs, rel + [0])),
                  rel_stddev=max(map(abs, rel + [0])), dataset_mean_1=max(map(abs, x)), dataset_mean_2=max(map(abs, y)))
    r = pearson(x, y)
    if r is not None:
        g = r * sd(y) / sd(x)
        g0 = mean(y) - g * mean(x)
        err = math.sqrt(math.fsum((q - g0 - g * p) ** 2 for p, q in pairs) / (len(x) - 2) / math.fsum((p - mean(x)) ** 2 for p in x))
        scales.update(regression_gradient=abs(g), regression_intercept=abs(mean(y)) + abs(g * mean(x)), regression_stderr=100 * abs(g) + 100 * err)
        want[10:] = [g, mean(y) - g * mean(x), r, err]
    spread = len(set(x)) > 1
    res = StatsAnalyzer(*d).analyze() if spread else None
    if res is None:
        return None
    if [C.snap(e.data) for e in d] != before:
        return 'the data is changed', 'changed'
    if len(res) != len(NAMES):
        return '%d results' % len(res), 'number'
    tol = 1e-3 if 'f4' in (c['a']['dtype'], c['b']['dtype']) else 1e-7
    for e, w, nm, text in zip(res, want, NAMES, TEXT):
        cube = e.as_cube()
        if cube.var_name != nm:
            return '%s instead of %s' % (cube.var_name, nm), 'order'
        p = e.pprint()
        if not p.startswith(text):
            return '%s instead of %s' % (p, text), 'text'
        if w is None:
            continue
        v = cube.data
        if v.size != 1 or np.ma.is_masked(v):
            return '%s is %s, not %s' % (nm, v, w), nm
        v = float(np.ma.getdata(v).ravel()[0])
        if not abs(v - w) <= tol * max(1., abs(w), scales.get(nm, 0)):
            return '%s is %s, not %s (types %s, %s)' % (nm, v, w, c['a']['dtype'], c['b']['dtype']), nm
        shown = p[p.rindex(':') + 1:].strip()
        if not abs(float(shown) - v) <= 1e-6 * max(1., abs(v)):
            return '%s is shown as %s' % (nm, p), 'text'
    for s, nm in zip(range(2), ('va', 'vb')):
        if nm not in res[1 + s].as_cube().long_name or nm not in res[3 + s].as_cube().long_name:
            return 'the statistics of %s are named %s' % (nm, res[1 + s].as_cube().long_name), 'names'
    return None


def nontrivial(c):
    return c['a']['mask'] is not None or c['b']['mask'] is not None
