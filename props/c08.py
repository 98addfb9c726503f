"""C08 statistical kernels"""
from vc.api import *
from vc.frame import SFrame, Row
from props import common as C

ID = 'C08'
LEVEL = 'proof'
PROPERTY = dict(
    title='Statistical kernels give the statistics of exactly the selected values',
    statement='With the kernels mean, stddev, min, max, sum and moments, the output for a sample point or grid cell is that '
              'statistic of the values of the selected data points, each counted once: the arithmetic mean, the corrected '
              'sample standard deviation (divisor n-1), the smallest, the largest, the sum; moments gives the mean, the '
              'standard deviation and the number of points as three outputs. Missing data values never contribute. Without '
              'any point every output is missing (for grid cells also the number); the standard deviation of one point is '
              'missing. The order of the points does not matter. Outputs of moments for variable X are named X, X_std_dev and '
              'X_num_points; the mean and deviation keep the units and the number has none.',
    over=['inputs'],
    text='any number and order of values',
    why='Tests compare a few hand-computed values; wrong divisors, double counting and missing values only show for '
        'particular numbers of points.',
    files=['cis/collocation/col_implementations.py', 'cis/collocation/col_framework.py'],
    mechanism=[('kernels', 'cis/collocation/col_implementations.py: mean, stddev, min, max, sum, moments'),
               ('values of the points', 'cis/collocation/col_framework.py: AbstractDataOnlyKernel.get_value')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5), numpy reductions by contract; end-to-end runs bounded'
NOTE = 'The kernels are proved to be the reductions over exactly the values given; the reductions themselves are numpy.'
ASSUMPTIONS = ['numpy.mean/std/min/max/sum/size are trusted: SUM(x)/n, sqrt(sum (x-mean)^2/(n-ddof)), ...',
               'reals instead of floating point', 'whole collocations and aggregations are checked bounded']
CI = 'cis.collocation.col_implementations'
FW = 'cis.collocation.col_framework'


class Reductions(object):
    """ghost reductions of the vector of values"""

    def __init__(self, E, vals):
        self.E, self.vals, self.n = E, vals, vals.shape[0]
        self.mean, self.sum, self.var = Real('MEAN'), Real('SUM'), Real('VAR')
        self.min, self.max, self.missing = Real('MIN'), Real('MAX'), Real('MISSING')
        n = self.n
        E.assume(self.sum == Num(self.mean.real() * z3.ToReal(n.e)))
        E.assume(Num(self.var.e) >= 0)
        for nm in ('numpy.mean', 'numpy.average'):
            lib_contract(nm, self.plain(self.mean))
        lib_contract('numpy.sum', self.plain(self.sum))
        lib_contract('numpy.min', self.plain(self.min))
        lib_contract('numpy.max', self.plain(self.max))
        lib_contract('numpy.amin', self.plain(self.min))
        lib_contract('numpy.amax', self.plain(self.max))
        lib_contract('numpy.var', self.spread(lambda x: x))
        self.rootf = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
        lib_contract('numpy.std', self.spread(lambda x: Num(self.rootf(lift(x).real()))))
        lib_contract('numpy.sqrt', lambda x: Num(self.rootf(lift(x).real())))
        lib_contract('numpy.size', self.plain(n))

    def plain(self, v):
        def f(x, *a, **k):
            self.whole(x, a, k)
            return v
        return f

    def spread(self, g):
        def f(x, axis=None, dtype=None, out=None, ddof=0, **k):
            self.whole(x, (axis, dtype, out), k)
            # VAR is the sum of squared deviations from the mean
            # (and there is no standard deviation, a missing value, unless there are more values than ddof)
            ddof = lift(ddof).real()
            return ite(z3.ToReal(self.n.e) > ddof, g(Num(self.var.real() / (z3.ToReal(self.n.e) - ddof))), self.missing)
        return f

    def whole(self, x, a, k):
        """the reduction is applied to exactly the values"""
        if k or any(v is not None for v in a):
            raise Unsupported('arguments of a reduction')
        x = asarr(x)
        i = Int(self.E.fresh('at'))
        self.E.prove('reduction over all the values', z3.And(iterm(x.shape[0]) == iterm(self.n), zbool(implies(
            in_range(i, self.n), same(x.at(i), self.vals.at(i))))))


def values_of(E):
    n = Int('n')
    E.assume(n >= 0)
    vals = fresh_array('vals', (n,), 'r')
    R = Reductions(E, vals)
    i = qint('i')
    E.assume(z3.Implies(n.e > 0, z3.And(z3.Exists([i], z3.And(0 <= i, i < n.e, vals.at(i).real() == R.min.real())),
                                        forall(i, implies(in_range(i, n), vals.at(i) >= R.min)))))
    return n, vals, R


from vc.engine import zbool  # noqa


def expected(name, R):
    return dict(mean=lambda: [R.mean], sum=lambda: [R.sum], min=lambda: [R.min], max=lambda: [R.max],
                stddev=lambda: [std(R)], moments=lambda: [R.mean, std(R), R.n])[name]()


def std(R):
    return ite(z3.ToReal(R.n.e) > 1, Num(R.rootf(R.var.real() / (z3.ToReal(R.n.e) - 1))), R.missing)


def kern(name):
    @unit(UNITS, '%s kernel' % name, ['%s:%s.get_value_for_data_only' % (CI, name), FW + ':AbstractDataOnlyKernel.get_value'])
    def u(E):
        n, vals, R = values_of(E)
        K = M(CI).__dict__[name]()
        direct = E.choose('get_value_for_data_only')
        if direct:
            E.assume(n >= 1)
            r, e = raises(K.get_value_for_data_only, vals)
        else:
            frame = SFrame({'vals': vals, 'latitude': fresh_array('lat', (n,), 'r')}, n)
            r, e = raises(K.get_value, object(), frame)
        E.cover()
        if e is not None:
            E.prove('ValueError only without points', z3.And(z3.BoolVal(isinstance(e, ValueError)), n.e == 0))
            return
        E.prove('a value needs a point', n >= 1)
        want = expected(name, R)
        got = list(r) if isinstance(r, (tuple, list)) else [r]
        E.prove('number of results', z3.BoolVal(len(got) == len(want) == K.return_size))
        for j, (g, w) in enumerate(zip(got, want)):
            g = lift(g)
            if name in ('stddev', 'moments') and j == len(want) // 2:
                E.prove('corrected standard deviation, missing for a single value', same(g, w))
            else:
                E.prove('result %d is the statistic of the values' % j, same(g, w))
    return u


for _n in ('mean', 'stddev', 'min', 'max', 'sum', 'moments'):
    kern(_n)


@unit(UNITS, 'moments.get_variable_details', [CI + ':moments.get_variable_details', FW + ':Kernel.get_variable_details'])
def u_details(E):
    """finite: the details are built from the given strings only"""
    K = M(CI).moments()
    for name, long_, std_, units in (('X', 'long name', 'air_temperature', 'K'), ('Y', '', None, '')):
        d = K.get_variable_details(name, long_, std_, units)
        E.prove('three variables', z3.BoolVal(len(d) == 3))
        E.prove('mean keeps name and units', z3.BoolVal((d[0][0], d[0][1], d[0][2], d[0][3]) == (name, long_, std_, units)))
        E.prove('standard deviation', z3.BoolVal((d[1][0], d[1][2], d[1][3]) == (name + '_std_dev', None, units)))
        E.prove('number of points', z3.BoolVal((d[2][0], d[2][2], d[2][3]) == (name + '_num_points', None, '')))
    d = M(CI).mean().get_variable_details('X', 'l', 's', 'K')
    E.prove('other kernels keep the details', z3.BoolVal(tuple(map(tuple, d)) == (('X', 'l', 's', 'K'),)))
    E.cover()


# ---- bounded ------------------------------------------------------------------------------------------------------------
RULE = 'kernels called directly, through ungridded collocation, through collocation onto a grid and through aggregation'
BOUNDED_FUNCTIONS = ['UngriddedData.collocated_onto', 'UngriddedData.aggregate', 'moments.get_variable_details']
KERN = ['mean', 'stddev', 'min', 'max', 'sum', 'moments']


def cases(rng, tier, scale):
    for t in range(260 * scale):
        n = rng.choice([0, 1, 2, 2, 3, 5, 9, 17])
        k = rng.random()
        vals = [C.q(rng.uniform(-100, 100)) for _ in range(n)]
        if k < .15:
            vals = [v + 1e6 for v in vals]
        elif k < .3:
            vals = [7.5] * n
        elif k < .4:
            vals = [float(round(v)) for v in vals]
        yield dict(vals=vals, mask=C.maybe_mask(rng, n), kernel=rng.choice(KERN), cell=[rng.randrange(3) for _ in range(n)],
                   how=rng.choice(['direct', 'ungridded', 'gridded', 'aggregate']), name=rng.choice(['X', 'aod']),
                   units=rng.choice(['K', '1', 'kg m-2']), two=rng.random() < .25, long=rng.choice(['some value', 'q']),
                   fill=rng.choice([None, -5.]), dtype=rng.choice(['float', 'float', 'int']) if n else 'float')


def stats(name, v):
    import math
    n = len(v)
    if not n:
        return [None] * (3 if name == 'moments' else 1)
    mean = math.fsum(v) / n
    sd = math.sqrt(math.fsum((x - mean) ** 2 for x in v) / (n - 1)) if n > 1 else None
    return dict(mean=[mean], stddev=[sd], min=[min(v)], max=[max(v)], sum=[math.fsum(v)], moments=[mean, sd, n])[name]


def check(c):
    from cis.collocation import col_implementations as ci
    from cis.data_io.ungridded_data import UngriddedDataList
    vals, k = c['vals'], c['kernel']
    n = len(vals)
    mask = c['mask'] or [False] * n
    if c['dtype'] == 'int':
        vals = [int(v) for v in vals]
    if c['how'] == 'direct':
        import pandas as pd
        K = getattr(ci, k)()
        df = pd.DataFrame(dict(latitude=[0.] * n, vals=vals))
        orders = [range(n), range(n - 1, -1, -1)]
        for o in orders:
            d = df.iloc[list(o)]
            try:
                got = K.get_value(None, d)
            except ValueError:
                if n:
                    return 'ValueError for %d points' % n
                continue
            if not n:
                return 'value %r for no points' % (got,)
            got = list(got) if k == 'moments' else [got]
            if not C.same_vals([None if x != x else x for x in got], stats(k, vals), 1e-8):
                return '%s of %r gave %r, expected %r' % (k, vals, got, stats(k, vals))
        return
    if n == 0:
        return
    cell = c['cell']
    lons = [10. * x + 1 + .25 * i for i, x in enumerate(cell)]
    lats = [0.] * n
    mk = lambda f, name: C.ung(dict(coords=dict(latitude=lats, longitude=lons), vals=[f(v) for v in vals], mask=c['mask'],
                                    name=name, units=c['units'], long_name=c['long'], dtype=c['dtype']))
    d = mk(lambda v: v, c['name'])
    fs = [lambda v: v]
    if c['two']:
        fs.append(lambda v: 2 * v + 1)
        d = UngriddedDataList([d, mk(fs[1], 'second')])
    names = [c['name'], 'second']
    kw = dict(fill_value=c['fill']) if c['fill'] is not None else {}
    if c['how'] == 'ungridded':
        s = C.ung(dict(coords=dict(latitude=[0.] * 3, longitude=[3., 13., 23.]), vals=[1.] * 3))
        out = d.collocated_onto(s, how='box', h_sep='560km', kernel=k, **kw)
        groups = [[i for i in range(n) if abs(lons[i] - x) * 111.195 < 560 and not mask[i]] for x in (3., 13., 23.)]
        for i in range(n):
            if any(abs(abs(lons[i] - x) * 111.195 - 560) < 2 for x in (3., 13., 23.)):
                return
    else:
        if c['how'] == 'gridded':
            g = C.cube(dict(dims=[dict(name='latitude', points=[-10., 0., 10.], guess=True),
                                  dict(name='longitude', points=[5., 15., 25.], guess=True)], data=[0.] * 9))
            out = d.collocated_onto(g, how='bin', kernel=k, **kw)
            row = lambda a: C.vals(a[1])
        else:
            out = d.aggregate(how=k, x=[0, 30, 10], y=[-5, 5, 10])
            out = out if isinstance(out, list) else [out]
            row = lambda a: C.vals(a.ravel())
        groups = [[i for i in range(n) if 10 * x <= lons[i] < 10 * x + 10 and not mask[i]] for x in range(3)]
    per = 3 if k == 'moments' else 1
    if len(out) != per * len(fs):
        return '%d outputs' % len(out)
    for v, f in enumerate(fs):
        want = [stats(k, [float(f(vals[i])) for i in g]) for g in groups]
        for j in range(per):
            o = out[v * per + j]
            got = C.vals(o.data) if c['how'] == 'ungridded' else row(o.data)
            got = [None if x is not None and x != x else x for x in got]
            if not C.same_vals(got, [w[j] for w in want], 1e-6):
                return '%s[%d] %s: got %r, expected %r' % (k, j, c['how'], got, [w[j] for w in want])
            nm = names[v] + ['', '_std_dev', '_num_points'][j if per == 3 else 0]
            if o.var_name != nm:
                return 'output is named %r, expected %r' % (o.var_name, nm)
            un = str(o.units)
            if (j < 2 and un != c['units']) or (j == 2 and un not in ('', '1', 'no_unit', 'unknown')):
                return 'units of output %s are %r' % (nm, un)


def nontrivial(c):
    return len(c['vals']) > 1
