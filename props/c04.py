"""C04 forms of subset limits"""
from vc.api import *
from props import common as C
import datetime as _dt

ID = 'C04'
LEVEL = 'proof'
PROPERTY = dict(
    title='Subset limits mean what was asked: pairs, open ends, dates, partial dates',
    statement='A limit given as a pair, a list or a slice means the same closed range for gridded and ungridded data; an end '
              'left open means the extreme of the coordinate; a datetime limit compares with the times of the data, and a '
              'partial date selects exactly the times within that year, month, day, hour, minute or second. A coordinate can be '
              'named by name, standard name, axis or variable name; limits on an unknown coordinate, or with the wrong number '
              'of values, raise an error rather than being ignored. The order in which limits are given does not matter.',
    over=['inputs'],
    text='every limit value and every valid date; every year from 1 to 9998 for the length of months',
    why='Tests use one fixed partial date; the ends of months, leap years, one-sided datetime limits and coordinate aliases '
        'need specific inputs.',
    files=['cis/subsetting/subset.py', 'cis/time_util.py', 'cis/data_io/common_data.py'],
    mechanism=[('limit parsing', 'cis/subsetting/subset.py: subset'),
               ('partial dates', 'cis/time_util.py: PartialDateTime.min/max, find_last_day_of_month'),
               ('coordinate lookup', 'cis/data_io/common_data.py: CommonData._get_coord')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); month lengths by exhaustive enumeration'
NOTE = ('Proved for all limit values and all dates; datetime objects are modelled by their components ordered '
        'lexicographically (trusted). Month lengths are enumerated for every month of the calendar.')
ASSUMPTIONS = ['datetime.datetime orders lexicographically by its components', 'times within one second of a datetime limit '
               'are not claimed (num2date rounds to microseconds)', 'shapely.wkt.loads is trusted']
SUB = 'cis.subsetting.subset'
TU = 'cis.time_util'


class SDate(object):
    """datetime.datetime by its components"""
    _vc_symbolic = True

    def __init__(self, year, month, day, hour=0, minute=0, second=0):
        self.c = [year, month, day, hour, minute, second]


def le(a, b):
    r = z3.BoolVal(True)
    for x, y in reversed(list(zip(a, b))):
        x, y = lift(x), lift(y)
        r = z3.Or(x.e < y.e, z3.And(x.e == y.e, r))
    return r


NAMES = ['year', 'month', 'day', 'hour', 'minute', 'second']


def last_day(y, m):
    f = z3.Function('last_day', z3.IntSort(), z3.IntSort(), z3.IntSort())
    return f(iterm(y), iterm(m))


def make_partial(k):
    @unit(UNITS, 'PartialDateTime[%s]' % NAMES[k - 1], [TU + ':PartialDateTime.min', TU + ':PartialDateTime.max',
                                                        TU + ':PartialDateTime.range', TU + ':PartialDateTime.__init__'])
    def u(E, k=k):
        mod = M(TU)
        override('datetime', datetime=SDate, timedelta=_dt.timedelta)

        def fl(y, m):
            use('find_last_day_of_month: number of days of the month (exhaustively enumerated)')
            return Num(last_day(y, m))
        patch(mod, 'find_last_day_of_month', fl)
        p = [Int(n) for n in NAMES[:k]]
        t = [Int('t_' + n) for n in NAMES]
        lows, highs = [1, 1, 1, 0, 0, 0], [9998, 12, None, 23, 59, 59]

        def valid(c):
            return z3.And(*[z3.And(x.e >= l, (x.e <= h) if h is not None else x.e <= last_day(c[0], c[1]))
                            for x, l, h in zip(c, lows, highs)])
        q1, q2 = qint('q1'), qint('q2')
        E.assume(forall([q1, q2], z3.And(last_day(q1, q2) >= 28, last_day(q1, q2) <= 31)))
        E.assume(valid(p))
        E.assume(valid(t))
        E.cover()
        pdt = mod.PartialDateTime(*p)
        if E.choose('range'):
            lo, hi = pdt.range()
        else:
            lo, hi = pdt.min(), pdt.max()
        within = z3.And(*[a.e == b.e for a, b in zip(p, t)])
        E.prove('exactly the times of the period are between min and max',
                z3.And(le(lo.c, t), le(t, hi.c)) == within)
        E.prove('min and max are dates of the period', z3.And(valid([lift(x) for x in lo.c]), valid([lift(x) for x in hi.c]),
                                                                *[z3.And(lift(a).e == b.e, lift(c).e == b.e)
                                                                  for a, b, c in zip(lo.c, p, hi.c)]))
    return u


for _k in range(1, 7):
    make_partial(_k)


class FC(object):
    _vc_symbolic = True

    def __init__(self, nm, points):
        self._name, self.points = nm, points
        self.units = types.SimpleNamespace(num2pydate=lambda x: ('pydate', x))

    def name(self):
        return self._name


def limits_of(E, kwargs, coords, shape=None):
    """runs the real subset() and returns the limits handed to the constraint"""
    mod = M(SUB)
    got = []

    class Cons(object):
        def __init__(self, c):
            got.append(c)

        def constrain(self, d):
            got.append(d)
            return res

        def __str__(self):
            return 'limits'

    class Res(object):
        _vc_symbolic = True
        history = []

        def add_history(self, h):
            self.history = self.history + [h]
    res = Res() if E.choose('some points') else None

    class Data(object):
        _vc_symbolic = True

        def _get_coord(self, n):
            return coords.get(n)

        def coord(self, standard_name=None, **k):
            return coords[standard_name]
    d = Data()
    r, ex = raises(mod.subset, d, Cons, **kwargs)
    if ex is None:
        E.prove('the constraint is applied to the data', z3.BoolVal(len(got) == 2 and got[1] is d))
        E.prove('and its result returned', z3.BoolVal(r is res))
    return got[0] if got else None, ex


def dateobj():
    return _dt.datetime(2000, 1, 2)


@unit(UNITS, 'subset limits', [SUB + ':subset'])
def u2(E):
    mod = M(SUB)
    a, b = Real('a'), Real('b')
    n = Int('n')
    E.assume(n >= 1)
    pts = fresh_array('pts', (n,))
    c1, c2 = FC('longitude', pts), FC('time', fresh_array('times', (n,)))
    coords = dict(x=c1, longitude=c1, t=c2, time=c2)
    forms = [(a, b), [a, b], slice(a, b), (None, b), [a, None], slice(None, b), slice(a, None), (None, None)]
    k = 0
    while k < len(forms) - 1 and not E.choose('form%d' % k):
        k += 1
    name = 'x' if E.choose('alias') else 'longitude'
    kw = {name: forms[k]}
    if E.choose('two'):
        kw = dict([('t', (Real('c'), Real('d')))] + list(kw.items()))
    E.cover()
    lims, ex = limits_of(E, kw, coords)
    E.prove('accepted', z3.BoolVal(ex is None))
    if ex is not None:
        return
    E.prove('each limited coordinate, by its own name', z3.BoolVal(
        set(lims) == ({'longitude', 'time'} if 't' in kw else {'longitude'})))
    l = lims['longitude']
    f = forms[k]
    lo, hi = (f.start, f.stop) if isinstance(f, slice) else f
    i = Int('i')
    E.assume(in_range(i, n))
    if lo is None:
        E.prove('open start: the smallest value', lift(l.start) <= pts.at(i))
    else:
        E.prove('start as given', lift(l.start) == lo)
    if hi is None:
        E.prove('open end: the largest value', lift(l.stop) >= pts.at(i))
    else:
        E.prove('end as given', lift(l.stop) == hi)
    if lo is None:
        j = qint('j')
        E.prove('open start: a value of the coordinate', z3.Exists([j], z3.And(in_range(j, n), zbool(lift(l.start) == pts.at(j)))))
    if hi is None:
        j = qint('j')
        E.prove('open end: a value of the coordinate', z3.Exists([j], z3.And(in_range(j, n), zbool(lift(l.stop) == pts.at(j)))))


@unit(UNITS, 'subset datetime limits', [SUB + ':subset'])
def u3(E):
    n = Int('n')
    E.assume(n >= 1)
    pts = fresh_array('times', (n,))
    c2 = FC('time', pts)
    T = M(TU)
    d1, d2 = _dt.datetime(2000, 1, 2, 3), _dt.datetime(2001, 1, 1)
    P = T.PartialDateTime(2000, 2)
    forms = [(d1, d2), slice(d1, d2), (d1, None), slice(None, d2), P, [P], (P,)]
    k = 0
    while k < len(forms) - 1 and not E.choose('form%d' % k):
        k += 1
    E.cover()
    lims, ex = limits_of(E, {'t': forms[k]}, dict(t=c2))
    E.prove('accepted', z3.BoolVal(ex is None))
    if ex is not None:
        return
    l = lims['time']
    if k >= 4:
        E.prove('a partial date means its first to its last second', z3.BoolVal(
            (l.start, l.stop) == (_dt.datetime(2000, 2, 1), _dt.datetime(2000, 2, 29, 23, 59, 59))))
        return
    lo, hi = [(d1, d2), (d1, d2), (d1, None), (None, d2)][k]
    i = Int('i')
    E.assume(in_range(i, n))
    if lo is not None:
        E.prove('start as given', z3.BoolVal(l.start == lo))
    else:
        ok = isinstance(l.start, tuple) and l.start[0] == 'pydate'
        E.prove('an open start next to a datetime is the datetime of the first time', z3.BoolVal(ok))
        E.prove('... of the smallest value', lift(l.start[1]) <= pts.at(i))
    if hi is not None:
        E.prove('end as given', z3.BoolVal(l.stop == hi))
    else:
        ok = isinstance(l.stop, tuple) and l.stop[0] == 'pydate'
        E.prove('an open end next to a datetime is the datetime of the last time', z3.BoolVal(ok))
        E.prove('... of the largest value', lift(l.stop[1]) >= pts.at(i))


@unit(UNITS, 'subset rejects', [SUB + ':subset'])
def u4(E):
    n = Int('n')
    E.assume(n >= 1)
    c = FC('time', fresh_array('times', (n,)))
    X = M('cis.exceptions')
    forms = [('nosuch', (1, 2)), ('t', (1,)), ('t', (1, 2, 3)), ('t', [])]
    k = 0
    while k < len(forms) - 1 and not E.choose('form%d' % k):
        k += 1
    E.cover()
    lims, ex = limits_of(E, dict([forms[k]]), dict(t=c))
    E.prove('rejected', z3.BoolVal(lims is None))
    E.prove('with an error naming the problem', z3.BoolVal(isinstance(ex, X.CoordinateNotFoundError) if k == 0
                                                            else isinstance(ex, ValueError)))


@unit(UNITS, 'subset shape', [SUB + ':subset'])
def u5(E):
    n = Int('n')
    E.assume(n >= 1)
    x, y = FC('longitude', fresh_array('x', (n,))), FC('latitude', fresh_array('y', (n,)))
    bounds = tuple(Real(v) for v in ('x0', 'y0', 'x1', 'y1'))

    class Shape(object):
        _vc_symbolic = True
    sh = Shape()
    sh.bounds = bounds
    wkt = E.choose('wkt')

    def loads(s):
        expect(s == 'POLYGON')
        return sh
    override('shapely.wkt', loads=loads)
    E.cover()
    lims, ex = limits_of(E, {'shape': 'POLYGON' if wkt else sh}, dict(longitude=x, latitude=y))
    E.prove('accepted', z3.BoolVal(ex is None))
    E.prove('the shape is handed on', z3.BoolVal(lims.get('shape') is sh))
    for nm, a, b in (('longitude', 0, 2), ('latitude', 1, 3)):
        l = lims[nm]
        E.prove('the box of the shape does not cut the shape', and_(lift(l.start) <= bounds[a], lift(l.stop) >= bounds[b]))


# ---- bounded / exhaustive ---------------------------------------------------------------------------------------------
SHARDS = 4
LIMIT_S = 20
RULE = ('month lengths: every month of the years 1..9998 (exhaustive); otherwise times of 1-6 points or cells on and next to '
        'the limits, all forms of limits')
BOUNDED_FUNCTIONS = ['subset() for gridded and ungridded data, find_last_day_of_month (exhaustive)']


def cases(rng, tier, scale):
    yield dict(kind='months')
    while True:
        gridded = rng.random() < .4
        n = rng.randrange(1, 7)
        base = _dt.datetime(rng.choice([1600, 1999, 2000, 2001, 2004, 2008]), rng.randrange(1, 13), rng.randrange(1, 29),
                            rng.randrange(24), rng.randrange(60), rng.randrange(60))
        kind = rng.choice(['partial', 'partial', 'pair', 'open', 'num'])
        k = rng.randrange(1, 7)
        comp = [base.year, base.month, base.day, base.hour, base.minute, base.second][:k]
        # times around the ends of the period
        import calendar
        lo = _dt.datetime(*(comp + [1, 1, 1, 0, 0, 0][k:]))
        full = comp + [None] * (6 - k)
        hi = _dt.datetime(full[0], full[1] or 12, full[2] or calendar.monthrange(full[0], full[1] or 12)[1],
                          23 if full[3] is None else full[3], 59 if full[4] is None else full[4],
                          59 if full[5] is None else full[5])
        ts = set()
        while len(ts) < n:
            r = rng.random()
            if r < .6:
                t = rng.choice([lo, hi]) + _dt.timedelta(seconds=rng.choice([0, 3, -3, 3600, -3600, 86400, -86400, 40, -40]))
            else:
                t = lo + (hi - lo) / 10 * rng.randrange(0, 11)
            if t.year < 1600:
                t = lo
                n = min(n, 3)
            ts.add(t.replace(microsecond=0).isoformat())
            if len(ts) < n and rng.random() < .1:
                n = len(ts)
        ts = sorted(ts)
        if not gridded:
            rng.shuffle(ts)
        a, b = sorted([rng.choice(ts), rng.choice(ts)])
        off = rng.choice([0, 0, 5, -5])
        yield dict(kind=kind, gridded=gridded, times=ts, comp=comp, lo=lo.isoformat(), hi=hi.isoformat(), a=a, b=b, off=off,
                   form=rng.choice(['slice', 'list', 'tuple']), name=rng.choice(['time', 't', 'tim', 'T']),
                   side=rng.randrange(3), x=[C.q(rng.uniform(0, 20)) for _ in ts], xa=C.q(rng.uniform(0, 20)))


def nontrivial(c):
    return c['kind'] != 'months'


def check(c):
    import calendar
    from cis.time_util import PartialDateTime, find_last_day_of_month
    if c['kind'] == 'months':
        for y in range(1, 9999):
            for m in range(1, 13):
                if find_last_day_of_month(y, m) != calendar.monthrange(y, m)[1]:
                    return 'last day of %d-%d: %d' % (y, m, find_last_day_of_month(y, m))
        for bad in ((2000, None, 3), (2000, 1, None, 2), (None, 3), (2000, 13), (2001, 2, 29), (2000, 1, 1, 24)):
            try:
                PartialDateTime(*bad)
            except ValueError:
                continue
            return 'PartialDateTime%r accepted' % (bad,)
        return
    U = C.tunit()
    fi = _dt.datetime.fromisoformat
    ts = [fi(t) for t in c['times']]
    num = [float(U.date2num(t)) for t in ts]
    n = len(ts)
    if c['gridded']:
        d = C.cube(dict(dims=[dict(name='time', points=num), dict(name='latitude', points=[1., 2.])],
                        data=[float(i) for i in range(2 * n)]))
    else:
        d = C.ung(dict(coords=dict(latitude=[0.] * n, longitude=[0.] * n, time=num, altitude=c['x']),
                       vals=[float(2 * i) for i in range(n)]))
    wrap = dict(slice=lambda a, b: slice(a, b), list=lambda a, b: [a, b], tuple=lambda a, b: (a, b))[c['form']]
    lo = hi = None
    kw = {}
    if c['kind'] == 'partial':
        p = PartialDateTime(*c['comp'])
        kw[c['name']] = p if c['form'] == 'slice' else [p] if c['form'] == 'list' else (p,)
        lo, hi = fi(c['lo']), fi(c['hi'])
    elif c['kind'] in ('pair', 'open'):
        lo, hi = fi(c['a']), fi(c['b'])
        if c['off']:
            lo, hi = lo + _dt.timedelta(seconds=c['off']), hi + _dt.timedelta(seconds=c['off'])
        if c['kind'] == 'open':
            if c['side'] == 0:
                lo = None
            elif c['side'] == 1:
                hi = None
            else:
                lo = hi = None
                if c['gridded']:
                    return
        kw[c['name']] = wrap(lo, hi)
    else:
        if c['gridded']:
            return
        a, b = sorted([c['xa'], c['x'][0]])
        kw[['altitude', 'alt'][c['side'] % 2]] = wrap(*[(a, b), (None, b), (a, None)][c['side']])
        keep = [i for i in range(n) if (c['side'] == 1 or c['x'][i] >= a) and (c['side'] == 2 or c['x'][i] <= b)]
    if c['kind'] != 'num':
        # whole seconds: exactly on a limit is inside, but num2date may be a microsecond off
        sec = [round(U.date2num(t) * 86400) for t in ts]
        lim = [None if v is None else round(U.date2num(v) * 86400) for v in (lo, hi)]
        ts2 = U.num2date(np.array(num))
        keep, amb = [], False
        for i in range(n):
            for v, s in ((lo, 1), (hi, -1)):
                if v is not None and abs((ts[i] - v).total_seconds()) < 1 and str(ts2[i])[:19] != str(ts[i]):
                    amb = True
            if (lo is None or ts[i] >= lo) and (hi is None or ts[i] <= hi):
                keep.append(i)
        if amb or any(getattr(t, 'microsecond', 0) for t in ts2):
            return
    r = d.subset(**kw)
    if not keep:
        return None if r is None else 'no time is within %r but got %s' % (kw, C.vals(r.data))
    if r is None:
        return 'times %r are within %r but got None' % (keep, kw)
    got = sorted({int(v) // 2 for v in C.vals(r.data)})
    if got != sorted(keep):
        return 'times number %r kept, expected %r (limits %r)' % (got, keep, kw)
