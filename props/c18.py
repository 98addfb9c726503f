"""C18 conversion of times and units keeps what the values denote"""
import datetime as dt
import numpy as np
from vc.api import *
from vc import arr as A, npmodel
from props import common as C

ID = 'C18'
LEVEL = 'proof'
PROPERTY = dict(
    title='Times from every source become the same instants in standard time',
    statement='Converting times to standard time - from seconds since any reference (of any time of day), Julian dates, numbers '
              'with units of their own, numbers with the first word of their units and a time stamp, or dates - gives for every '
              'element the number of the same instant, missing exactly where it was missing, whatever the shape. A coordinate '
              'which is converted has the standard units and gives the new times through every view of it, gridded data keep the '
              'time coordinate along the same dimensions, with bounds which denote the same instants as before. Converting '
              'the units of ungridded data likewise keeps the quantities which the values denote, for any type of numbers.',
    over=['inputs'],
    text='any times, references, units, shapes, missing values and types of numbers',
    why='The tests convert a few whole days from references at midnight, and do not look at the coordinate by other views.',
    files=['cis/time_util.py', 'cis/data_io/Coord.py', 'cis/data_io/ungridded_data.py', 'cis/data_io/hyperpoint.py',
           'cis/data_io/products/cloudsat.py', 'cis/data_io/products/CCI.py', 'cis/data_io/products/NCAR_NetCDF_RAF.py'],
    mechanism=[('conversion of times', 'cis/time_util.py: convert_*'),
               ('coordinates', 'cis/data_io/Coord.py: Coord.convert_*; cis/data_io/ungridded_data.py: LazyData.convert_units'),
               ('gridded data', 'cis/time_util.py: convert_cube_time_coord_to_standard_time'),
               ('products', 'cis/data_io/products/cloudsat.py: _generate_time_array; CCI.py: convert_time_string_to_number, '
                            'load_single_file_callback; NCAR_NetCDF_RAF.py: _create_time_coord')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5); real units, calendars and cubes bounded'
NOTE = ('The calendar itself is cf_units/cftime: their num2date and date2num are used through the contract that they are '
        'inverses and that numbers count equal steps from an origin; the calendar arithmetic is checked bounded, against '
        'datetime.')
ASSUMPTIONS = ['cf_units.Unit.num2date/date2num: instant = origin + number * step, missing elements stay missing (bounded)',
               'datetime subtraction gives a timedelta of days, seconds (less than a day) and total_seconds',
               'cf_units.Unit.convert does not change its argument and converts every element (bounded)',
               'scalar time coordinates of gridded data keep their own units (as designed)']
TU = 'cis.time_util'
CO = 'cis.data_io.Coord'
UD = 'cis.data_io.ungridded_data'
DAY = 86400
STD = 'days since 1600-01-01 00:00:00'


class Dates(object):
    """an array of dates, through the instants (in days) which they denote"""
    _vc_symbolic = True

    def __init__(self, at):
        self.at = at


class SUnit(object):
    """units of time: the number x denotes the instant origin + x * step"""
    _vc_symbolic = True
    made = []

    def __init__(self, name, origin=None, step=None, **k):
        from vc import engine
        if step is None and ' since ' not in name and not name.startswith('units') and name != 'hours':
            raise ValueError('not units: %s' % name)
        self.name = name
        SUnit.made.append(name)
        engine.CUR.memo['unit ' + name] = self
        self.origin = Real('origin of ' + name) if origin is None else origin
        self.step = Real('step of ' + name) if step is None else step
        if step is None:
            engine.CUR.assume(self.step > 0)

    def __str__(self):
        return self.name

    def is_time_reference(self):
        return ' since ' in self.name or self.name.startswith('units')

    def num2date(self, x):
        if not self.is_time_reference():
            raise ValueError('not a time reference')
        use('cf_units.Unit.num2date')
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return SDate(lift(self.origin) + lift(x) * self.step)
        return Dates(x * self.step + self.origin)

    def date2num(self, d):
        use('cf_units.Unit.date2num')
        if isinstance(d, SDate):
            return (d.day - self.origin) / self.step
        if not isinstance(d, Dates):
            raise SpecMismatch('date2num of something which is not dates')
        return (d.at - self.origin) / self.step


class SDate(object):
    """one date: the instant `day` (days, with the time of day)"""
    _vc_symbolic = True

    def __init__(self, day):
        self.day = lift(day)

    def _vc_isinstance(self, t):
        return t is dt.datetime

    def __sub__(self, o):
        use('difference of dates')
        return Delta(self.day - o.day)

    def toordinal(self, fractional=False):
        use('cftime.datetime.toordinal: the Julian day number')
        if fractional:
            return self.day + 2305447.5
        return Num(z3.ToInt((self.day + 2305448).e))

    def __rsub__(self, o):
        if isinstance(o, dt.datetime):
            return Delta(lift((o - dt.datetime(1600, 1, 1)).total_seconds() / DAY) - self.day)
        return NotImplemented


class Delta(object):
    _vc_symbolic = True

    def __init__(self, d):
        self.d = d

    @property
    def days(self):
        return Num(z3.ToInt(self.d.real()))

    @property
    def seconds(self):
        return Num(z3.ToInt((self.d.real() - z3.ToReal(z3.ToInt(self.d.real()))) * DAY))

    def total_seconds(self):
        return self.d * DAY

    def __truediv__(self, o):
        if isinstance(o, dt.timedelta):
            return self.d * DAY / o.total_seconds()
        return NotImplemented


def pick(E, name, k):
    return next((j for j in range(k - 1) if E.choose('%s %d' % (name, j))), k - 1)


def model(E):
    SUnit.made = []
    std = SUnit(STD, 0, 1)
    patch(M(TU), 'cis_standard_time_unit', std)
    patch(M(UD).LazyData, 'update_range', lambda self, range=None: None)
    return std


def array(E, kind='r', shape=None):
    two = E.choose('two dimensions')
    n, m = Int('n'), Int('m')
    E.assume(n >= 1)
    E.assume(m >= 1)
    return fresh_array('numbers', (n, m) if two else (n,), kind, masked=E.choose('masked'), nan=kind == 'r')


def each(E, name, got, orig, f):
    """got has f(element) for every element of orig; missing where it is missing"""
    got, orig = asarr(got), asarr(orig)
    E.prove(name + ': same shape', z3.And(z3.BoolVal(got.ndim == orig.ndim), *[iterm(a) == iterm(b) for a, b in zip(got.shape, orig.shape)]))
    i = [Int('i') for _ in orig.shape]
    h = z3.And(*[zbool(in_range(a, b)) for a, b in zip(i, orig.shape)])
    miss = zbool(orig.mask_at(*i))
    g, o = lift(got.at(*i)), lift(orig.at(*i))
    E.prove(name + ': missing where it is missing', Bool(z3.Implies(h, zbool(got.mask_at(*i)) == miss)))
    E.prove(name + ': not a number where it is none', Bool(z3.Implies(z3.And(h, z3.Not(miss)), zbool(g.isnan()) == zbool(o.isnan()))))
    E.prove(name, Bool(z3.Implies(z3.And(h, z3.Not(miss), z3.Not(zbool(o.isnan()))), g.real() == lift(f(o)).real())))


@unit(UNITS, 'convert_sec_since_to_std_time', [TU + ':convert_sec_since_to_std_time'])
def u_sec(E):
    model(E)
    kind = 'i' if E.choose('integers') else 'r'
    a = array(E, kind)
    a0 = a.copy()
    r = Real('reference')
    E.cover()
    out = M(TU).convert_sec_since_to_std_time(a, SDate(r))
    each(E, 'the instant: reference + seconds', out, a0, lambda x: r + x / DAY)
    each(E, 'the numbers which were given are kept', a, a0, lambda x: x)


@unit(UNITS, 'convert_julian_date_to_std_time', [TU + ':convert_julian_date_to_std_time'])
def u_jul(E):
    model(E)
    a = array(E)
    a0 = a.copy()
    E.cover()
    out = M(TU).convert_julian_date_to_std_time(a)
    each(E, 'the instant: Julian date 2305447.5 is the standard epoch', out, a0, lambda x: x - 2305447.5)
    each(E, 'the numbers which were given are kept', a, a0, lambda x: x)


@unit(UNITS, 'convert_time_since_to_std_time', [TU + ':convert_time_since_to_std_time', TU + ':convert_std_time_to_datetime',
                                                TU + ':convert_datetime_to_std_time'])
def u_since(E):
    model(E)
    a = array(E)
    a0 = a.copy()
    u = SUnit('units of the file')
    m = M(TU)
    E.cover()
    out = m.convert_time_since_to_std_time(a, u)
    inst = lambda x: u.origin + x * u.step
    each(E, 'the same instants', out, a0, inst)
    each(E, 'the numbers which were given are kept', a, a0, lambda x: x)
    d = m.convert_std_time_to_datetime(out)
    E.prove('standard time as dates', z3.BoolVal(isinstance(d, Dates)))
    each(E, 'dates of the same instants', d.at, a0, inst)
    each(E, 'and back', m.convert_datetime_to_std_time(d), a0, inst)


FORMS = ['days', 'Seconds (from 2012-12-12)', 'hours of the flight']


@unit(UNITS, 'convert_time_using_time_stamp_info_to_std_time', [TU + ':convert_time_using_time_stamp_info_to_std_time',
                                                                TU + ':convert_time_since_to_std_time'])
def u_stamp(E):
    model(E)
    override('cf_units', Unit=SUnit)
    a = array(E)
    a0 = a.copy()
    f = FORMS[pick(E, 'units', 3)]
    stamp = '2001-02-03 04:05:06'
    m = M(TU)
    E.cover()
    out = m.convert_time_using_time_stamp_info_to_std_time(a, f, stamp)
    E.prove('units of the first word since the time stamp', z3.BoolVal(SUnit.made[1:] == ['%s since %s' % (f.split()[0], stamp)]))
    u = E.memo['unit ' + SUnit.made[1]]
    each(E, 'the same instants', out, a0, lambda x: u.origin + x * u.step)
    _, e = raises(lambda: m.convert_time_using_time_stamp_info_to_std_time(a, '', stamp))
    E.prove('no units is an error', z3.BoolVal(isinstance(e, ValueError)))


@unit(UNITS, 'calculate_mid_time', [TU + ':calculate_mid_time'])
def u_mid(E):
    model(E)
    a, b = Real('a'), Real('b')
    E.cover()
    m = lift(M(TU).calculate_mid_time(a, b))
    E.prove('halfway', m.real() * 2 == a.e + b.e)
    E.prove('in order', z3.Implies(a.e <= b.e, z3.And(a.e <= m.real(), m.real() <= b.e)))


class Raw(object):
    """a stand-in for the numbers before they are read"""
    _vc_symbolic = True


def coordinate(E, std, units_, lazy):
    """a time coordinate, which may have been looked at (flattened) before"""
    co = M(CO)
    a = array(E)
    a0 = a.copy()
    md = M(UD).Metadata('tim', standard_name='time')
    md._units = units_
    if lazy:
        raw = Raw()

        def read(x):
            use('data retrieval callback (C15)')
            return a
        c = co.Coord(raw, md, 'T', read)
    else:
        c = co.Coord(a, md, 'T')
    if E.choose('looked at before'):
        c.data_flattened
    return c, a0


def converted(E, c, a0, std, f, what='the same instants'):
    each(E, what, c.data, a0, f)
    each(E, what + ' (flattened)', c.data_flattened, asarr(a0).flatten(), f)
    each(E, what + ' (points)', c.points, a0, f)
    E.prove('standard units', z3.BoolVal(c.units is std and c.metadata.units is std))
    E.prove('still the time coordinate', z3.BoolVal(c.standard_name == 'time' and c.axis == 'T'))


COORD = [CO + ':Coord.__init__', CO + ':Coord.points', UD + ':LazyData.__init__', UD + ':LazyData.data', UD + ':LazyData.data_flattened',
         UD + ':Metadata.units']


def coord_unit(name, fns, go):
    @unit(UNITS, 'Coord.' + name, [CO + ':Coord.' + name] + COORD + fns)
    def u(E):
        std = model(E)
        override('cf_units', Unit=SUnit)
        go(E, std)


def j(E, std):
    c, a0 = coordinate(E, std, 'Julian Date', E.choose('lazy'))
    E.cover()
    c.convert_julian_to_std_time()
    converted(E, c, a0, std, lambda x: x - 2305447.5)


def tai(E, std):
    c, a0 = coordinate(E, std, 'seconds', E.choose('lazy'))
    r = Real('reference')
    E.cover()
    c.convert_TAI_time_to_std_time(SDate(r))
    converted(E, c, a0, std, lambda x: r + x / DAY)


def tostd(E, std):
    how = pick(E, 'units', 5)
    lazy = E.choose('lazy')
    if how == 0:
        u = SUnit('units of the file')
        c, a0 = coordinate(E, std, u, lazy)
        E.cover()
        c.convert_to_std_time(*(['2012-12-12'] if E.choose('time stamp') else []))
        converted(E, c, a0, std, lambda x: u.origin + x * u.step)
    elif how in (1, 4):
        # (words which are not units, or units which have no reference)
        c, a0 = coordinate(E, std, 'hours (from the start)' if how == 1 else SUnit('hours'), lazy)
        E.cover()
        c.convert_to_std_time('2001-02-03 04:05:06')
        E.prove('units of the first word since the time stamp', z3.BoolVal('hours since 2001-02-03 04:05:06' in SUnit.made))
        u = E.memo['unit hours since 2001-02-03 04:05:06']
        converted(E, c, a0, std, lambda x: u.origin + x * u.step)
    elif how == 2:
        c, a0 = coordinate(E, std, 'hours (from the start)', lazy)
        E.cover()
        _, e = raises(lambda: c.convert_to_std_time())
        E.prove('no time stamp is an error', z3.BoolVal(isinstance(e, ValueError)))
        each(E, 'the numbers are kept', c.data, a0, lambda x: x)
        E.prove('the units are kept', z3.BoolVal(c.units == 'hours (from the start)'))
    else:
        dates(E, std, 'DateTime Object', lambda c: c.convert_to_std_time())


class DArr(object):
    """array of dates as the data of a coordinate"""


def dates(E, std, units_, conv):
    co = M(CO)
    a = array(E)
    a0 = a.copy()
    md = M(UD).Metadata('tim', standard_name='time')
    md._units = units_
    d = Dates(a)
    d.ravel = lambda: Dates(asarr(a).flatten())
    c = co.Coord(np.zeros(1), md, 'T')
    c._data = d
    c._data_flattened = None
    if E.choose('looked at before'):
        c.data_flattened
    E.cover()
    conv(c)
    converted(E, c, a0, std, lambda x: x)


coord_unit('convert_julian_to_std_time', [TU + ':convert_julian_date_to_std_time'], j)
coord_unit('convert_TAI_time_to_std_time', [TU + ':convert_sec_since_to_std_time'], tai)
coord_unit('convert_to_std_time', [TU + ':convert_time_since_to_std_time', TU + ':convert_datetime_to_std_time',
                                   TU + ':convert_time_using_time_stamp_info_to_std_time'], tostd)
coord_unit('convert_datetime_to_standard_time', [TU + ':convert_datetime_to_std_time'],
           lambda E, std: dates(E, std, 'DateTime Object', lambda c: c.convert_datetime_to_standard_time()))


def todates(E, std):
    isstd = E.choose('in standard time')
    c, a0 = coordinate(E, std, std if isstd else SUnit('units of another kind'), E.choose('lazy'))
    was = c.units
    E.cover()
    c.convert_standard_time_to_datetime()
    if isstd:
        E.prove('dates', z3.BoolVal(isinstance(c.data, Dates)))
        each(E, 'the same instants', c.data.at, a0, lambda x: x)
        E.prove('they are dates now', z3.BoolVal(str(c.units) == 'DateTime Object'))
        c.convert_to_std_time()
        each(E, 'and back', c.data, a0, lambda x: x)
        E.prove('standard units', z3.BoolVal(c.units is std))
    else:
        each(E, 'other times are kept', c.data, a0, lambda x: x)
        E.prove('units are kept', z3.BoolVal(c.units is was))


coord_unit('convert_standard_time_to_datetime', [TU + ':convert_std_time_to_datetime', CO + ':Coord.convert_to_std_time'], todates)


@unit(UNITS, 'LazyData.convert_units', [UD + ':LazyData.convert_units', UD + ':LazyData.units'] + COORD)
def u_units(E):
    model(E)
    fac, off = Real('factor'), Real('offset')
    E.assume(fac.e != 0)

    class Q(object):
        """units of a quantity: the converted value is factor * x + offset; the argument is kept unless it is to be
        changed in place - and then integers and arrays which cannot be written to stay as they are"""
        _vc_symbolic = True

        def __init__(self, name):
            if name == 'no units':
                raise ValueError(name)
            self.name = name

        def convert(self, v, other, inplace=False):
            use('cf_units.Unit.convert')
            if self.name != 'hPa' or getattr(other, 'name', other) != 'Pa':
                raise SpecMismatch('conversion from %s to %s' % (self.name, other))
            if inplace and v.kind == 'i':
                return v * fac + off
            r = v * fac + off
            if inplace:
                v[...] = r
                return v
            return r
    override('cf_units', Unit=Q)
    kind = 'i' if E.choose('integers') else 'r'
    a = array(E, kind)
    a0 = a.copy()
    # (a flattened array may be a view of the array or a copy)
    asis = pick(E, 'units', 3)
    md = M(UD).Metadata('p', units=Q('hPa'))
    if asis == 2:
        md._units = 'no units'
    c = M(CO).Coord(a, md, 'P') if E.choose('coordinate') else M(UD).LazyData(a, md)
    if E.choose('looked at before'):
        c.data_flattened
    E.cover()
    _, e = raises(lambda: c.convert_units(Q('Pa') if asis == 1 else 'Pa'))
    if asis == 2:
        E.prove('without units it is an error', z3.BoolVal(isinstance(e, ValueError)))
        each(E, 'the numbers are kept', c.data, a0, lambda x: x)
        return
    if e is not None:
        raise e
    f = lambda x: x * fac + off
    each(E, 'the same quantity in the new units', c.data, a0, f)
    each(E, 'the same quantity in the new units (flattened)', c.data_flattened, asarr(a0).flatten(), f)
    E.prove('the new units', z3.BoolVal(c.units.name == 'Pa'))


class FTime(object):
    _vc_symbolic = True

    def __init__(self, points, bounds, units_):
        self.points, self.bounds, self.units = points, bounds, units_
        self.standard_name = 'time'

    @property
    def nbounds(self):
        return 0 if self.bounds is None else 2

    def copy(self, points=None, bounds=None):
        return FTime(self.points if points is None else points, bounds if points is not None else self.bounds, self.units)

    def has_bounds(self):
        return self.bounds is not None


class FTimeCube(object):
    """gridded data through the contract of a cube of two dimensions"""
    _vc_symbolic = True

    def __init__(self, t, dims, isdim):
        self.t, self.dims, self.isdim = t, dims, isdim
        self.other = object()

    def coord(self, name=None, standard_name=None):
        if (standard_name or name) != 'time' or self.t is None:
            raise SpecMismatch('only asked for the time')
        return self.t

    def coords(self, name=None, dim_coords=None, **k):
        r = [self.t] if self.t is not None and dim_coords in (None, self.isdim) else []
        return ([self.other] if dim_coords is not False else []) + r

    def coord_dims(self, c):
        if c is not self.t:
            raise SpecMismatch('dimensions of something else')
        return self.dims

    def remove_coord(self, c):
        if c is not self.t:
            raise SpecMismatch('removes something else')
        self.t = None

    def replace_coord(self, c):
        self.t = c

    def add_dim_coord(self, c, dims):
        dims = tuple(dims) if isinstance(dims, (tuple, list)) else (dims,)
        if len(dims) != 1 or not self.isdim_ok:
            raise ValueError('not possible as a dimension coordinate')
        self.t, self.dims, self.isdim = c, dims, True

    def add_aux_coord(self, c, dims=None):
        dims = () if dims is None else tuple(dims) if isinstance(dims, (tuple, list)) else (dims,)
        self.t, self.dims, self.isdim = c, dims, False


@unit(UNITS, 'convert_cube_time_coord_to_standard_time', [TU + ':convert_cube_time_coord_to_standard_time'])
def u_cube(E):
    std = model(E)
    how = ['dimension', 'along another dimension coordinate', 'over both dimensions', 'scalar'][pick(E, 'time is', 4)]
    n, m = Int('n'), Int('m')
    E.assume(n >= 1)
    E.assume(m >= 1)
    shape = (n, m) if how == 'over both dimensions' else (1,) if how == 'scalar' else (n,)
    p = fresh_array('points', shape, 'r')
    b = fresh_array('bounds', shape + (2,), 'r') if E.choose('bounds') else None
    u = std if E.choose('already standard') else SUnit('units of the file')
    dims = {'dimension': (1,), 'along another dimension coordinate': (0,), 'over both dimensions': (0, 1), 'scalar': ()}[how]
    c = FTimeCube(FTime(p, b, u), dims, how == 'dimension')
    c.isdim_ok = how == 'dimension'
    p0, b0 = p.copy(), None if b is None else b.copy()
    E.cover()
    out = M(TU).convert_cube_time_coord_to_standard_time(c)
    E.prove('the same data', z3.BoolVal(out is c))
    E.prove('the time is where it was, as it was', z3.BoolVal(c.t is not None and tuple(c.dims) == dims and c.isdim == (how == 'dimension')))
    w = c.t.units
    if how != 'scalar':
        E.prove('standard units', z3.BoolVal(w is std))
    inst = lambda q, un: lift(q) * un.step + un.origin
    each(E, 'the same instants', inst_arr(c.t.points, w), p0, lambda x: inst(x, u))
    if b is None:
        E.prove('no bounds', z3.BoolVal(c.t.bounds is None))
    else:
        E.prove('bounds are kept', z3.BoolVal(c.t.bounds is not None))
        each(E, 'bounds: the same instants', inst_arr(c.t.bounds, w), b0, lambda x: inst(x, u))


def inst_arr(a, un):
    return asarr(a) * un.step + un.origin


@unit(UNITS, 'HyperPoint: time of a point from a date', ['cis.data_io.hyperpoint:HyperPoint.__new__',
                                                         'cis.data_io.hyperpoint:HyperPoint.modified',
                                                         TU + ':convert_datetime_to_std_time'])
def u_point(E):
    model(E)
    H = M('cis.data_io.hyperpoint').HyperPoint
    d = Real('instant')
    isdate = E.choose('a date')
    t = SDate(d) if isdate else d
    E.cover()
    for what, p in (('new point', H(lat=Real('lat'), t=t)), ('modified point', H(lat=Real('lat'), t=Real('before')).modified(t=t))):
        E.prove(what + ': standard time', lift(p.time).real() == d.e)
        E.prove(what + ': in its coordinates', lift(dict(p.coord_tuple)['time']).real() == d.e)


@unit(UNITS, 'CloudSat._generate_time_array', ['cis.data_io.products.cloudsat:CloudSat._generate_time_array',
                                               TU + ':convert_sec_since_to_std_time', 'cis.utils:concatenate'])
def u_cloudsat(E):
    """finite: one or two files"""
    model(E)
    k = 1 + pick(E, 'files', 2)
    n = [Int('n%d' % q) for q in range(k)]
    for x in n:
        E.assume(x >= 1)
    p = [fresh_array('seconds%d' % q, (n[q],), 'r', masked=True) for q in range(k)]
    s = [fresh_array('start%d' % q, (1,), 'r', masked=True) for q in range(k)]
    for q in range(k):
        E.assume(z3.Not(zbool(s[q].mask_at(0))))
    p0, s0 = [x.copy() for x in p], [x.copy() for x in s]

    def get_data(v, *a, **kw):
        use('hdf_vd.get_data (C15)')
        return (p if v[0] == 'p' else s)[v[1]]
    patch(M('cis.data_io.hdf_vd'), 'get_data', get_data)
    E.cover()
    out = asarr(M('cis.data_io.products.cloudsat').CloudSat()._generate_time_array(
        {'Profile_time': [('p', q) for q in range(k)], 'TAI_start': [('s', q) for q in range(k)]}))
    base = 0
    for q in range(k):
        i = Int('i')
        h = zbool(in_range(i, n[q]))
        g = lift(out.at(base + i.e))
        miss = zbool(p0[q].mask_at(i))
        E.prove('file %d: missing where it is missing' % q, Bool(z3.Implies(h, zbool(out.mask_at(base + i.e)) == miss)))
        E.prove('file %d: 1993 + start + seconds of the profile' % q, Bool(z3.Implies(z3.And(h, z3.Not(miss)), g.real() == (
            lift((dt.datetime(1993, 1, 1) - dt.datetime(1600, 1, 1)).days) + (p0[q].at(i) + s0[q].at(0)) / DAY).real())))
        base = base + n[q].e
    E.prove('all of the files', iterm(out.shape[0]) == base)


@unit(UNITS, 'NCAR_NetCDF_RAF._create_time_coord', ['cis.data_io.products.NCAR_NetCDF_RAF:NCAR_NetCDF_RAF._create_time_coord',
                                                    CO + ':Coord.convert_to_std_time', CO + ':Coord.from_many_coordinates',
                                                    'cis.utils:concatenate'] + COORD)
def u_raf(E):
    """finite: one or two files, each with its own time stamp"""
    std = model(E)
    override('cf_units', Unit=SUnit)
    m = M('cis.data_io.products.NCAR_NetCDF_RAF')
    k = 1 + pick(E, 'files', 2)
    own = E.choose('units since')
    plain = not own and E.choose('units without reference')
    n = [Int('n%d' % q) for q in range(k)]
    for x in n:
        E.assume(x >= 1)
    v = [fresh_array('numbers%d' % q, (n[q],), 'r', masked=True) for q in range(k)]
    v0 = [x.copy() for x in v]
    stamps = ['2001-02-03', '2004-05-06'][:k]

    def get_metadata(var):
        q = [x is var for x in v].index(True)
        md = M(UD).Metadata('tim', shape=(n[q],))
        md._units = SUnit('hours since file %d' % q) if own else SUnit('hours') if plain else 'hours (since takeoff)'
        return md
    patch(m, 'get_metadata', get_metadata)
    E.cover()
    c = m.NCAR_NetCDF_RAF()._create_time_coord(None if own and E.choose('no stamps') else stamps if k > 1 else stamps[0], 'Time', {'Time': v})
    E.prove('a time coordinate in standard time', z3.BoolVal(c.units is std and c.standard_name == 'time' and c.axis == 'T'))
    out = asarr(c.data)
    base = 0
    for q in range(k):
        u = E.memo['unit ' + ('hours since file %d' % q if own else 'hours since ' + stamps[q])]
        i = Int('i')
        h = zbool(in_range(i, n[q]))
        miss = zbool(v0[q].mask_at(i))
        E.prove('file %d: missing where it is missing' % q, Bool(z3.Implies(h, zbool(out.mask_at(base + i.e)) == miss)))
        E.prove('file %d: instants by the time stamp of this file' % q, Bool(z3.Implies(z3.And(h, z3.Not(miss)),
                lift(out.at(base + i.e)).real() == (u.origin + v0[q].at(i) * u.step).real())))
        base = base + n[q].e
    E.prove('all of the files', iterm(out.shape[0]) == base)


@unit(UNITS, 'CCI level 3: times from the attributes of the file', [
    'cis.data_io.products.CCI:Cloud_CCI_L3.load_single_file_callback', 'cis.data_io.products.CCI:Cloud_CCI_L3.load_multiple_files_callback',
    'cis.data_io.products.CCI:Aerosol_CCI_L3.load_single_file_callback', 'cis.data_io.products.CCI:Aerosol_CCI_L3.load_multiple_files_callback'])
def u_cci(E):
    m = M('cis.data_io.products.CCI')
    aer, many = E.choose('aerosol'), E.choose('many files')
    bad = aer and E.choose('the file with bad times')
    t = {}
    asked = []

    class Co(object):
        _vc_symbolic = True

        def __init__(self, points=None, standard_name='time', units=None, bounds=None):
            self.points, self.standard_name, self.units, self.bounds = points, standard_name, units, bounds
    fileunits = 'units of the file'

    def number(s, units_):
        use('convert_time_string_to_number (bounded)')
        if s == 'garbled':
            raise ValueError(s)
        asked.append(units_)
        return t.setdefault(s, Real('time of ' + s))
    patch(m, 'convert_time_string_to_number', number)
    override('iris.coords', AuxCoord=Co)

    class Cube(object):
        _vc_symbolic = True

        def __init__(self):
            self.attributes = {'time_coverage_start': 'garbled' if bad else 'begin', 'time_coverage_end': 'garbled' if bad else 'end',
                               'id': 'x', 'kept': 'y'}
            self.t = None if aer else Co(units=fileunits)

        def coord(self, n):
            return self.t

        def add_aux_coord(self, c, *a):
            if self.t is not None or a not in ((), (None,)):
                raise SpecMismatch('a second time')
            self.t = c
    cu = Cube()
    h = (m.Aerosol_CCI_L3 if aer else m.Cloud_CCI_L3)()
    E.cover()
    (h.load_multiple_files_callback if many else h.load_single_file_callback)(
        cu, None, '201101-ESACCI-L3C_AEROSOL.nc' if bad else 'name.nc')
    keys = ('20110101T000000Z', '20110131T235959Z') if bad else ('begin', 'end')
    E.prove('there is a time', z3.BoolVal(cu.t is not None and cu.t.standard_name == 'time' and cu.t.bounds is not None))
    E.prove('bounds: begin and end', z3.BoolVal(len(cu.t.bounds) == 2 and all(k in t for k in keys)))
    for x, k in zip(cu.t.bounds, keys):
        E.prove('bounds: ' + k, lift(x).real() == t[k].e)
    if aer:
        E.prove('the time is halfway', lift(cu.t.points).real() * 2 == t[keys[0]].e + t[keys[1]].e)
    E.prove('units of the numbers', z3.BoolVal(all(x is cu.t.units for x in asked)))
    if bad:
        return
    E.prove('attributes which are the times are not left', z3.BoolVal('kept' in cu.attributes and not any(
        k.startswith('time_coverage') for k in cu.attributes) and (not many or 'id' not in cu.attributes)))


# ---- bounded: real units, calendars, arrays and cubes --------------------------------------------------------------
RULE = ('for random references, units, calendars, shapes, layouts, types and masks: the instants by datetime arithmetic are those '
        'of the converted numbers')
BOUNDED_FUNCTIONS = [TU + ':' + f for f in (
    'convert_sec_since_to_std_time', 'convert_julian_date_to_std_time', 'convert_time_since_to_std_time',
    'convert_time_using_time_stamp_info_to_std_time', 'convert_cube_time_coord_to_standard_time', 'convert_std_time_to_datetime',
    'convert_datetime_to_std_time', 'calculate_mid_time')] + [CO + ':Coord.convert_julian_to_std_time', CO + ':Coord.convert_TAI_time_to_std_time',
    CO + ':Coord.convert_to_std_time', CO + ':Coord.convert_datetime_to_standard_time', CO + ':Coord.convert_standard_time_to_datetime',
    UD + ':LazyData.convert_units', 'cis.data_io.products.CCI:convert_time_string_to_number', 'cis.data_io.hyperpoint:HyperPoint.__new__',
    'cis.parse_datetime:parse_datetimestr_to_std_time']
EPOCH = dt.datetime(1600, 1, 1)
SCALE = dict(days=86400., hours=3600., minutes=60., seconds=1.)
QUANT = [('hPa', 'Pa', 100., 0.), ('degC', 'K', 1., 273.15), ('km', 'm', 1000., 0.), ('m', 'km', .001, 0.), ('g kg-1', '1', .001, 0.),
         ('feet', 'm', .3048, 0.), ('Pa', 'hPa', .01, 0.)]


def cases(rng, tier, scale):
    kinds = ['sec', 'since', 'stamp', 'julian', 'dates', 'cube', 'units', 'cci', 'point', 'mid', 'string', 'cloudsat', 'raf']
    k = 0
    while True:
        kind = kinds[k % len(kinds)]
        k += 1
        shape = rng.choice([[3], [1], [2, 3], [4], [3, 2], [2, 2, 2]])
        size = int(np.prod(shape))
        ref = [rng.choice([1601, 1900, 1970, 1993, 2000, 2004, rng.randint(1610, 2200)]), rng.randint(1, 12), rng.randint(1, 28),
               rng.choice([0, 0, 12, rng.randint(0, 23)]), rng.choice([0, 0, rng.randint(0, 59)]), rng.choice([0, 0, rng.randint(0, 59)])]
        c = dict(kind=kind, shape=shape, ref=ref, unit=rng.choice(sorted(SCALE)), dtype=rng.choice(['f8', 'f8', 'i8', 'i4', '>f8']),
                 order=rng.choice('CCF'), seen=rng.random() < .5, mask=None if rng.random() < .5 else [rng.random() < .3 for _ in range(size)],
                 via=rng.choice(['function', 'coord', 'lazy']), cal=rng.choice(['standard', 'standard', 'proleptic_gregorian', 'gregorian']),
                 vals=sorted(rng.choice([rng.randint(-5000, 5000), rng.randint(0, 200000)]) + (0 if k % 3 else 16 * rng.random()) for _ in range(size)))
        if kind == 'cube':
            c['how'] = rng.choice(['dim', 'aux', 'both', 'scalar'])
            c['bounds'] = rng.random() < .6
        if kind == 'units':
            c['q'] = rng.randrange(len(QUANT))
            c['dtype'] = rng.choice(['f8', 'f4', 'i8', 'i4', '>f8', 'i2'])
            c['vals'] = [rng.randint(-50, 300) for _ in range(size)]
            c['obj'] = rng.choice(['coord', 'data'])
        if kind == 'cci':
            c['bug'] = rng.random() < .5
        yield c


def numbers(c):
    a = np.array(c['vals'], dtype=c['dtype']).reshape(c['shape'])
    if c['order'] == 'F':
        a = np.asfortranarray(a)
    return a if c['mask'] is None else np.ma.array(a, mask=np.array(c['mask']).reshape(c['shape']))


def days(d):
    return (d - EPOCH).total_seconds() / 86400.


def compare(what, got, want, mask, shape, tol=2e-8):
    got = np.ma.asanyarray(got)
    if got.shape != tuple(shape):
        return what + ': shape %s, not %s' % (got.shape, tuple(shape))
    m = np.ma.getmaskarray(got)
    mk = np.zeros(shape, bool) if mask is None else np.array(mask).reshape(shape)
    if not (m == mk).all():
        return what + ': missing elements are not the same'
    g, w = np.ma.getdata(got), np.array(want).reshape(shape)
    for i in np.ndindex(*shape):
        if not mk[i] and not abs(float(g[i]) - float(w[i])) <= tol * max(1., abs(float(w[i])) * 1e-5):
            return what + ': element %s is %.9f, not %.9f' % (i, g[i], w[i])
    return None


def views(what, q, want, c, tol=2e-8):
    flat = None if c['mask'] is None else np.array(c['mask']).ravel()
    return (compare(what, q.data, want, c['mask'], c['shape'], tol) or
            compare(what + ' (flattened)', q.data_flattened, np.array(want).ravel(), flat, [int(np.prod(c['shape']))], tol) or
            (compare(what + ' (points)', q.points, want, c['mask'], c['shape'], tol) if hasattr(q, 'points') else None))


def check(c):
    from cf_units import Unit
    from cis import time_util as t
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata, UngriddedData
    ref = dt.datetime(*c['ref'])
    kind = c['kind']
    stamp = ref.strftime('%Y-%m-%d %H:%M:%S') if c['ref'][0] >= 1000 else str(ref)
    a = numbers(c)
    vals = np.ma.getdata(a).ravel().astype(float)
    a0 = a.copy()

    def co(units_, data):
        md = Metadata('time', standard_name='time', units=units_)
        if c['via'] == 'lazy':
            q = Coord(object(), md, 'T', lambda x: data)
        else:
            q = Coord(data, md, 'T')
        if c['seen']:
            q.data_flattened
        return q
    r = None
    if kind == 'sec':
        w = [days(ref) + v / 86400. for v in vals]
        if c['via'] == 'function':
            r = compare('seconds', t.convert_sec_since_to_std_time(a, ref), w, c['mask'], c['shape']) or \
                compare('given numbers', a, vals, c['mask'], c['shape'])
        else:
            q = co('s', a)
            q.convert_TAI_time_to_std_time(ref)
            r = views('seconds', q, w, c) or (None if q.units == t.cis_standard_time_unit else 'units are %s' % q.units)
    elif kind in ('since', 'stamp'):
        w = [days(ref) + v * SCALE[c['unit']] / 86400. for v in vals]
        u = Unit('%s since %s' % (c['unit'], stamp), calendar=c['cal'])
        if kind == 'stamp':
            u = c['unit']
            if c['via'] == 'function':
                r = compare('time stamp', t.convert_time_using_time_stamp_info_to_std_time(a, u, stamp), w, c['mask'], c['shape'])
            else:
                q = co('1', a)
                q.metadata.units = u + (' (from the start)' if c['seen'] else '')
                q.convert_to_std_time(stamp)
                r = views('time stamp', q, w, c)
        elif c['via'] == 'function':
            r = compare('numbers with units', t.convert_time_since_to_std_time(a, u), w, c['mask'], c['shape']) or \
                compare('given numbers', a, vals, c['mask'], c['shape'])
        else:
            q = co(u, a)
            q.convert_to_std_time()
            r = views('numbers with units', q, w, c) or (None if q.units == t.cis_standard_time_unit else 'units are %s' % q.units)
    elif kind == 'julian':
        # Julian date 2451545.0 is noon of 1 January 2000
        noon = days(dt.datetime(2000, 1, 1, 12))
        w = [noon + float(v) / 64 for v in c['vals']]
        jd = np.array([2451545.0 + float(v) / 64 for v in c['vals']]).reshape(c['shape'])
        jd = jd if c['mask'] is None else np.ma.array(jd, mask=np.array(c['mask']).reshape(c['shape']))
        if c['via'] == 'function':
            r = compare('Julian dates', t.convert_julian_date_to_std_time(jd), w, c['mask'], c['shape'])
        else:
            q = co('1', jd)
            q.convert_julian_to_std_time()
            r = views('Julian dates', q, w, c)
    elif kind == 'dates':
        c = dict(c, mask=None)
        ds = np.array([ref + dt.timedelta(seconds=int(v)) for v in vals], dtype=object).reshape(c['shape'])
        w = [days(ref) + int(v) / 86400. for v in vals]
        if c['via'] == 'function':
            n = t.convert_datetime_to_std_time(ds)
            r = compare('dates', n, w, None, c['shape'])
            back = np.asarray(t.convert_std_time_to_datetime(n)).ravel()
            for x, y in zip(back, ds.ravel()):
                if r is None and abs((dt.datetime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond) - y).total_seconds()) > 1e-3:
                    r = 'there and back: %s is not %s' % (x, y)
        else:
            q = co('1', ds)
            q.metadata._units = 'DateTime Object'
            if len(c['vals']) % 2:
                q.convert_datetime_to_standard_time()
            else:
                q.convert_to_std_time()
            r = views('dates', q, w, c)
            if r is None:
                q.convert_standard_time_to_datetime()
                q.convert_datetime_to_standard_time()
                r = views('dates, there and back', q, w, c)
    elif kind == 'cube':
        r = check_cube(c, t, ref, stamp)
    elif kind == 'units':
        old, new, fac, off = QUANT[c['q']]
        md = Metadata('q', long_name='quantity', units=old)
        q = Coord(a, md, '') if c['obj'] == 'coord' else UngriddedData(a, md, C.coord_list(dict(
            coords={'latitude': [1.] * a.size}, shape=c['shape'])))
        if c['seen']:
            q.data_flattened
        q.convert_units(new if c['order'] == 'C' else Unit(new))
        w = [v * fac + off for v in vals]
        tol = 1e-4 if c['dtype'] == 'f4' else 1e-7
        r = views('converted quantity', q, w, c, tol * max(1., max(abs(x) for x in w)))
        if r is None and q.units != new:
            r = 'units are %s' % q.units
    elif kind == 'cci':
        from cis.data_io.products.CCI import convert_time_string_to_number, ESA_TIME_UNIT
        d = ref.replace(year=max(1971, c['ref'][0]))
        if c['bug']:
            s = d.strftime('%Y%m44T%H%M%SZ')
            first = dt.datetime(d.year + d.month // 12, d.month % 12 + 1, 1)
            e = first - dt.timedelta(days=1) + dt.timedelta(hours=d.hour, minutes=d.minute, seconds=d.second)
        else:
            s, e = d.strftime('%Y%m%dT%H%M%SZ'), d
        got = float(convert_time_string_to_number(s, ESA_TIME_UNIT))
        if abs(got - (e - dt.datetime(1970, 1, 1)).total_seconds() / 3600.) > 1e-6:
            r = 'time %s is %f hours' % (s, got)
    elif kind == 'point':
        from cis.data_io.hyperpoint import HyperPoint
        p = HyperPoint(lat=1., lon=2., t=ref)
        q = HyperPoint(lat=1., lon=2., t=5.).modified(t=ref)
        for x in (p.time, q.time, dict(p.coord_tuple)['time'], dict(q.coord_tuple)['time']):
            if abs(float(x) - days(ref)) > 2e-8:
                r = 'time of the point of %s is %s' % (ref, x)
    elif kind == 'mid':
        x, y = days(ref), days(ref) + float(c['vals'][0]) / 7
        if abs(t.calculate_mid_time(x, y) - (x + y) / 2) > 2e-8:
            r = 'mid time of %s and %s' % (x, y)
    elif kind == 'cloudsat':
        r = check_cloudsat(c)
    elif kind == 'raf':
        r = check_raf(c, ref)
    elif kind == 'string':
        from cis.parse_datetime import parse_datetimestr_to_std_time
        for s in (stamp, stamp.replace(' ', 'T')):
            got = float(parse_datetimestr_to_std_time(s))
            if abs(got - days(ref)) > 2e-8:
                r = 'time %s is %s' % (s, got)
    return r and (r, kind)


def check_cloudsat(c):
    """two files; the reading of the HDF files (C15) is replaced"""
    from cis.data_io import hdf_vd
    from cis.data_io.products.cloudsat import CloudSat
    v = np.sort(np.abs(np.array(c['vals'], dtype=float)))
    files = [(v, 1e8), (v[:1 + len(v) // 2] * 2, 1e8 + 86400. * len(v))]
    saved = hdf_vd.get_data
    hdf_vd.get_data = lambda h, *a, **k: np.ma.array(files[h[1]][0], copy=True) if h[0] == 'p' else np.ma.array([files[h[1]][1]])
    try:
        got = CloudSat()._generate_time_array({'Profile_time': [('p', 0), ('p', 1)], 'TAI_start': [('s', 0), ('s', 1)]})
    finally:
        hdf_vd.get_data = saved
    w = [days(dt.datetime(1993, 1, 1)) + (s + x) / 86400. for p, s in files for x in p]
    return compare('times of two files', got, w, None, (len(w),))


def check_raf(c, ref):
    """two files, each with its own time stamp; the reading of the attributes is replaced"""
    import importlib
    from cis.data_io.ungridded_data import Metadata
    m = importlib.import_module('cis.data_io.products.NCAR_NetCDF_RAF')
    v = np.array(c['vals'], dtype=float)
    files = [v, v[:1 + len(v) // 2] + 1]
    refs = [ref, ref + dt.timedelta(days=1 + len(v), hours=3)]
    saved = m.get_metadata
    m.get_metadata = lambda x: Metadata('t', units='hours' if c['seen'] else 'hours since takeoff')
    try:
        q = m.NCAR_NetCDF_RAF()._create_time_coord([r.strftime('%Y-%m-%d %H:%M:%S') for r in refs], 'Time', {'Time': [f.copy() for f in files]})
    finally:
        m.get_metadata = saved
    w = [days(r) + x / 24. for f, r in zip(files, refs) for x in f]
    return compare('times of two files', q.data, w, None, (len(w),))


def check_cube(c, t, ref, stamp):
    import iris.cube
    from iris.coords import DimCoord, AuxCoord
    how = c['how']
    cb = iris.cube.Cube(np.arange(12.).reshape(4, 3), var_name='x')
    n = {'dim': 4, 'aux': 4, 'both': 12, 'scalar': 1}[how]
    v = np.cumsum(np.array([(abs(x) % 50) + 1 for x in (c['vals'] * 12)[:n]]))
    v = v.reshape(4, 3) if how == 'both' else v
    b = np.stack([v - .5, v + .25], axis=-1) if c['bounds'] else None
    u = t.Unit('%s since %s' % (c['unit'], stamp), calendar=c['cal'])
    kw = dict(standard_name='time', units=u, bounds=b)
    dims = {'dim': (0,), 'aux': (0,), 'both': (0, 1), 'scalar': ()}[how]
    if how == 'dim':
        cb.add_dim_coord(DimCoord(v, **kw), 0)
    else:
        cb.add_dim_coord(DimCoord(np.arange(4.), long_name='step'), 0)
        cb.add_aux_coord(AuxCoord(v, **kw), dims if dims else None)
    r = t.convert_cube_time_coord_to_standard_time(cb)
    tc = r.coord('time')
    if r.coord_dims(tc) != dims:
        return 'the time is along %s' % (r.coord_dims(tc),)
    if (how == 'dim') != (len(r.coords('time', dim_coords=True)) == 1):
        return 'another kind of coordinate'
    if how != 'scalar' and tc.units != t.cis_standard_time_unit:
        return 'units are %s' % tc.units
    f = 1. / 86400 * SCALE[c['unit']]
    pts, bds = (tc.points, tc.bounds) if how != 'scalar' else (t.convert_time_since_to_std_time(tc.points, tc.units),
                                                               None if b is None else t.convert_time_since_to_std_time(tc.bounds, tc.units))
    e = compare('times', pts, days(ref) + v.astype(float) * f, None, tc.points.shape)
    if e is None and b is not None:
        if bds is None:
            return 'no bounds'
        e = compare('bounds', bds, days(ref) + b.reshape(tc.bounds.shape) * f, None, tc.bounds.shape)
    if e is None and not (r.data == np.arange(12.).reshape(4, 3)).all():
        e = 'data'
    return e


def nontrivial(c):
    return any(c['vals'])
