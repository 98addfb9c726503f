"""C22 Values of satellite, aircraft and station files come with their own coordinates"""
import contextlib
import datetime as dt
import itertools
import os
import shutil
import tempfile

import numpy as np

from vc.api import *
from vc import arr as A
from props.c18 import SUnit, model, pick, COORD

ID = 'C22'
LEVEL = 'proof'
PROPERTY = dict(
    title='Values of satellite, aircraft and station files come with their own coordinates',
    statement='Reading a variable of MODIS level 2, CALIOP level 1 and 2, CloudSat, CCI level 2, EarthCARE, NCAR-RAF, GASSP and ASCII point files gives the '
              'values of all of the files, in the order of the files, and with each value the latitude, longitude, time, height and pressure '
              'which the files give for its place: those of the file, profile and level it was measured at (for CALIOP level 2 the middle of '
              'the profile), the start or stamp of the file the time counts from, the position of the station of its file, and of size distributions the size. Each slice of '
              'data of more than two dimensions is data of its own. Points for which a coordinate is missing are left out.',
    over=['inputs'],
    text='any lists of files, numbers of profiles, levels and slices, values, missing values and order of looking at lazily read data',
    why='A test reads one file of each kind and looks at a few numbers; that the values and coordinates still match with several files, other '
        'numbers of levels, or when a slice is looked at late is a matter of how the arrays are put together, for all shapes.',
    files=['cis/data_io/products/MODIS.py', 'cis/data_io/products/caliop.py', 'cis/data_io/products/cloudsat.py', 'cis/data_io/products/CCI.py',
           'cis/data_io/products/EarthCARE.py', 'cis/data_io/products/NCAR_NetCDF_RAF.py', 'cis/data_io/hdf.py', 'cis/data_io/hdf_sd.py',
           'cis/data_io/products/products.py', 'cis/data_io/netcdf.py', 'cis/utils.py'],
    mechanism=[('the products', 'cis/data_io/products: create_data_object and the functions which make the coordinates'),
               ('putting arrays together', 'cis/utils.py expand_1d_to_2d_array, concatenate; cis/data_io/hdf.py read, read_data')])
TECHNIQUE = ('contracts on the functions of the products which put values and coordinates together, all obligations discharged by z3 over arrays of '
             'any length; whole reads of files of every kind bounded')
NOTE = ('The files are seen through the contracts of reading (C15: a variable of a file is an array of the physical values; C18: times). One to '
        'three files are enumerated; the numbers of profiles and levels are arbitrary.')
ASSUMPTIONS = ['pyhdf: get(start, count) gives the part of the data set which starts there and has these extents (trusted)',
               'the altitudes of the levels are the same in all CALIOP files, the auxiliary coordinate in all NCAR-RAF files (as documented)',
               'scans of MODIS data have more than one row and column; 1 km MODIS data is not claimed']
UNITS = []
MO = 'cis.data_io.products.MODIS'
CA = 'cis.data_io.products.caliop'
CS = 'cis.data_io.products.cloudsat'
CC = 'cis.data_io.products.CCI'
EC = 'cis.data_io.products.EarthCARE'
NR = 'cis.data_io.products.NCAR_NetCDF_RAF'
UT = 'cis.utils'
UD = 'cis.data_io.ungridded_data'
HD = 'cis.data_io.hdf'
SDM = 'cis.data_io.hdf_sd'
VDM = 'cis.data_io.hdf_vd'
NC = 'cis.data_io.netcdf'
TU = 'cis.time_util'
SINCE93 = (dt.datetime(1993, 1, 1) - dt.datetime(1600, 1, 1)).days


def equal(E, name, got, shape, miss, value):
    """the array `got` has this shape, and value(i...) at i, missing where miss(i...)"""
    got = asarr(got)
    E.prove(name + ': shape', z3.And(z3.BoolVal(got.ndim == len(shape)), *[iterm(a) == iterm(b) for a, b in zip(got.shape, shape)]))
    if got.ndim != len(shape):
        return
    i = [Int('i') for _ in shape]
    h = z3.And(*[zbool(in_range(a, b)) for a, b in zip(i, shape)])
    m = zbool(miss(*i))
    E.prove(name + ': missing where it is missing', Bool(z3.Implies(h, zbool(got.mask_at(*i)) == m)))
    E.prove(name, Bool(z3.Implies(z3.And(h, z3.Not(m)), lift(got.at(*i)).real() == lift(value(*i)).real())))


class Result(object):
    """the data object which is made: what it is given"""
    _vc_symbolic = True

    def __init__(self, data, metadata, coords, data_retrieval_callback=None):
        self.made, self.metadata, self.cs, self.callback = data, metadata, list(coords), data_retrieval_callback


def one(E, name, cs, test):
    got = [c for c in cs if test(c)]
    E.prove('one coordinate ' + name, z3.BoolVal(len(got) == 1))
    return got[0]


def by_name(*names):
    return lambda c: c.metadata._name in names or c.standard_name in names


@unit(UNITS, 'expand_1d_to_2d_array', [UT + ':expand_1d_to_2d_array'])
def u_expand(E):
    n, k = Int('n'), Int('k')
    E.assume(n >= 1)
    E.assume(k >= 1)
    a = fresh_array('values', (n,), 'r', masked=E.choose('masked'))
    a0 = a.copy()
    E.cover()
    axis = pick(E, 'axis', 2)
    f = M(UT).expand_1d_to_2d_array
    out = f(a, k) if axis == 0 and E.choose('by default') else f(a, k, axis=axis)
    if axis == 0:
        equal(E, 'every row', out, (k, n), lambda i, j: asarr(a0).mask_at(j), lambda i, j: asarr(a0).at(j))
    else:
        equal(E, 'every column', out, (n, k), lambda i, j: asarr(a0).mask_at(i), lambda i, j: asarr(a0).at(i))
    equal(E, 'the values given', a, (n,), lambda i: asarr(a0).mask_at(i), lambda i: asarr(a0).at(i))


@unit(UNITS, 'hdf.read and read_data', [HD + ':read', HD + ':read_data', UT + ':concatenate', UT + ':add_element_to_list_in_dict'])
def u_read(E):
    """finite: one to three files"""
    h = M(HD)
    files = ['f%d.hdf' % i for i in range(1 + pick(E, 'files', 3))][::-1]
    n = {f: Int('n ' + f) for f in files}
    arrays = {}
    for f in files:
        E.assume(n[f] >= 1)
        arrays[f] = fresh_array('values of ' + f, (n[f],), 'r', masked=E.choose('masked ' + f))
    kept = {f: x.copy() for f, x in arrays.items()}
    want = ['a', 'b', 'c']

    def raw(f, vs):
        expect(f in files)
        E.prove('the variables asked for', z3.BoolVal(list(vs) == want))
        use('hdf._read_hdf4: handles of the variables of one file')
        return {'a': (f, 'a'), 'c': (f, 'c')}, {'b': (f, 'b')}
    patch(h, '_read_hdf4', raw)
    E.cover()
    sd, vd = h.read(files, want)
    E.prove('the handles of the files, in order', z3.BoolVal(sd == {'a': [(f, 'a') for f in files], 'c': [(f, 'c') for f in files]} and
                                                            vd == {'b': [(f, 'b') for f in files]}))
    how = pick(E, 'function', 3)

    def get(x):
        use('reading of the data of one file (C15)')
        expect(x[1] == 'a')
        return arrays[x[0]]
    def wrong(x):
        E.prove('data of the kind asked for', z3.BoolVal(False))
        return arrays[x[0]]
    patch(M(VDM), 'get_data', get if how == 1 else wrong)
    patch(M(SDM), 'get_data', get if how == 2 else wrong)
    out = asarr(h.read_data([(f, 'a') for f in files], (get, 'VD', 'SD')[how]))
    base = 0
    for f in files:
        i = Int('i')
        g = zbool(in_range(i, n[f]))
        miss = zbool(kept[f].mask_at(i))
        E.prove('missing where it is missing', Bool(z3.Implies(g, zbool(out.mask_at(base + i.e)) == miss)))
        E.prove('the values of the files one after the other', Bool(z3.Implies(z3.And(g, z3.Not(miss)), lift(out.at(base + i.e)).real() == lift(kept[f].at(i)).real())))
        base = base + n[f].e
    E.prove('all of the files', iterm(out.shape[0]) == base)


@unit(UNITS, 'netcdf.read_many_files_individually', [NC + ':read_many_files_individually', UT + ':add_element_to_list_in_dict', UT + ':listify'])
def u_many(E):
    files = ['g%d' % i for i in range(1 + pick(E, 'files', 3))][::-1]
    k = 1 + pick(E, 'variables', 3)
    vs = ['v%d' % i for i in range(k)]

    def read(f, x):
        use('netcdf.read: the variables of one file')
        E.prove('the variables asked for', z3.BoolVal(list(x) == vs))
        return {v: (f, v) for v in x}
    patch(M(NC), 'read', read)
    E.cover()
    out = M(NC).read_many_files_individually(files, vs[0] if k == 1 and E.choose('one name') else vs)
    E.prove('the variables of the files, in order', z3.BoolVal(out == {v: [(f, v) for f in files] for v in vs}))


class Named(object):
    dimensions = ()

    def __init__(self, name):
        self.name = name


class Group(object):
    """contract of a netCDF file or group: its variables, dimensions and groups"""

    def __init__(self, path, names, dims=(), groups=()):
        self.variables = {n: Named('/'.join(path + [n])) for n in names}
        self.dimensions = {d: Named(d) for d in dims}
        self.groups = {g.key: g for g in groups}
        self.key = path[-1] if path else ''


def tree():
    b = [Group(['a', 'b'], ['v', 'w']), Group(['a', 'c'], ['v', 'time'])]
    return Group([], ['time', 'v', 'x'], ['time', 'row'], [Group(['a'], ['v', 'y'], groups=b), Group(['d'], []), Group(['b'], ['y'])])


NAMES = ['time', 'v', 'x', 'a/v', 'a/y', 'a/b/v', 'a/b/w', 'a/c/v', 'a/c/time', 'b/y']


@unit(UNITS, 'variables of a netCDF file and of its groups', [NC + ':get_netcdf_file_variables', NC + ':_get_all_fully_qualified_variables',
                                                              NC + ':read', UT + ':listify'])
def u_groups(E):
    """finite: a file with groups of two levels, some variables of the same name"""
    def Dataset(f, *a, **k):
        use('netCDF4.Dataset: the variables, dimensions and groups of the file')
        expect(f == 'g.nc')
        return tree()
    override('netCDF4', Dataset=Dataset)
    E.cover()
    how = pick(E, 'how', 3)
    if how < 2:
        out = M(NC).get_netcdf_file_variables('g.nc', True) if how else M(NC).get_netcdf_file_variables('g.nc')
        E.prove('all of the variables%s, each under its full name' % (' but those of dimensions' if how else ''),
                z3.BoolVal({n: v.name for n, v in out.items()} == {n: n for n in NAMES if not (how and n == 'time')}))
    else:
        n = NAMES[pick(E, 'name', len(NAMES))]
        more = E.choose('several names')
        asked = [n, 'a/b/v', 'time'] if more else (n if E.choose('one name') else [n])
        out = M(NC).read('g.nc', asked)
        E.prove('the variables asked for', z3.BoolVal({k: v.name for k, v in out.items()} == {k: k for k in ([n, 'a/b/v', 'time'] if more else [n])}))
        E.prove('a variable which is not there is refused', z3.BoolVal(raises(M(NC).read, 'g.nc', ['a/x'])[1] is not None))


def hdf_contract(E, mod, files, arrays, callback_of=None):
    """the reading of files: arrays {variable: the values of all of the files}; remembers the function which read them"""
    how = {}

    def handles(f, vs):
        use('hdf_sd.read: handles of the variables of one file')
        expect(f in files)
        return {v: (f, v) for v in ([vs] if isinstance(vs, str) else vs) if v in arrays}

    def read_data(hs, fn):
        use('hdf.read_data: the values of the files one after the other')
        v = hs[0][1]
        E.prove('all of the files, in order', z3.BoolVal(list(hs) == [(f, v) for f in files]))
        how[v] = fn
        return arrays[v].copy()

    def metadata(hs, kind):
        use('hdf.read_metadata')
        return M(UD).Metadata(hs[0][1], shape=None)
    patch(M(SDM), 'read', handles)
    patch(M(HD), 'read_data', read_data)
    patch(M(HD), 'read_metadata', metadata)
    return how


def numbers(E, name, shape, masked=True):
    return fresh_array(name, shape, 'r', masked=masked)


@unit(UNITS, 'CALIOP', [CA + ':abstract_Caliop._create_coord_list', CA + ':Caliop_L2._create_one_dimensional_coord_list',
                        CA + ':Caliop_L1.create_data_object', CA + ':Caliop_L2.create_data_object', CA + ':Caliop_L2._get_mixed_resolution_calipso_data',
                        UT + ':expand_1d_to_2d_array', TU + ':convert_sec_since_to_std_time'] + COORD, max_paths=4000)
def u_caliop(E):
    """finite: one or two files"""
    std = model(E)
    override('cf_units', Unit=SUnit)
    m = M(CA)
    patch(m, 'UngriddedData', Result)
    files = ['f1.hdf', 'f0.hdf'][:1 + pick(E, 'files', 2)]
    kind = pick(E, 'product', 3)
    var = 'v' if kind == 0 else ['v', 'Column_v', 'CAD_Score', 'CAD_Score_v'][pick(E, 'variable', 4)]
    n, k, w = Int('n'), Int('k'), Int('w')
    E.assume(n >= 1)
    E.assume(k >= 1)
    E.assume(w >= (1 if kind == 0 else 2))
    arrays = {'Latitude': numbers(E, 'latitudes', (n, w)), 'Longitude': numbers(E, 'longitudes', (n, w)), 'Profile_Time': numbers(E, 'seconds', (n, w)),
              'Pressure': numbers(E, 'pressures', (n, k) if kind == 1 or E.choose('pressures at the levels') else (n, Int('levels of pressure'))),
              var: None}
    hdf_contract(E, m, files, arrays)
    alt = numbers(E, 'heights of the levels', (k,), False)

    def get_data(v, first_record=False, missing_values=None):
        use('hdf_vd.get_data (C15)')
        E.prove('the heights of the first file', z3.BoolVal(tuple(v) == (files[0], 'Lidar_Data_Altitudes') and first_record))
        return alt.copy()
    patch(M(VDM), 'get_data', get_data)
    patch(m, 'get_data', get_data)
    patch(M(HD), 'read', lambda fs, v: (E.prove('the variable of all of the files', z3.BoolVal(list(fs) == files and v in (var, [var]))), (
        {var: [(f, var) for f in files]}, {}))[1])
    raw = numbers(E, 'values', (n, k, 2) if var == 'CAD_Score' else (n, k))
    patch(m.abstract_Caliop, '_get_calipso_data', lambda self, sds: raw)
    p = (m.Caliop_L1, m.Caliop_L2, m.Caliop_L2_NO_PRESSURE)[kind]()
    E.cover()
    r = p.create_data_object(files, var)
    E.prove('the values of all of the files', z3.BoolVal(r.made == [(f, var) for f in files]))
    got = r.callback(files[0])
    if var == 'CAD_Score':
        equal(E, 'the higher part of each bin', got, (n, k), lambda i, j: raw.mask_at(i, j, 0), lambda i, j: raw.at(i, j, 0))
    else:
        E.prove('the values as they are read', z3.BoolVal(got is raw))
    c = 0 if kind == 0 else 1
    days = lambda x: x / 86400 + SINCE93
    same_ = lambda x: x
    for name, key, f in (('latitude', 'Latitude', same_), ('longitude', 'Longitude', same_), ('time', 'Profile_Time', days)):
        d = one(E, name, r.cs, by_name(key)).data
        a = arrays[key]
        if var == 'Column_v':
            equal(E, name + ' of the profile', d, (n,), lambda i: a.mask_at(i, c), lambda i: f(a.at(i, c)))
        else:
            equal(E, name + ' of the profile', d, (n, k), lambda i, j: a.mask_at(i, c), lambda i, j: f(a.at(i, c)))
    t = one(E, 'time', r.cs, by_name('Profile_Time'))
    E.prove('standard time', z3.BoolVal(t.standard_name == 'time' and t.units is std))
    rest = [x for x in r.cs if x.metadata._name not in ('Latitude', 'Longitude', 'Profile_Time')]
    if var == 'Column_v':
        E.prove('no other coordinates', z3.BoolVal(not rest))
        return
    equal(E, 'height of the level, in m', one(E, 'altitude', r.cs, by_name('altitude')).data, (n, k), lambda i, j: False, lambda i, j: alt.at(j) * 1000)
    ps = [x for x in rest if x.metadata._name == 'Pressure']
    if kind == 1:
        E.prove('pressure, and no other coordinates', z3.BoolVal(len(rest) == 2 and len(ps) == 1))
    if kind == 2:
        E.prove('no pressure', z3.BoolVal(len(rest) == 1))
    for x in ps:
        a = arrays['Pressure']
        equal(E, 'pressure of the point', x.data, (n, k), lambda i, j: a.mask_at(i, j), lambda i, j: a.at(i, j))


@unit(UNITS, 'CloudSat', [CS + ':CloudSat.create_data_object', CS + ':CloudSat._create_coord_list', CS + ':CloudSat._create_one_dimensional_coord_list',
                          UT + ':expand_1d_to_2d_array'] + COORD, max_paths=4000)
def u_cs(E):
    std = model(E)
    override('cf_units', Unit=SUnit)
    m = M(CS)
    patch(m, 'UngriddedData', Result)
    files = ['f1.hdf', 'f0.hdf'][:1 + pick(E, 'files', 2)]
    form = pick(E, 'variable', 3)
    n, k = Int('n'), Int('k')
    E.assume(n >= 1)
    E.assume(k >= 1)
    arrays = {'Latitude': numbers(E, 'latitudes', (n,)), 'Longitude': numbers(E, 'longitudes', (n,)), 'v': numbers(E, 'values', (n,) if form else (n, k))}
    if form != 2:
        arrays['Height'] = numbers(E, 'heights', (n, k))
    how = hdf_contract(E, m, files, arrays)
    names = ['Latitude', 'Longitude', 'TAI_start', 'Profile_time'] + (['v'] if form else [])

    def read(fs, vs):
        use('hdf.read: handles of the variables of the files')
        E.prove('all of the files', z3.BoolVal(list(fs) == files))
        vs = [vs] if isinstance(vs, str) else vs
        sds = [v for v in vs if v == 'Height' and form != 2 or v == 'v' and not form]
        if [v for v in vs if v not in names + sds]:
            raise m.InvalidVariableError('not there')
        return {v: [(f, v) for f in files] for v in sds}, {v: [(f, v) for f in files] for v in vs if v not in sds}
    patch(M(HD), 'read', read)
    times = numbers(E, 'times', (n,))

    def generate(self, vd):
        use('CloudSat._generate_time_array (C18)')
        E.prove('the times of all of the files', z3.BoolVal(all(list(vd[x]) == [(f, x) for f in files] for x in ('Profile_time', 'TAI_start'))))
        return times.copy()
    patch(m.CloudSat, '_generate_time_array', generate)
    E.cover()
    p = m.CloudSat()
    r = p.create_data_object(files, 'v') if form != 2 or not E.choose('coordinates only') else None
    if r is None:
        patch(m, 'UngriddedCoordinates', lambda cs: cs)
        cs = list(p.create_coords(files))
    else:
        cs = r.cs
        v = arrays['v']
        equal(E, 'the values', r.made, (n,) if form else (n, k), lambda *i: v.mask_at(*i), lambda *i: v.at(*i))
        E.prove('read as data of their kind', z3.BoolVal(how['v'] == (p._get_cloudsat_vds_data if form else p._get_cloudsat_sds_data)))
    for name, a in (('Latitude', arrays['Latitude']), ('Longitude', arrays['Longitude']), ('Profile_time', times)):
        d = one(E, name, cs, by_name(name)).data
        equal(E, name + ' of the profile', d, (n,) if form else (n, k), lambda *i: a.mask_at(i[0]), lambda *i: a.at(i[0]))
    t = one(E, 'time', cs, by_name('Profile_time'))
    E.prove('standard time', z3.BoolVal(t.standard_name == 'time' and t.units is std))
    E.prove('no other coordinates', z3.BoolVal(len(cs) == (3 if form else 4)))
    if not form:
        a = arrays['Height']
        equal(E, 'height of the point', one(E, 'height', cs, by_name('Height')).data, (n, k), lambda i, j: a.mask_at(i, j), lambda i, j: a.at(i, j))


class Opened(object):
    """contract of pyhdf: SD(file).select(variable).get(start, count, stride) is this part of the data set"""
    _vc_symbolic = True

    def __init__(self, f, v=None):
        self.f, self.v = f, v

    def select(self, v):
        return Opened(self.f, v)

    def get(self, start=None, count=None, stride=None):
        use('pyhdf SDS.get')
        return self.f, self.v, start, count

    def info(self):
        return self.v, 2 + len(Opened.extra), Opened.extra + [Opened.rows[self.f], Opened.cols], 5, 0

    def attributes(self):
        return {}

    def endaccess(self):
        pass
    end = endaccess


@unit(UNITS, 'MODIS level 2', [MO + ':MODIS_L2.create_data_object', MO + ':MODIS_L2._create_coord_list', SDM + ':HDF_SDS.get', SDM + ':HDF_SDS.info',
                               SDM + ':HDF_SDS.__init__'] + COORD, max_paths=4000)
def u_modis(E):
    """finite: one or two files, up to 2 x 3 slices"""
    std = model(E)
    override('cf_units', Unit=SUnit)
    m = M(MO)
    patch(m, 'UngriddedData', Result)
    patch(m, 'UngriddedDataList', list)
    override('pyhdf.SD', SD=Opened)
    files = ['f1.hdf', 'f0.hdf'][:1 + pick(E, 'files', 2)]
    Opened.extra = [[], [1], [2], [2, 3]][pick(E, 'slices', 4)]
    Opened.rows = {f: Int('rows of ' + f) for f in files}
    Opened.cols = Int('columns')
    n = sum(Opened.rows.values())
    shape = (n, Opened.cols)
    for x in list(Opened.rows.values()) + [Opened.cols]:
        E.assume(x >= 2)
    arrays = {'Latitude': numbers(E, 'latitudes', shape), 'Longitude': numbers(E, 'longitudes', shape)}
    secs = numbers(E, 'seconds', shape)

    def read_data(hs, fn):
        use('hdf.read_data: the values of the files one after the other')
        v = hs[0]._variable
        E.prove('all of the files, in order', z3.BoolVal([(x._filename, x._variable) for x in hs] == [(f, v) for f in files]))
        E.prove('read as MODIS data', z3.BoolVal(fn is m._get_MODIS_SDS_data))
        return arrays[v].copy()

    def metadata(hs, kind):
        return M(UD).Metadata(hs[0]._variable, shape=None)

    def read(fs, vs):
        use('hdf.read: handles of the variables of the files')
        E.prove('all of the files', z3.BoolVal(list(fs) == files))
        vs = [vs] if isinstance(vs, str) else vs
        return {v: [M(SDM).HDF_SDS(f, v) for f in files] for v in vs}, {}
    patch(M(HD), 'read', read)
    patch(M(HD), 'read_data', read_data)
    patch(M(HD), 'read_metadata', metadata)
    patch(m.MODIS_L2, '_MODIS_L2__get_data_scale', lambda self, f, v: [None, '5km', '10km'][pick(E, 'scale', 3)])
    parts = []

    def whole(self, epoch):
        use('Coord.convert_TAI_time_to_std_time (C18)')
        E.prove('since 1993', z3.BoolVal(epoch == dt.datetime(1993, 1, 1)))
        E.prove('the times of all of the files', z3.BoolVal([(x._filename, x._variable, x._start) for x in self._data_manager] == [
            (f, 'Scan_Start_Time', None) for f in files] and self.retrieve_raw_data is m._get_MODIS_SDS_data))
        self._data = secs.copy()
    patch(M('cis.data_io.Coord').Coord, 'convert_TAI_time_to_std_time', whole)
    E.cover()
    r = m.MODIS_L2().create_data_object(files, 'v')
    patch(m, '_get_MODIS_SDS_data', lambda sds: sds.get())
    idx = list(itertools.product(*[range(k) for k in Opened.extra]))
    items = list(r) if Opened.extra else [r]
    E.prove('one data object for each slice', z3.BoolVal(len(items) == len(idx)))
    for x, at in zip(items, idx):
        ms = list(x.made)
        E.prove('of all of the files', z3.BoolVal([(q._filename, q._variable) for q in ms] == [(f, 'v') for f in files]))
        for q, f in zip(ms, files):
            _, _, start, count = q.get()
            if not Opened.extra:
                E.prove('all of the data', z3.BoolVal(start is None and count is None))
            else:
                want = list(at) + [0, 0], [1] * len(at) + [Opened.rows[f], Opened.cols]
                E.prove('slice %s of %s' % (at, Opened.extra), z3.And(*[iterm(lift(a)) == iterm(lift(b)) for u, v in zip((start, count), want) for a, b in
                                                                       list(zip(u, v)) + [(len(u), len(v))]]))
        E.prove('three coordinates', z3.BoolVal(len(x.cs) == 3))
        for name, a in (('Latitude', arrays['Latitude']), ('Longitude', arrays['Longitude']), ('Scan_Start_Time', secs)):
            c = one(E, name, x.cs, by_name(name))
            equal(E, name, c.data, shape, lambda i, j: a.mask_at(i, j), lambda i, j: a.at(i, j))
        E.prove('the time', z3.BoolVal(one(E, 'time', x.cs, by_name('Scan_Start_Time')).standard_name == 'time'))
    for i, x in enumerate(items):
        for y in items[:i]:
            E.prove('slices have their own coordinates', z3.BoolVal(not any(a is b for a in x.cs for b in y.cs)))


@unit(UNITS, 'stations: fixed positions', [NR + ':NCAR_NetCDF_RAF._create_fixed_value_coord', UT + ':listify'] + COORD)
def u_fixed(E):
    """finite: one to three files"""
    model(E)
    m = M(NR)
    k = 1 + pick(E, 'files', 3)
    n = [Int('n%d' % i) for i in range(k)]
    v = [Real('position %d' % i) for i in range(k)]
    for x in n:
        E.assume(x >= 1)
    alone = k == 1 and E.choose('not a list')
    E.cover()
    c = m.NCAR_NetCDF_RAF()._create_fixed_value_coord('Y', v[0] if alone else v, 'degrees_north', n[0] if alone else n, 'latitude')
    E.prove('its name', z3.BoolVal(c.metadata._name == 'latitude' and c.standard_name == 'latitude' and c.axis == 'Y'))
    out = asarr(c.data)
    base = 0
    for q in range(k):
        i = Int('i')
        E.prove('file %d: the position of its station' % q, Bool(z3.Implies(zbool(in_range(i, n[q])), z3.And(
            lift(out.at(base + i.e)).real() == v[q].real(), z3.Not(zbool(out.mask_at(base + i.e)))))))
        base = base + n[q].e
    E.prove('all of the files', iterm(out.shape[0]) == base)


class Var(object):
    def __init__(self, *dims):
        self.dimensions = dims


@unit(UNITS, 'NCAR-RAF: what the coordinates are', [NR + ':NCAR_NetCDF_RAF_variable_name_selector.' + f for f in (
    '__init__', '_get_coordinate_variable_name', '_parse_station_altitude', '_parse_station_lat_lon', '_stationary_setup',
    '_check_has_variables_and_attributes', '_lat_lon_var_specified_setup', '_best_coordinates_setup')] + [UT + ':listify'])
def u_selector(E):
    """finite: one to three files"""
    m = M(NR)
    k = 1 + pick(E, 'files', 3)
    kind = pick(E, 'kind', 3)                        # variables of positions, a station, the four in one attribute
    stamps, height, pressure = E.choose('stamps'), E.choose('height'), pick(E, 'pressure', 3)
    case = E.choose('other case')
    pos = [dict(lat=Real('lat %d' % q), lon=Real('lon %d' % q), alt=Real('alt %d' % q)) for q in range(k)]
    files = []
    for q in range(k):
        a = {'Title': 'a file'}
        if kind < 2:
            a['Time_Coordinate'] = 't'
        if kind == 0:
            a.update(Latitude_Coordinate='la', Longitude_Coordinate='lo')
            if height:
                a['Vertical_Coordinate'] = 'z'
        elif kind == 1:
            a.update(Station_Lat=pos[q]['lat'], Station_Lon=pos[q]['lon'])
            if height:
                a['Station_Altitude'] = pos[q]['alt']
        else:
            a['Coordinates'] = 'lo la z t'
        if stamps:
            a['Time_Stamp_Info'] = 'stamp %d' % q
        files.append({(n.lower() if case else n): v for n, v in a.items()})
    vs = {n: Var('row') for n in ['t', 'la', 'lo', 'z', 'x']}
    if pressure:
        vs['PRE'] = Var('row')
        if pressure == 2:
            vs['PSXC'] = Var('row')
    E.cover()
    s = m.NCAR_NetCDF_RAF_variable_name_selector(files, [vs] * k)
    E.prove('a station or not', z3.BoolVal(bool(s.station) == (kind == 1)))
    E.prove('the time', z3.BoolVal(s.time_variable_name == 't' and tuple(s.time_dimensions) == ('row',)))
    E.prove('the pressure, corrected if there is', z3.BoolVal(s.pressure_variable_name == (None, 'PRE', 'PSXC')[pressure]))
    E.prove('the stamp of each file', z3.BoolVal(s.time_stamp_info == (['stamp %d' % q for q in range(k)] if stamps else None)))
    here = lambda got, n: z3.And(z3.BoolVal(len(got) == k), *[lift(g).real() == lift(p[n]).real() for g, p in zip(got, pos)])
    if kind == 1:
        E.prove('latitude of each station', here(s.station_latitude, 'lat'))
        E.prove('longitude of each station', here(s.station_longitude, 'lon'))
    else:
        E.prove('latitude and longitude', z3.BoolVal((s.latitude_variable_name, s.longitude_variable_name) == ('la', 'lo')))
    if kind == 2 or kind == 0 and height:
        E.prove('the height', z3.BoolVal(s.altitude is None and s.altitude_variable_name == 'z'))
    elif kind == 1 and height:
        E.prove('height of each station', here(s.altitude, 'alt'))
    else:
        E.prove('at the ground', z3.BoolVal(list(s.altitude) == [0] * k))


@unit(UNITS, 'NCAR-RAF: the coordinate of another dimension', [NR + ':NCAR_NetCDF_RAF_variable_name_selector.find_auxiliary_coordinate'])
def u_find(E):
    """finite: which dimensions there are, and variables of which dimensions, in any order"""
    m = M(NR)
    named = E.choose('a variable of the name of the dimension')
    alone = E.choose('a variable of this dimension only')
    first = E.choose('first')
    vs = [('one', ()), ('edges', ('bin', 'side')), ('t', ('row',)), ('x', [('row', 'bin'), ('bin', 'row'), ('row',), ('row', 'bin', 'side')][pick(E, 'shape', 4)])]
    vs = ([('sizes', ('bin',))] if alone and first else []) + vs + ([('sizes', ('bin',))] if alone and not first else [])
    vs = vs + ([('bin', ('bin',))] if named else [])
    if E.choose('reversed'):
        vs = vs[::-1]
    s = Duck(m.NCAR_NetCDF_RAF_variable_name_selector, latitude_variable_name='la', longitude_variable_name='lo', altitude_variable_name='z',
             pressure_variable_name=None, time_dimensions=('row',), _variable_dimensions=[dict(vs)])
    E.cover()
    r, e = raises(m.NCAR_NetCDF_RAF_variable_name_selector.find_auxiliary_coordinate, s, 'x')
    dims = dict(vs)['x']
    if len(dims) == 3:
        E.prove('more than one is refused', z3.BoolVal(e is not None))
    elif len(dims) == 1:
        E.prove('there is none', z3.BoolVal(e is None and r is None))
    else:
        E.prove('that of the name of the dimension, or else that of this dimension only', z3.BoolVal(
            e is None and r == ('bin' if named else 'sizes' if alone else None)))


@unit(UNITS, 'NCAR-RAF: auxiliary coordinate', [NR + ':NCAR_NetCDF_RAF._add_aux_coordinate', UT + ':expand_1d_to_2d_array'] + COORD)
def u_aux(E):
    model(E)
    m = M(NR)
    co = M('cis.data_io.Coord')
    n, k = Int('n'), Int('k')
    E.assume(n >= 1)
    E.assume(k >= 1)
    names = ['time', 'latitude', 'longitude', 'altitude', 'air_pressure'][:4 + pick(E, 'pressure', 2)]
    arrays = {x: numbers(E, x, (n,), E.choose('masked ' + x)) for x in names}
    aux = numbers(E, 'sizes', (k,), False)
    md = lambda x: M(UD).Metadata(x, standard_name=x if x != 'sizes' else '', shape=None)
    cs = co.CoordList([co.Coord(arrays[x].copy(), md(x), a) for x, a in zip(names, 'TYXZP')])

    def read(f, vs):
        use('netcdf.read: the variables of one file')
        expect(f == 'FILE' and list(vs) == ['sizes'])
        return {'sizes': aux}
    patch(M(NC), 'read', read)
    patch(m, 'get_metadata', lambda v: md('sizes'))
    E.cover()
    out = list(m.NCAR_NetCDF_RAF._add_aux_coordinate(cs, 'FILE', 'sizes', n))
    E.prove('one more coordinate', z3.BoolVal(len(out) == len(names) + 1))
    for x in names:
        a = arrays[x]
        equal(E, x + ' of the sample', one(E, x, out, by_name(x)).data, (n, k), lambda i, j: a.mask_at(i), lambda i, j: a.at(i))
    equal(E, 'the size', one(E, 'size', out, by_name('sizes')).data, (n, k), lambda i, j: False, lambda i, j: aux.at(j))


class Variable(object):
    """a variable of a netCDF file"""
    _vc_symbolic = True

    def __init__(self, f, v, shape):
        self.f, self._name, self.shape = f, v, shape


@unit(UNITS, 'NCAR-RAF: coordinates', [NR + ':NCAR_NetCDF_RAF._create_coordinates_list', NR + ':NCAR_NetCDF_RAF._create_coord',
                                       'cis.data_io.Coord:Coord.from_many_coordinates', UT + ':concatenate'] + COORD, max_paths=3000)
def u_raf(E):
    """finite: one or two files"""
    model(E)
    m = M(NR)
    co = M('cis.data_io.Coord')
    k = 1 + pick(E, 'files', 2)
    n = [Int('n%d' % q) for q in range(k)]
    for x in n:
        E.assume(x >= 1)
    station, own = E.choose('station'), E.choose('altitudes of its own')
    pressure = E.choose('pressure')
    arrays = {}

    def var(v, q):
        arrays[v, q] = numbers(E, '%s of file %d' % (v, q), (n[q],))
        return Variable(q, v, (n[q],))
    names = ['UTC'] + ([] if station else ['LAT', 'LON']) + (['ALT'] if own and not station else []) + (['PRE'] if pressure else [])
    data = {v: [var(v, q) for q in range(k)] for v in names}

    def read(v):
        use('netcdf.get_data (C15)')
        return arrays[v._name, v.f].copy()
    patch(M(UD), 'static_mappings', {'Variable': read})
    patch(m, 'get_metadata', lambda v: M(UD).Metadata(v._name, shape=v.shape))
    sla, slo, alt = [[Real('%s of station %d' % (x, q)) for q in range(k)] for x in ('latitude', 'longitude', 'altitude')]
    sel = Duck(m.NCAR_NetCDF_RAF_variable_name_selector, time_variable_name='UTC', latitude_variable_name=None if station else 'LAT',
               longitude_variable_name=None if station else 'LON', station=station, station_latitude=sla if station else None,
               station_longitude=slo if station else None, altitude=None if 'ALT' in names else alt, altitude_variable_name='ALT' if 'ALT' in names else None,
               pressure_variable_name='PRE' if pressure else None, time_stamp_info=['stamp %d' % q for q in range(k)])

    def time(self, stamps, name, d):
        use('NCAR_NetCDF_RAF._create_time_coord (C18)')
        E.prove('the stamps and times of the files', z3.BoolVal(list(stamps) == ['stamp %d' % q for q in range(k)] and name == 'UTC' and d['UTC'] is data['UTC']))
        return co.Coord(numbers(E, 'times', (sum(n),)), M(UD).Metadata('UTC', standard_name='time', shape=None), 'T')
    patch(m.NCAR_NetCDF_RAF, '_create_time_coord', time)

    def fixed(self, axis, values, units, counts, name):
        use('NCAR_NetCDF_RAF._create_fixed_value_coord')
        E.prove('one number of points for each file', z3.And(z3.BoolVal(len(counts) == k), *[iterm(lift(a)) == iterm(b) for a, b in zip(counts, n)]))
        return Duck(co.Coord, fixed=values, standard_name=name, axis=axis, metadata=M(UD).Metadata(name, standard_name=name))
    patch(m.NCAR_NetCDF_RAF, '_create_fixed_value_coord', fixed)
    lib_contract('numpy.product', lambda s, *a: s[0] if len(s) == 1 else SpecMismatch('shape'))
    E.cover()
    cs = list(m.NCAR_NetCDF_RAF()._create_coordinates_list(data, sel))
    E.prove('the coordinates', z3.BoolVal(sorted(c.standard_name for c in cs) == sorted(['time', 'latitude', 'longitude', 'altitude'] + ['air_pressure'] * pressure)))
    for name, v, given in (('latitude', 'LAT', sla), ('longitude', 'LON', slo), ('altitude', 'ALT', alt), ('air_pressure', 'PRE', None)):
        if name == 'air_pressure' and not pressure:
            continue
        c = one(E, name, cs, by_name(name))
        if v not in names:
            E.prove(name + ' of the stations', z3.BoolVal(c.fixed is given))
            continue
        out, base = asarr(c.data), 0
        for q in range(k):
            i = Int('i')
            a = arrays[v, q]
            h, miss = zbool(in_range(i, n[q])), zbool(a.mask_at(i))
            E.prove('%s of file %d' % (name, q), Bool(z3.Implies(h, z3.And(zbool(out.mask_at(base + i.e)) == miss, z3.Or(
                miss, lift(out.at(base + i.e)).real() == lift(a.at(i)).real())))))
            base = base + n[q].e
        E.prove(name + ' of all of the files', iterm(out.shape[0]) == base)


@unit(UNITS, 'CCI level 2', [CC + ':CCI_L2._create_coord_list', CC + ':CCI_L2.create_data_object', CC + ':Cloud_CCI_L2._fix_time',
                             CC + ':Aerosol_CCI_L2._fix_time'] + COORD)
def u_cci(E):
    """finite: one or two files"""
    model(E)
    m = M(CC)
    patch(m, 'UngriddedData', Result)
    files = ['f1', 'f0'][:1 + pick(E, 'files', 2)]
    short = E.choose('short names')
    have = (['lon', 'lat'] if short else ['longitude', 'latitude']) + ['time', 'v']

    def many(fs, vs):
        use('netcdf.read_many_files_individually')
        E.prove('all of the files', z3.BoolVal(list(fs) == files))
        if [v for v in vs if v not in have]:
            from cis.exceptions import InvalidVariableError
            raise M('cis.exceptions').InvalidVariableError('not there')
        return {v: [Variable(f, v, (3,)) for f in fs] for v in vs}
    patch(M(NC), 'read_many_files_individually', many)
    patch(M(NC), 'get_metadata', lambda v: M(UD).Metadata(v._name, shape=v.shape))
    patch(M(UD), 'static_mappings', {'Variable': lambda v: None})
    fixed = []
    patch(M('cis.data_io.Coord').Coord, 'convert_julian_to_std_time', lambda self, *a, **k: fixed.append((self, 'julian') + a))
    patch(M('cis.data_io.Coord').Coord, 'convert_TAI_time_to_std_time', lambda self, *a: fixed.append((self, 'TAI') + a))
    use('Coord.convert_julian_to_std_time, convert_TAI_time_to_std_time (C18)')
    cloud = E.choose('cloud')
    E.cover()
    r = (m.Cloud_CCI_L2 if cloud else m.Aerosol_CCI_L2)().create_data_object(files, 'v')
    E.prove('the values of all of the files', z3.BoolVal([(x.f, x._name) for x in r.made] == [(f, 'v') for f in files]))
    E.prove('three coordinates', z3.BoolVal(len(r.cs) == 3))
    for axis, name in zip('XYT', have):
        c = one(E, name, r.cs, by_name(name))
        E.prove(name + ' of all of the files', z3.BoolVal(c.axis == axis and [(x.f, x._name) for x in c._data_manager] == [(f, name) for f in files]))
    t = one(E, 'time', r.cs, by_name('time'))
    E.prove('standard time', z3.BoolVal(len(fixed) == 1 and fixed[0][0] is t and fixed[0][1:] == (('julian',) if cloud else ('TAI', dt.datetime(1970, 1, 1)))))


class Stored(object):
    """a variable of a netCDF file, through the array of its values"""
    _vc_symbolic = True

    def __init__(self, f, v, dims, a):
        self.f, self._name, self.dimensions, self.a, self.shape, self.long_name = f, v, dims, a, tuple(a.shape), 'long ' + v

    def __getitem__(self, i):
        use('netCDF4: a part of a variable')
        return self.a[i]


def joined(E, name, out, parts, take):
    """`out` has the values take(part) of the parts one after the other; take: index of the result -> index of the part"""
    out = asarr(out)
    base = 0
    for q, (a, n) in enumerate(parts):
        i, rest = Int('i'), [Int('j') for _ in out.shape[1:]]
        h = z3.And(zbool(in_range(i, n)), *[zbool(in_range(x, k)) for x, k in zip(rest, out.shape[1:])])
        at = take(i, *rest)
        g = (base + i.e,) + tuple(x.e for x in rest)
        miss = zbool(a.mask_at(*at))
        E.prove('%s: file %d' % (name, q), Bool(z3.Implies(h, z3.And(zbool(out.mask_at(*g)) == miss, z3.Or(
            miss, lift(out.at(*g)).real() == lift(a.at(*at)).real())))))
        base = base + n.e
    E.prove(name + ': all of the files', iterm(out.shape[0]) == base)


@unit(UNITS, 'EarthCARE', [EC + ':EarthCARE_MSI_ATL._create_coord_list', EC + ':EarthCARE_MSI_ATL.create_data_object', EC + ':EarthCARE_MSI_ATL._fix_time',
                           UT + ':expand_1d_to_2d_array', UT + ':concatenate'] + COORD, max_paths=3000)
def u_ec(E):
    """finite: one or two files; one to three classes, bands or backgrounds"""
    model(E)
    m = M(EC)
    patch(m, 'UngriddedData', Result)
    files = ['f1', 'f0'][:1 + pick(E, 'files', 2)]
    n = {f: Int('profiles of ' + f) for f in files}
    k = Int('levels')
    for x in list(n.values()) + [k]:
        E.assume(x >= 1)
    form = pick(E, 'variable', 5)
    dims = [('along_track', 'JSG_height'), ('along_track',), ('along_track', 'JSG_height', 'class'), ('band', 'along_track', 'across_track'),
            ('along_track', 'background')][form]
    tag = ['', '', '_CLASSNUM_', '_BANDNUM_', '_BACKGROUNDNUM_'][form]
    j = pick(E, 'index', 3) if tag else 0
    size = lambda f, d: n[f] if d == 'along_track' else k if d in ('JSG_height', 'across_track') else 3
    track = ('along_track', 'across_track') if form == 3 else ('along_track',)
    height = E.choose('heights')
    S = ['', 'ellipsoid_'][pick(E, 'names', 2)]
    where = {'ScienceData/%slongitude' % S: track, 'ScienceData/%slatitude' % S: track, 'ScienceData/time': ('along_track',), 'ScienceData/v': dims}
    if height:
        where['ScienceData/' + ('sample_altitude' if S else 'height')] = ('along_track', 'JSG_height')
    arrays = {(f, v): numbers(E, '%s of %s' % (v, f), tuple(size(f, d) for d in ds)) for f in files for v, ds in where.items()}

    def many(fs, vs):
        use('netcdf.read_many_files_individually')
        E.prove('all of the files', z3.BoolVal(list(fs) == files))
        if [v for v in vs if v not in where]:
            raise M('cis.exceptions').InvalidVariableError('not there')
        return {v: [Stored(f, v, where[v], arrays[f, v]) for f in fs] for v in vs}
    patch(m, 'read_many_files_individually', many)
    patch(M(NC), 'read_many_files_individually', many)
    patch(m, 'get_metadata_EC', lambda v, standard=None: M(UD).Metadata(v._name, standard_name=standard or '', long_name=v.long_name, shape=v.shape))
    fixed = []
    patch(M('cis.data_io.Coord').Coord, 'convert_TAI_time_to_std_time', lambda self, epoch: fixed.append((self, epoch)))
    use('Coord.convert_TAI_time_to_std_time (C18)')
    E.cover()
    named = tag and (j > 0 or E.choose('index 0 by its name'))
    r = m.EarthCARE_MSI_ATL().create_data_object(files, 'ScienceData/v' + ('%s%d' % (tag, j) if named else ''))
    take = [lambda i, z: (i, z), lambda i: (i,), lambda i, z: (i, z, j), lambda i, z: (j, i, z), lambda i: (i, j)][form]
    part = lambda v: [(arrays[f, v], n[f]) for f in files]
    flat = form in (1, 4)
    E.prove('dimensions of the values', z3.BoolVal(asarr(r.made).ndim == (1 if flat else 2)))
    joined(E, 'the values', r.made, part('ScienceData/v'), take)
    for x, v in (('longitude', 'ScienceData/%slongitude' % S), ('latitude', 'ScienceData/%slatitude' % S), ('time', 'ScienceData/time')):
        c = one(E, x, r.cs, lambda c: c.metadata._name == v)
        E.prove('dimensions of the ' + x, z3.BoolVal(asarr(c.data).ndim == (1 if flat else 2)))
        joined(E, x, c.data, part(v), (lambda *i: i) if form == 3 and x != 'time' or flat else lambda i, z: (i,))
    t = one(E, 'time', r.cs, lambda c: c.metadata._name == 'ScienceData/time')
    E.prove('standard time, since 2000', z3.BoolVal(fixed == [(t, dt.datetime(2000, 1, 1))]))
    alts = [c for c in r.cs if c.metadata._name == 'altitude']
    E.prove('no other coordinates', z3.BoolVal(len(r.cs) == 3 + len(alts) and len(alts) == (0 if flat or form and not height else 1) or form == 3))
    for c in alts:
        if height:
            joined(E, 'heights', c.data, part('ScienceData/' + ('sample_altitude' if S else 'height')), lambda i, z: (i, z))
        else:
            equal(E, 'the number of the level', c.data, (sum(n.values()), k), lambda i, z: False, lambda i, z: z)


# ---------------------------------------------------------------- bounded: whole reads of files

BASE = dt.datetime(1600, 1, 1)
PRODUCTS = ['modis', 'caliop1', 'caliop2', 'caliop2np', 'cloudsat', 'cci cloud', 'cci aerosol', 'raf', 'station', 'earthcare', 'ascii']


def days(y, m=1, d=1):
    return (dt.datetime(y, m, d) - BASE).days


def cases(rng, tier, scale):
    k = 0
    while True:
        p = PRODUCTS[k % len(PRODUCTS)]
        k += 1
        c = dict(product=p, rows=[rng.randint(2, 4) for _ in range(rng.randint(1, 3))], cols=rng.randint(2, 4), seed=rng.randrange(10 ** 6),
                 missing=rng.random() < .5, form=rng.randrange(4), other=rng.randrange(4), extra=[rng.randint(1, 3) for _ in range(2)])
        yield c


class FakeSds(object):
    def __init__(self, name, a, at):
        self.n, self.a, self.at = name, a, at

    def get(self, start=None, count=None, stride=None):
        if start is None:
            return self.a.copy()
        return self.a[tuple(slice(s, s + n) for s, n in zip(start, count))].copy()

    def attributes(self):
        return dict(self.at)

    def info(self):
        return self.n, self.a.ndim, list(self.a.shape) if self.a.ndim > 1 else self.a.shape[0], 5, len(self.at)

    def endaccess(self):
        pass


def hdf_world(files):
    """stand-ins for pyhdf: files {name: dict(sd={var: (array, attributes, dimension names)}, vd={...}, first={...})}"""
    class SD(object):
        def __init__(self, f, *a):
            self.f = files[f]

        def datasets(self):
            return dict((v, (tuple(x[2]), x[0].shape, 5, i)) for i, (v, x) in enumerate(self.f['sd'].items()))

        def select(self, v):
            return FakeSds(v, *self.f['sd'][v][:2])

        def end(self):
            pass

    class VD(object):
        def __init__(self, a, at, table=None):
            self.a, self.at, self.table = a, at, table

        def setfields(self, v):
            self.a = self.table[v]

        def read(self, nRec=1):
            return [list(self.a)] if self.table is not None else [[x] for x in self.a[:nRec]]

        def inquire(self):
            return (len(self.a),)

        def attrinfo(self):
            return dict((k, (0, 1, v)) for k, v in self.at.items())

        def detach(self):
            pass

    class HDF(object):
        def __init__(self, f, *a):
            self.f = files[f]

        def vstart(self):
            return self

        def next(self, i):
            return 'first'

        def attach(self, v):
            if v == 'first':
                return VD(None, {}, self.f['first'])
            return VD(*self.f['vd'][v])

        def end(self):
            pass
        close = end
    return SD, HDF


@contextlib.contextmanager
def hdf_files(files):
    import pyhdf.SD
    import pyhdf.HDF
    from cis.data_io import hdf_vd
    SD, HDF = hdf_world(files)
    old = pyhdf.SD.SD, pyhdf.HDF.HDF, hdf_vd.HDF
    pyhdf.SD.SD, pyhdf.HDF.HDF, hdf_vd.HDF = SD, HDF, HDF
    try:
        yield
    finally:
        pyhdf.SD.SD, pyhdf.HDF.HDF, hdf_vd.HDF = old


class Numbers(object):
    def __init__(self, c):
        self.r, self.missing = np.random.RandomState(c['seed']), c['missing']

    def __call__(self, *shape, **k):
        lo, hi = k.get('lo', -80), k.get('hi', 80)
        return np.round(self.r.uniform(lo, hi, shape), 2)

    def holes(self, a, fill=-999.):
        if self.missing:
            a[self.r.uniform(size=a.shape) < .15] = fill
        return a


def rows_of(d, names):
    """the points of a data object: value and coordinates, those without a value marked"""
    out = []
    cols = []
    for n in names:
        cs = [x for x in d.coords() if n.lower() in (str(x.standard_name).lower(), x.name().lower(), x.var_name.lower())]
        if len(cs) != 1:
            return '%d coordinates %s' % (len(cs), n)
        cols.append(cs[0])
    if len(d.coords()) != len(names):
        return 'coordinates %s' % [x.name() for x in d.coords()]
    v = np.ma.masked_invalid(np.ma.asarray(d.data)).flatten()
    for x in cols:
        if x.data.size != v.size:
            return 'coordinate %s has %d values for %d' % (x.name(), x.data.size, v.size)
        if np.ma.getmaskarray(x.data).any():
            return 'missing coordinate %s' % x.name()
    for i in range(v.size):
        out.append([None if v.mask is not np.ma.nomask and np.ma.getmaskarray(v)[i] else float(v[i])] + [float(np.asarray(x.data).flatten()[i]) for x in cols])
    return out


def compare(what, d, names, want):
    """want: tuples of arrays of one shape (NaN: missing): value and coordinates"""
    got = rows_of(d, names)
    if isinstance(got, str):
        return what + ': ' + got, what
    cols = [np.asarray(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)).flatten() for x in want]
    exp = [[None if np.isnan(r[0]) else r[0]] + list(r[1:]) for r in zip(*cols) if not any(np.isnan(x) for x in r[1:])]
    if len(got) != len(exp):
        return '%s: %d points instead of %d' % (what, len(got), len(exp)), what
    for i, (g, e) in enumerate(zip(got, exp)):
        for n, a, b in zip(['value'] + list(names), g, e):
            if (a is None) != (b is None) or a is not None and abs(a - b) > 1e-5 * (1 + abs(b)):
                return '%s: %s of point %d is %s instead of %s' % (what, n, i, a, b), what


def nan(a, fill=-999.):
    return np.where(a == fill, np.nan, a)


def both(xs):
    return np.concatenate(xs, axis=0)


def check(c):
    return dict(modis=check_modis, cloudsat=check_cloudsat, raf=check_raf, station=check_raf, earthcare=check_earthcare, ascii=check_ascii).get(
        c['product'].split()[0], check_caliop if c['product'].startswith('caliop') else check_cci)(c)


def check_modis(c):
    from cis.data_io.products.MODIS import MODIS_L2
    R = Numbers(c)
    n = c['cols']
    extra = c['extra'][:max(0, c['form'] - 1)]
    files, rec = {}, []
    for i, m in enumerate(c['rows']):
        dims = ['Cell_Along_Swath_5km:mod06', 'Cell_Across_Swath_5km:mod06']
        x = dict(la=R.holes(R(m, n)), lo=R(m, n), t=R(m, n, lo=0, hi=1e8), v=R.holes(R(*(extra + [m, n]))))
        rec.append(x)
        at = {'_FillValue': -999., 'scale_factor': .5, 'add_offset': 2., 'units': 'm'}
        files['f%d.hdf' % i] = dict(vd={}, sd={'Latitude': (x['la'], {'_FillValue': -999., 'units': 'degrees'}, dims), 'Longitude': (x['lo'], {'units': 'degrees'}, dims),
                                               'Scan_Start_Time': (x['t'], {'units': 's'}, dims),
                                               'v': (x['v'], at, (['Band:mod06', 'Level:mod06'][:len(extra)] + dims))})
    with hdf_files(files):
        names = sorted(files)
        r = MODIS_L2().create_data_object(names, 'v')
        items = r if extra else [r]
        idx = list(itertools.product(*[range(k) for k in extra])) if extra else [()]
        if len(items) != len(idx):
            return '%d data objects for %d slices' % (len(items), len(idx)), 'modis'
        order = list(range(len(idx)))
        if c['other'] % 2:
            order.reverse()
        for q in order:
            v = both([(nan(x['v'][idx[q]]) - 2) * .5 for x in rec])
            bad = compare('MODIS slice' if extra else 'MODIS', items[q], NAMES3, (
                v, both([nan(x['la']) for x in rec]), both([x['lo'] for x in rec]), both([days(1993) + x['t'] / 86400. for x in rec])))
            if bad:
                return bad


NAMES3 = ['Latitude', 'Longitude', 'time']


def check_caliop(c):
    from cis.data_io.products import caliop
    R = Numbers(c)
    k = c['cols']
    l1 = c['product'] == 'caliop1'
    w = 1 if l1 else 3
    alt = R(k, lo=0, hi=30)
    files, rec = {}, []
    kind = 'profile' if l1 else ['profile', 'column', 'mixed', 'profile'][c['form']]
    for i, m in enumerate(c['rows']):
        x = dict(la=R(m, w), lo=R(m, w), t=R(m, w, lo=0, hi=1e8), p=R.holes(R(m, k + l1, lo=100, hi=1000), -9999.),
                 v=R.holes(R(*dict(profile=(m, k), column=(m, 1), mixed=(m, k, 2))[kind]), -9999.))
        rec.append(x)
        d = lambda a: ['d%d' % q for q in range(a.ndim)]
        vname = dict(profile='v', column='Column_v', mixed='CAD_Score')[kind]
        sd = dict((nm, (x[y], {'units': u, 'format': 'Float_32'}, d(x[y]))) for nm, y, u in (
            ('Latitude', 'la', 'degrees'), ('Longitude', 'lo', 'degrees'), ('Profile_Time', 't', 's'), ('Pressure', 'p', 'hPA')))
        sd[vname] = (x['v'], {'format': 'Float_32', 'units': 'm', 'fillvalue': -9999.}, d(x['v']))
        files['f%d.hdf' % i] = dict(vd={}, first={'Lidar_Data_Altitudes': alt}, sd=sd)
    if l1 and k + l1 == 1:
        return None
    with hdf_files(files):
        kls = dict(caliop1=caliop.Caliop_L1, caliop2=caliop.Caliop_L2, caliop2np=caliop.Caliop_L2_NO_PRESSURE)[c['product']]
        r = kls().create_data_object(sorted(files), vname)
        j = 0 if l1 else 1
        la, lo, t = (both([x[y][:, j] for x in rec]) for y in ('la', 'lo', 't'))
        t = days(1993) + t / 86400.
        v = nan(both([x['v'] for x in rec]), -9999.)
        if kind == 'column':
            return compare('CALIOP column', r, NAMES3, (v[:, 0], la, lo, t))
        if kind == 'mixed':
            v = v[:, :, 0]
        e = lambda y: np.repeat(y[:, None], k, axis=1)
        names, cols = NAMES3 + ['altitude'], [v, e(la), e(lo), e(t), np.repeat(1000 * alt[None], len(la), axis=0)]
        if c['product'] == 'caliop2':
            names, cols = names + ['Pressure'], cols + [nan(both([x['p'] for x in rec]), -9999.)]
        return compare('CALIOP ' + kind, r, names, cols)


def check_cloudsat(c):
    from cis.data_io.products.cloudsat import CloudSat
    R = Numbers(c)
    k = c['cols']
    two = c['form'] > 0
    files, rec = {}, []
    for i, m in enumerate(c['rows']):
        x = dict(la=R(m), lo=R(m), t=R(m, lo=0, hi=6000), s=R(1, lo=0, hi=1e8), h=R.holes(R(m, k)), v=R.holes(R(m, k) if two else R(m)))
        rec.append(x)
        at = {'_FillValue': -999.}
        vd = {'Latitude': (x['la'], {'units': 'degrees'}), 'Longitude': (x['lo'], {'units': 'degrees'}), 'TAI_start': (x['s'], {'units': 's'}),
              'Profile_time': (x['t'], {'units': 's'})}
        sd = {}
        if c['form'] != 3 or two:
            sd['Height'] = (x['h'], dict(at, units='m'), ['nray', 'nbin'])
        if two:
            sd['v'] = (x['v'], dict(at, units='m', factor=2., offset=1.), ['nray', 'nbin'])
        else:
            vd['v'] = (x['v'], {'missing': -999., 'units': 'm', 'factor': 2., 'offset': 1.})
        files['f%d.hdf' % i] = dict(vd=vd, sd=sd)
    with hdf_files(files):
        r = CloudSat().create_data_object(sorted(files), 'v')
        e = (lambda y: np.repeat(y[:, None], k, axis=1)) if two else (lambda y: y)
        v = both([(nan(x['v']) - 1) / 2 for x in rec])
        la, lo = e(both([x['la'] for x in rec])), e(both([x['lo'] for x in rec]))
        t = e(both([days(1993) + (x['t'] + x['s']) / 86400. for x in rec]))
        if two:
            return compare('CloudSat profiles', r, ['Latitude', 'Longitude', 'Height', 'time'], (v, la, lo, both([nan(x['h']) for x in rec]), t))
        return compare('CloudSat columns', r, ['Latitude', 'Longitude', 'time'], (v, la, lo, t))


@contextlib.contextmanager
def netcdf_files(c, contents):
    """contents: list of (attributes, {dim: n}, {name: (dims, array, attributes)}) """
    from netCDF4 import Dataset
    tmp = tempfile.mkdtemp()
    try:
        names = []
        for i, (atts, dims, vs) in enumerate(contents):
            f = os.path.join(tmp, 'f%d.nc' % i)
            names.append(f)
            d = Dataset(f, 'w')
            for k, v in atts.items():
                setattr(d, k, v)
            for full, (ds, a, at) in vs.items():
                g = d
                for part in full.split('/')[:-1]:
                    g = g.groups[part] if part in g.groups else g.createGroup(part)
                for x in ds:
                    if x not in g.dimensions:
                        g.createDimension(x, dims[x])
                v = g.createVariable(full.split('/')[-1], a.dtype, ds, fill_value=-999. if a.dtype.kind == 'f' else None)
                for k, y in at.items():
                    setattr(v, k, y)
                v[...] = a
            d.close()
        yield names
    finally:
        shutil.rmtree(tmp)


def check_cci(c):
    from cis.data_io.products import CCI
    R = Numbers(c)
    cloud = c['product'] == 'cci cloud'
    n1, n2 = [('lon', 'lat'), ('longitude', 'latitude')][c['other'] % 2]
    contents, rec = [], []
    for m in c['rows']:
        x = dict(la=R.holes(R(m)), lo=R(m), t=R(m, lo=0, hi=1e4) if cloud else R(m, lo=0, hi=1e9), v=R.holes(R(m)))
        rec.append(x)
        contents.append(({}, {'p': m}, {n1: (['p'], x['lo'], {'units': 'degrees_east', 'standard_name': 'longitude'}), n2: (
            ['p'], x['la'], {'units': 'degrees_north', 'standard_name': 'latitude'}), 'time': (['p'], x['t'] + (2450000 if cloud else 0), {
                'units': 'Julian Date, days elapsed since 12:00 January 1, 4713 BC' if cloud else 'seconds since 1970', 'standard_name': 'time'}),
            'v': (['p'], x['v'], {'units': 'm'})}))
    with netcdf_files(c, contents) as names:
        r = (CCI.Cloud_CCI_L2 if cloud else CCI.Aerosol_CCI_L2)().create_data_object(names, 'v')
        t = both([(x['t'] + 2450000 - 2305447.5 if cloud else days(1970) + x['t'] / 86400.) for x in rec])
        return compare(c['product'], r, ['latitude', 'longitude', 'time'], (both([nan(x['v']) for x in rec]), both([nan(x['la']) for x in rec]),
                                                                            both([x['lo'] for x in rec]), t))


def check_raf(c):
    from cis.data_io.products.NCAR_NetCDF_RAF import NCAR_NetCDF_RAF
    R = Numbers(c)
    station = c['product'] == 'station'
    pressure = c['other'] % 2
    own_alt = c['form'] % 2
    aux = c['other'] >= 2
    k = c['cols']
    stamp = c['form'] >= 2
    contents, rec = [], []
    auxv = R(k, lo=1, hi=9)
    for i, m in enumerate(c['rows']):
        x = dict(la=R.holes(R(m)), lo=R(m), al=R(m, lo=0, hi=1e4), t=R(m, lo=0, hi=1e4), v=R.holes(R(m, k) if aux else R(m)), p=R(m, lo=100, hi=1000),
                 sla=float(R(1)[0]), slo=float(R(1)[0]), sal=float(R(1, lo=0, hi=3000)[0]), day=1 + i)
        atts = {'GASSP_Version': '1', 'Time_Coordinate': 'UTC'}
        vs = {'UTC': (['Time'], x['t'], {'units': 'seconds since 2010-01-0%d' % x['day'] if not stamp else 'seconds (since midnight)'})}
        if stamp:
            atts['Time_Stamp_Info'] = '2010-01-0%d 00:00:00' % x['day']
        if station:
            atts.update(Station_Lat=['%s', '%s degrees north'][i % 2] % x['sla'], Station_Lon=str(x['slo']))
            x['la'], x['lo'] = np.full(m, x['sla']), np.full(m, x['slo'])
            if own_alt:
                atts['Station_Altitude'] = '%s m asl' % x['sal']
            x['al'] = np.full(m, x['sal'] if own_alt else 0.)
        else:
            atts.update(Latitude_Coordinate='LAT', Longitude_Coordinate='LON')
            vs['LAT'], vs['LON'] = (['Time'], x['la'], {'units': 'degrees_north'}), (['Time'], x['lo'], {'units': 'degrees_east'})
            if own_alt:
                atts['Vertical_Coordinate'] = 'ALT'
                vs['ALT'] = (['Time'], x['al'], {'units': 'm'})
            else:
                x['al'] = np.zeros(m)
        if pressure:
            vs['PRE'] = (['Time'], x['p'], {'units': 'hPa'})
        if aux:
            vs['size' if c['seed'] % 2 else 'Diameter'] = (['size'], auxv, {'units': 'um'})
        vs['v'] = (['Time', 'size'] if aux else ['Time'], x['v'], {'units': 'm'})
        rec.append(x)
        contents.append((atts, {'Time': m, 'size': k}, vs))
    with netcdf_files(c, contents) as names:
        r = NCAR_NetCDF_RAF().create_data_object(names, 'v')
        e = (lambda y: np.repeat(y[:, None], k, axis=1)) if aux else (lambda y: y)
        n, cols = ['time', 'latitude', 'longitude', 'altitude'], [both([nan(x['v']) for x in rec])] + [e(both(y)) for y in (
            [days(2010, 1, x['day']) + x['t'] / 86400. for x in rec], [nan(x['la']) for x in rec], [x['lo'] for x in rec], [x['al'] for x in rec])]
        if pressure:
            n, cols = n + ['air_pressure'], cols + [e(both([x['p'] for x in rec]))]
        if aux:
            n, cols = n + ['size' if c['seed'] % 2 else 'Diameter'], cols + [np.repeat(auxv[None], sum(c['rows']), axis=0)]
        return compare('%s %s' % (c['product'], 'with sizes' if aux else 'series'), r, n, cols)


def check_ascii(c):
    from cis.data_io.products.products import ASCII_Hyperpoints
    R = Numbers(c)
    tmp = tempfile.mkdtemp()
    form = ('%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S', '%d %b %Y %H:%M:%S', '%Y%m%dT%H%M%S')[c['other']]
    try:
        names, rec = [], []
        for i, m in enumerate(c['rows']):
            m = 1 if c['form'] == 0 else m
            ts = [dt.datetime(2000, 1, 1) + dt.timedelta(seconds=int(x)) for x in R.r.randint(0, 10 ** 9, m)]
            x = dict(la=R.holes(R(m)), lo=R.holes(R(m)), h=R.holes(R(m)), v=R.holes(R(m)), t=np.array([(t - BASE).total_seconds() / 86400. for t in ts]))
            rec.append(x)
            names.append(os.path.join(tmp, '%s%d.txt' % ('ba'[i % 2], i)))
            with open(names[-1], 'w') as f:
                for j in range(m):
                    n = lambda k: '' if x[k][j] == -999. else '%.2f' % x[k][j]
                    f.write(','.join([n('la'), n('lo'), n('h'), ts[j].strftime(form), n('v')]) + '\n')
        r = ASCII_Hyperpoints().create_data_object(names, 'value')
        v, la, lo, h = (nan(both([x[k] for x in rec])) for k in ('v', 'la', 'lo', 'h'))
        return compare('ASCII', r, ['latitude', 'longitude', 'altitude', 'time'], [v, la, lo, h, both([x['t'] for x in rec])])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_earthcare(c):
    from cis.data_io.products.EarthCARE import EarthCARE_MSI_ATL
    R = Numbers(c)
    k = c['cols']
    form, ds, tag = [('profile', ['along_track', 'JSG_height'], ''), ('track', ['along_track'], ''),
                     ('class', ['along_track', 'JSG_height', 'class'], '_CLASSNUM_'), ('band', ['band', 'along_track', 'across_track'], '_BANDNUM_'),
                     ('background', ['along_track', 'background'], '_BACKGROUNDNUM_')][c['seed'] % 5]
    height = c['other'] % 2 and form != 'band'
    x0 = c['extra'][0]
    j = c['other'] % x0
    contents, rec = [], []
    S = 'ScienceData/'
    for m in c['rows']:
        dims = {'along_track': m, 'JSG_height': k, 'across_track': k, 'class': x0, 'band': x0, 'background': x0}
        pos = (['along_track', 'across_track'] if form == 'band' else ['along_track'])
        sh = (m, k) if form == 'band' else (m,)
        x = dict(la=R.holes(R(*sh)), lo=R(*sh), t=R(m, lo=0, hi=1e8), v=R.holes(R(*[dims[q] for q in ds])), h=R(m, k, lo=0, hi=2e4))
        rec.append(x)
        vs = {S + 'latitude': (pos, x['la'], {'units': 'degrees', 'long_name': 'latitude'}),
              S + 'longitude': (pos, x['lo'], {'units': 'degrees', 'long_name': 'longitude'}),
              S + 'time': (['along_track'], x['t'], {'units': 'seconds since 2000-01-01', 'long_name': 'time'}),
              S + 'v': (ds, x['v'], {'units': 'm', 'long_name': 'v'})}
        if height:
            vs[S + 'height'] = (['along_track', 'JSG_height'], x['h'], {'units': 'm', 'long_name': 'height'})
        contents.append(({}, dims, vs))
    with netcdf_files(c, contents) as names:
        ask = tag and (j > 0 or c['form'] > 1)
        r = EarthCARE_MSI_ATL().create_data_object(names, S + 'v' + (tag + str(j) if ask else ''))
        flat = form in ('track', 'background')
        e = lambda y: np.repeat(y[:, None], k, axis=1) if not flat and y.ndim == 1 else y
        take = dict(zip(('class', 'band', 'background'), ((Ellipsis, j), (j,), (slice(None), j)))).get(form, Ellipsis)
        v = both([nan(x['v'][take]) for x in rec])
        n, cols = ['longitude', 'latitude', 'time'], [v] + [e(both(y)) for y in ([x['lo'] for x in rec], [nan(x['la']) for x in rec],
                                                                                [days(2000) + x['t'] / 86400. for x in rec])]
        if not flat and height:
            n, cols = n + ['altitude'], cols + [both([x['h'] for x in rec])]
        elif form == 'profile':
            n, cols = n + ['altitude'], cols + [np.repeat(np.arange(k)[None] * 1., sum(c['rows']), axis=0)]
        return compare('EarthCARE ' + form, r, n, cols)


def nontrivial(c):
    return len(c['rows']) > 1 or c['form'] > 0


RULE = ('every product in turn, with one to three files of two to four rows (files differ), two to four levels, missing values and '
        'coordinates in half of the cases; HDF files are stand-ins for pyhdf, netCDF files are written and read: the values of the files, in their order, each with the coordinates which '
        'the files give for its place')
BOUNDED_FUNCTIONS = ['MODIS_L2.create_data_object', 'Caliop_L1.create_data_object', 'Caliop_L2.create_data_object', 'CloudSat.create_data_object',
                     'Cloud_CCI_L2.create_data_object', 'Aerosol_CCI_L2.create_data_object', 'NCAR_NetCDF_RAF.create_data_object',
                     'EarthCARE_MSI_ATL.create_data_object', 'ASCII_Hyperpoints.create_data_object', 'NCAR_NetCDF_RAF_variable_name_selector', 'hdf.read', 'hdf_vd.read', 'hdf_sd.read']
