"""C16 saving and reading back ungridded data"""
import numpy as np
from vc.api import *
from props import common as C

ID = 'C16'
LEVEL = 'proof'
PROPERTY = dict(
    title='Saved ungridded data is the same when it is read back',
    statement='Saving ungridded data (or a list of such data with common coordinates) to a netCDF file and reading a variable '
              'of that file back as CIS output gives one point for every point which was saved, in the same (flattened) '
              'order: the same coordinate values, the same data values, and a missing value exactly where there was one. '
              'The coordinates are found again under their standard names, and units (with the calendar of times), standard '
              'name and long name are kept. This holds for every type, with or without missing values, whether or not a '
              'missing value is given, and with scale and offset attributes left from the file the data came from.',
    over=['inputs'],
    text='any values, missing flags, shapes, types, missing values and attributes; any number of variables',
    why='The tests check that a file was written, or a single small variable.',
    files=['cis/data_io/write_netcdf.py', 'cis/data_io/netcdf.py', 'cis/data_io/products/products.py',
           'cis/data_io/ungridded_data.py'],
    mechanism=[('writing', 'cis/data_io/write_netcdf.py: write_coordinate_list, add_data_to_file, __create_variable, '
                           '__add_metadata'),
               ('reading', 'cis/data_io/netcdf.py: get_data, get_metadata, read_many_files_individually; '
                           'cis/data_io/products/products.py: cis.create_coords'),
               ('objects', 'cis/data_io/ungridded_data.py: UngriddedData.save_data, UngriddedDataList.save_data')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5), netCDF4 by contract; real files bounded'
NOTE = ('Writing and reading are proved together, over one contract of netCDF4 (what is stored is read); files written with '
        'the real netCDF4 are read back bounded. The lists have 2 and 3 variables (a finite unrolling).')
ASSUMPTIONS = ['netCDF4: assignment stores the values, scaled, and the fill value where missing; reading gives the stored values, '
               'missing where equal to the fill or missing value (trusted)',
               'no valid value is stored as the fill value of its variable; no value is NaN', 'variables have different names, '
               'none of them the standard name of a coordinate', 'no coordinate is missing (see C17)',
               'reals instead of floating point']
W = 'cis.data_io.write_netcdf'

NC = 'cis.data_io.netcdf'
UD = 'cis.data_io.ungridded_data'
CO = 'cis.data_io.Coord'
PR = 'cis.data_io.products.products'
WRITE = [W + ':write', W + ':write_coordinates', W + ':write_coordinate_list', W + ':add_data_to_file',
         W + ':__create_variable', W + ':__add_metadata', W + ':__get_missing_value']
READ = [NC + ':get_data', NC + ':apply_offset_and_scaling', NC + ':get_metadata', NC + ':find_missing_value', NC + ':read',
        NC + ':read_many_files_individually', NC + ':get_netcdf_file_variables', UD + ':LazyData.__init__',
        UD + ':LazyData.data', UD + ':Metadata.__init__', CO + ':CoordList.append', PR + ':cis.create_coords',
        PR + ':cis.create_data_object', UD + ':UngriddedData.__init__', 'cis.utils:set_standard_name_if_valid',
        'cis.utils:add_element_to_list_in_dict']
DEFAULT_FILL = 'default fill value of the type'


class Variable(object):
    """contract of a netCDF4 variable: what is assigned is stored, scaled as its attributes say, with the fill value where it
    is missing; what is read is missing where it equals the fill value or missing_value"""
    _vc_symbolic = True

    def __init__(self, name, datatype, dims, fill, default):
        d = self.__dict__
        d['_name'], d['_type'], d['_dims'], d['_raw'], d['_assigned'] = name, datatype, dims, None, None
        d['_attrs'] = {}
        d['_fill'], d['_default'] = fill, default
        d['_auto'] = [True, True]
        if fill is not None:
            d['_attrs']['_FillValue'] = fill

    name = property(lambda self: self._name)
    dimensions = property(lambda self: tuple(d.name for d in self._dims))
    shape = property(lambda self: tuple(d.size for d in self._dims))
    dtype = property(lambda self: self._raw.dtype)

    def __getattr__(self, n):
        try:
            return self.__dict__['_attrs'][n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        if n == '_FillValue':
            raise AttributeError('the fill value is given when the variable is created')
        expect(self._raw is None or n not in ('scale_factor', 'add_offset', 'missing_value'), 'attributes precede the values')
        self._attrs[n] = v

    def ncattrs(self):
        return list(self._attrs)

    def set_auto_mask(self, m):
        self._auto[0] = m

    def set_auto_scale(self, m):
        self._auto[1] = m

    def set_auto_maskandscale(self, m):
        self._auto[:] = [m, m]

    def fill(self):
        return self._default if self._fill is None else self._fill

    def __setitem__(self, k, v):
        use('netCDF4.Variable[...] = values: stores them (scaled, the fill value where missing)')
        expect(k == slice(None) or k is Ellipsis, 'the whole variable is written')
        expect(self._auto[1], 'with automatic scaling')
        a = asarr(v)
        if a.ndim != 1 or len(self._dims) != 1:
            raise Unsupported('assignment of an array of %d dimensions' % a.ndim)
        eng.CUR.prove('as many values of %s as points' % self._name, lift(a.shape[0]) == lift(self._dims[0].size))
        a = a.copy()
        self.__dict__['_assigned'] = a
        sc, of = self._attrs.get('scale_factor'), self._attrs.get('add_offset')
        if (sc is not None or of is not None) and a.kind != 'r':
            raise Unsupported('packing of integers')
        fill = self.fill()
        expect('missing_value' not in self._attrs or self._attrs['missing_value'] is fill)

        def raw(i):
            x = lift(a.at(*i))
            if of is not None:
                x = x - of
            if sc is not None:
                x = x / sc
            return ite(a.mask_at(*i), fill, x) if a.is_masked else x
        self.__dict__['_raw'] = SArr(a.shape, raw, 'r' if a.kind == 'r' or a.is_masked else a.kind)

    def __getitem__(self, k):
        use('netCDF4.Variable[...]: the stored values, missing where equal to the fill or missing value')
        expect(k == slice(None) or k is Ellipsis, 'the whole variable is read')
        sc, of = self._attrs.get('scale_factor'), self._attrs.get('add_offset')
        if self._auto[1] and (sc is not None or of is not None):
            raise Unsupported('scaling by netCDF4')
        raw, fill = self._raw, self.fill()
        if not self._auto[0]:
            return raw.copy()
        return SArr(raw.shape, lambda i: raw.at(*i), raw.kind, lambda i: raw.at(*i) == fill, True)


class Dim(object):
    _vc_symbolic = True

    def __init__(self, name, size):
        self.name, self.size = name, size

    def __len__(self):
        raise Unsupported('len of a dimension')


class File(object):
    """contract of netCDF4.Dataset: opened for writing it is empty, opened to append or to read it is what was written"""
    _vc_symbolic = True
    _inside = ('variables', 'dimensions', 'groups', '_opened', '_closed', '_global')

    def __init__(self):
        d = self.__dict__
        d.update(variables={}, dimensions={}, groups={}, _opened=[], _global={}, default=Real(DEFAULT_FILL))

    def __call__(self, filename, mode='r', format=None, **k):
        expect(filename == 'FILE')
        self._opened.append(mode)
        expect(mode in ('r', 'w', 'a'))
        if mode == 'w':
            self.__dict__.update(variables={}, dimensions={}, _global={})
        else:
            expect('w' in self._opened)
        return self

    def __setattr__(self, n, v):
        self._global[n] = v

    def filepath(self):
        return 'FILE'

    def close(self):
        pass

    def createDimension(self, name, size):
        self.dimensions[name] = Dim(name, lift(size))
        return self.dimensions[name]

    def createVariable(self, name, datatype, dimensions=(), fill_value=None, **k):
        use('netCDF4.Dataset.createVariable')
        expect(name not in self.variables, 'a new variable')
        dims = [dimensions] if isinstance(dimensions, str) else list(dimensions)
        v = self.variables[name] = Variable(name, datatype, [self.dimensions[d] for d in dims], fill_value, self.default)
        return v


def netcdf4():
    f = File()
    override('netCDF4', Dataset=f)
    k = M(W)
    patch(k, 'Dataset', f)
    if hasattr(k, '__check_disk_space'):
        patch(k, '__check_disk_space', lambda *a: None)      # only warns
    # (the range of the metadata is for information; it is worked out by numpy and cf_units)
    patch(M(UD).LazyData, 'update_range', lambda self, range=None: None)
    return f


def meta(E, name, std, units, misc=None, long_name='', missing=None):
    return M(UD).Metadata(name, standard_name=std, units=units, misc=misc, long_name=long_name, missing_value=missing)


NAMES = [('lat', 'latitude', 'degrees_north', 'Y'), ('Longitude', 'longitude', 'degrees_east', 'X'),
         ('t', 'time', None, 'T'), ('altitude', 'altitude', 'm', 'Z'), ('p', 'air_pressure', 'hPa', 'P')]


def coordinates(E, shape, names):
    k = M(CO)
    out = k.CoordList()
    for name, std, units, axis in names:
        a = fresh_array(std, shape, 'r')
        if units is None:
            units = C.tunit()
            if E.choose('other time units'):
                units = other_time('360_day' if E.choose('other calendar') else 'standard')
        out.append(k.Coord(a, meta(E, name, std, units), axis))
    return out


def other_time(calendar):
    import cf_units
    return cf_units.Unit('hours since 2001-02-03', calendar=calendar)


def variable(E, name, shape, coords, plain=False, scaled=False):
    """ungridded data of any values, masked or not, with any attributes"""
    integers = not plain and not scaled and E.choose('integers')
    masked = E.choose(name + ' masked')
    a = fresh_array(name, shape, 'i' if integers else 'r', masked=masked)
    missing = None
    if not plain and E.choose('has missing value'):
        missing = 0 if E.choose('missing value is zero') else (Int if integers else Real)('missing_value')
        if missing != 0 and not isinstance(missing, int):
            E.restrict(missing != 0)
    misc = {'comment': 'a comment'}
    if scaled:
        if E.choose('scale'):
            misc['scale_factor'] = Real('scale')
            E.assume(misc['scale_factor'] != 0)
        if E.choose('offset'):
            misc['add_offset'] = Real('offset')
    md = meta(E, name, '', 'K', misc, 'a long name', missing)
    # (UngriddedData.__init__ only stores its arguments and removes the points without coordinates: see C17)
    return Duck(M(UD).UngriddedData, _data=a, _data_manager=None, _data_flattened=None, attributes={}, metadata=md,
                _coords=coords, coords=lambda: coords), a, missing, misc


def read_back(E, f, names, ds):
    """what is read back of every variable and coordinate"""
    k = M(PR)
    for d, a, missing, misc in ds:
        patch(M(UD).UngriddedData, '_post_process', lambda self: None)   # nothing to remove: no coordinate is missing
        got = k.cis().create_data_object(['FILE'], d.metadata._name)
        E.prove('read as ungridded data', z3.BoolVal(isinstance(got, M(UD).UngriddedData)))
        fill = f.default if missing is None else missing
        the_same(E, d.metadata._name, got.data, a, fill, misc)
        md = got.metadata
        E.prove('units, standard name and long name are kept', z3.BoolVal(
            md.units == d.metadata.units and (md.standard_name or '') == (d.metadata.standard_name or '') and
            md.long_name == d.metadata.long_name))
        cs = list(got._coords)
        E.prove('every coordinate is read', z3.BoolVal(sorted(c.standard_name for c in cs) == sorted(x[1] for x in names)))
        for c in d._coords if d is ds[0][0] else ():
            r = [x for x in cs if x.standard_name == c.standard_name][0]
            the_same(E, c.standard_name, r.data, c._data, f.default, {})
            E.prove('units of ' + c.standard_name, z3.BoolVal(
                r.metadata.units == c.metadata.units and r.metadata.units.calendar == c.metadata.units.calendar))


def the_same(E, name, got, a, fill, misc):
    """element by element in flattened order; assumed: a valid value is not stored as the fill value"""
    got, a = asarr(got), asarr(a).flatten()
    E.prove('%s: one value for every point' % name, z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(a.shape[0])))
    i = Int('i')
    stored = lift(a.at(i)).real()
    if 'add_offset' in misc:
        stored = stored - misc['add_offset'].real()
    if 'scale_factor' in misc:
        stored = stored / misc['scale_factor'].real()
    am, gm = zbool(a.mask_at(i)), zbool(got.mask_at(i))
    hyp = z3.And(zbool(in_range(i, a.shape[0])), z3.Or(am, stored != lift(fill).real()))
    v = lift(a.at(i))
    hyp = z3.And(hyp, z3.Not(zbool(v.isnan())))
    E.prove('%s: missing where it was missing' % name, Bool(z3.Implies(hyp, am == gm)))
    E.prove('%s: the same value' % name, Bool(z3.Implies(z3.And(hyp, z3.Not(am)), lift(got.at(i)).real() == v.real())))


def points(E, two):
    """shape of the data: one or two dimensions"""
    n, m = Int('n'), Int('m')
    E.assume(n >= 1)
    E.assume(m >= 1)
    return (n, m) if two else (n,)


def one_variable(scaled):
    @unit(UNITS, 'one variable%s: save_data and read' % (', with scale and offset' if scaled else ''),
          [UD + ':LazyData.save_data'] + WRITE + READ, max_paths=2000)
    def u_one(E):
        shape = points(E, not scaled and E.choose('two dimensions'))
        names = NAMES[:1]
        f = netcdf4()
        cs = coordinates(E, shape, names)
        d = variable(E, 'v', shape, cs, False, scaled)
        E.cover()
        if not scaled and E.choose('write'):
            M(W).write(d[0], 'FILE')
        else:
            d[0].save_data('FILE')
        E.prove('marked as output of CIS', z3.BoolVal(str(f._global.get('source', '')).startswith('CIS')))
        read_back(E, f, names, [d])


one_variable(False)
one_variable(True)


@unit(UNITS, 'every set of coordinates', [UD + ':LazyData.save_data'] + WRITE + READ, max_paths=2000)
def u_coords(E):
    shape = points(E, False)
    names = [x for x in NAMES if E.choose('with ' + x[1])]
    if not names:
        return
    f = netcdf4()
    cs = coordinates(E, shape, names)
    d = variable(E, 'v', shape, cs, True)
    E.cover()
    d[0].save_data('FILE')
    read_back(E, f, names, [d])


def several(count):
    @unit(UNITS, 'list of %d: save_data and read' % count, [UD + ':UngriddedDataList.save_data'] + WRITE + READ, max_paths=2000)
    def u_list(E):
        shape = points(E, False)
        names = NAMES[:3]
        f = netcdf4()
        cs = coordinates(E, shape, names)
        ds = [variable(E, 'v%d' % j, shape, cs, True) for j in range(count)]
        E.cover()
        k = M(UD)
        lst = k.UngriddedDataList()
        list.extend(lst, [d[0] for d in ds])
        lst.save_data('FILE')
        read_back(E, f, names, ds)


several(2)
several(3)

# ---- bounded: real files ------------------------------------------------------------------------------------------------
BOUNDED_FUNCTIONS = ['UngriddedData.save_data', 'UngriddedDataList.save_data', 'write_netcdf.write', 'cis.create_data_object',
                     'cis.create_coords']
RULE = ('random ungridded data of every type and shape (1 or 2 dimensions, 1-3 variables) with and without missing values, '
        'missing_value, scale and offset attributes, any layout in memory, any calendar; saved with netCDF4 and read back with the CIS product')
LIMIT_S = 30
TYPES = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'f4', 'f8']
STDC = ['latitude', 'longitude', 'altitude', 'time', 'air_pressure']


def cases(rng, tier, scale):
    for _ in range(500 * scale):
        shape = rng.choice([[1], [3], [4], [2, 2], [3, 2]])
        n = int(np.prod(shape))
        names = ['latitude', 'longitude'] + [c for c in STDC[2:] if rng.random() < .5]
        coords = {c: [rng.randint(-300, 300) / 4. for _ in range(n)] for c in names}
        calendar = rng.choice(['', '', 'standard', '360_day', 'noleap'])
        layout = rng.choice(['C', 'C', 'F', 'mixed']) if len(shape) > 1 else 'C'
        vs = []
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            t = rng.choice(TYPES)
            lo, hi = (0, 100) if t[0] == 'u' else (-100, 100)
            vals = [rng.randint(lo, hi) if t[0] != 'f' else rng.randint(lo * 4, hi * 4) / 4. for _ in range(n)]
            v = dict(name='v%d' % j, type=t, vals=vals, units=rng.choice(['K', 'kg m-2', '1', 'nonsense unit']),
                     std=rng.choice(['', '', 'air_temperature']), long_name=rng.choice(['', 'some value']))
            if rng.random() < .6:
                v['mask'] = [rng.random() < .4 for _ in range(n)]
            m = rng.choice([None, None, 0, 120, -999.])
            if m is not None and not (t[0] == 'u' and m < 0) and not (t == 'i1' and m < -128):
                if m not in [x for x, b in zip(vals, v.get('mask', [False] * n)) if not b]:
                    v['missing_value'] = m
            if t[0] == 'f' and rng.random() < .3:
                v['misc'] = rng.choice([dict(scale_factor=.5), dict(scale_factor=2., add_offset=10.),
                                        dict(add_offset=-5.), dict(comment='hello')])
            vs.append(v)
        yield dict(shape=shape, coords=coords, vars=vs, calendar=calendar, layout=layout, how=rng.choice(['one', 'list', 'write']))


def nontrivial(c):
    return any(v.get('mask') or v.get('misc') for v in c['vars'])


def check(c):
    import os
    import shutil
    import tempfile
    import warnings
    from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList, Metadata
    from cis.data_io import write_netcdf
    from cis.data_io.products.products import cis as product
    cl = C.coord_list(dict(coords=c['coords'], shape=c['shape']))
    for k in cl:
        if c.get('calendar') and k.standard_name == 'time':
            k.units = other_time(c['calendar'])
        if c.get('layout') == 'F':
            k.data = np.asfortranarray(k.data)
    ds = UngriddedDataList()
    for v in c['vars']:
        a = C.nparr(v['vals'], v.get('mask'), dtype=v['type'], shape=c['shape'])
        if c.get('layout', 'C') != 'C':
            a = a.T.copy().T         # the same values, laid out in memory by columns
        ds.append(UngriddedData(a,
                                Metadata(name=v['name'], standard_name=v['std'], long_name=v['long_name'], units=v['units'],
                                         missing_value=v.get('missing_value'), misc=dict(v.get('misc', {}))), cl))
    if c['how'] != 'list':
        ds = UngriddedDataList(ds[:1])
    before = [(C.vals(d.data), d.metadata.units, d.standard_name, d.long_name, str(d.data.dtype)) for d in ds]
    cb = {k.standard_name: (C.vals(k.data), k.units) for k in ds[0].coords()}
    tmp = tempfile.mkdtemp()
    try:
        fn = os.path.join(tmp, 'out.nc')
        if c['how'] == 'one':
            ds[0].save_data(fn)
        elif c['how'] == 'list':
            ds.save_data(fn)
        else:
            write_netcdf.write(ds[0], fn)
        for d, (vals, units, std, long_name, dt) in zip(ds, before):
            got = product().create_data_object([fn], d.var_name)
            gv = C.vals(got.data)
            if len(gv) != len(vals) or not all(C.close(a, b, 1e-5 if dt == 'float32' else 1e-9) for a, b in zip(gv, vals)):
                return 'values of %s were %s, read back %s' % (d.var_name, vals, gv)
            if str(got.units) != str(units):
                return 'units were %s, read back %s' % (units, got.units)
            if (got.standard_name or '') != (std or ''):
                return 'standard name was %r, read back %r' % (std, got.standard_name)
            if (got.long_name or '') != (long_name or ''):
                return 'long name was %r, read back %r' % (long_name, got.long_name)
            gc = {k.standard_name: k for k in got.coords()}
            if sorted(gc) != sorted(cb):
                return 'coordinates were %s, read back %s' % (sorted(cb), sorted(gc))
            for k, (cv, cu) in cb.items():
                if not all(C.close(a, b) for a, b in zip(C.vals(gc[k].data), cv)) or gc[k].data.shape != (len(cv),):
                    return 'coordinate %s was %s, read back %s' % (k, cv, C.vals(gc[k].data))
                if gc[k].units != cu or getattr(gc[k].units, 'calendar', None) != getattr(cu, 'calendar', None):
                    return 'units of %s were %s, read back %s' % (k, cu, gc[k].units)
            if product().get_file_type_error(fn):
                return 'the file is not recognised as CIS output'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
