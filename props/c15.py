"""C15 raw file values become physical values"""
import numpy as np
from vc.api import *
from props import common as C
from props.c18 import pick

ID = 'C15'
LEVEL = 'proof'
PROPERTY = dict(
    title='Raw values of files become physical values, and missing ones missing',
    statement='Reading a variable from a netCDF or HDF file gives scale * raw + offset (MODIS: scale * (raw - offset); CALIOP: '
              'raw / scale + offset; CloudSat: (raw - offset) / scale) for every raw value, whatever its type (integers too) '
              'and whichever of scale and offset are given. A value is missing if and only if the raw value is the fill or '
              'missing value of the variable or lies outside valid_range (for netCDF also valid_min and valid_max; for '
              'CloudSat also missing with missop; CALIOP data without fill value have that of their number format); values at these limits are valid. The limits apply to the raw values, '
              'not the scaled ones. When a variable is spread over several files, values and missing flags are those of the '
              'files one after the other, in the order of the files.',
    over=['inputs'],
    text='any raw values, any combination of fill value, valid limits, scale and offset, any number of files',
    why='The tests read a few files which use only some combinations of these attributes and of types.',
    files=['cis/data_io/netcdf.py', 'cis/data_io/hdf_sd.py', 'cis/data_io/hdf_vd.py', 'cis/data_io/hdf.py', 'cis/utils.py',
           'cis/data_io/ungridded_data.py', 'cis/data_io/products/MODIS.py', 'cis/data_io/products/caliop.py',
           'cis/data_io/products/cloudsat.py'],
    mechanism=[('netCDF variables', 'cis/data_io/netcdf.py: get_data, apply_offset_and_scaling'),
               ('HDF', 'cis/data_io/hdf_sd.py, hdf_vd.py: get_data'),
               ('satellite products', 'cis/data_io/products/MODIS.py, caliop.py, cloudsat.py'),
               ('joining files', 'cis/utils.py: concatenate; cis/data_io/ungridded_data.py: LazyData.data')])
UNITS = []
TECHNIQUE = 'deductive: VC generation over the real source (z3/cvc5), file libraries by contract; netCDF files bounded'
NOTE = ('The reading functions are proved for all raw values and attribute combinations against contracts of the netCDF4 and '
        'pyhdf variables; real netCDF files are read back bounded.')
ASSUMPTIONS = ['netCDF4: with auto mask and without auto scale, var[:] gives the stored values, missing where equal to '
               '_FillValue / missing_value (trusted)', 'pyhdf: SDS.get() and attributes() give the stored values (trusted)',
               'valid_min and valid_max are representable in the type of the variable and valid_range is ascending',
               'reals instead of floating point and of machine integers']
NC = 'cis.data_io.netcdf'
SD = 'cis.data_io.hdf_sd'
VD = 'cis.data_io.hdf_vd'
MO = 'cis.data_io.products.MODIS'
CA = 'cis.data_io.products.caliop'
CS = 'cis.data_io.products.cloudsat'
UD = 'cis.data_io.ungridded_data'
UT = 'cis.utils'


def raw_values(E):
    """a vector of raw values, of either kind"""
    n = Int('n')
    E.assume(n >= 0)
    return n, fresh_array('raw', (n,), 'i' if E.choose('integers') else 'r')


def attribute(E, name, kind='r'):
    """an attribute which may not be there"""
    if E.choose('has ' + name):
        return (Int if kind == 'i' else Real)(name)
    return None


def physical(E, got, n, miss, value):
    """value(i) -> term, miss(i) -> formula"""
    got = asarr(got)
    E.prove('one value for every raw value', z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == iterm(n)))
    i = Int('i')
    E.restrict(in_range(i, n))
    m = zbool(got.mask_at(i)) if got.is_masked else z3.BoolVal(False)
    E.prove('missing if and only if fill, missing or outside the valid limits', m == zbool(miss(i)))
    v = lift(got.at(i))
    E.prove('scaled value', implies(not_(miss(i)), Bool(v.real() == lift(value(i)).real())))


class Var(object):
    """contract of a netCDF4 variable"""
    _vc_symbolic = True

    def __init__(self, raw, fill):
        self._raw, self._fill = raw, fill
        self._automask = self._autoscale = True
        self._name = 'x'
        self.dtype = raw.dtype

    def set_auto_mask(self, m):
        self._automask = m

    def set_auto_scale(self, m):
        self._autoscale = m

    def set_auto_maskandscale(self, m):
        self._automask = self._autoscale = m

    def __getitem__(self, k):
        use('netCDF4.Variable[...]: the stored values, missing where equal to the fill or missing value')
        expect(k == slice(None) or k is Ellipsis, 'the whole variable is read')
        if self._autoscale and (hasattr(self, 'scale_factor') or hasattr(self, 'add_offset')):
            raise Unsupported('scaling by netCDF4')
        raw, fill = self._raw, self._fill
        if not self._automask:
            return raw.copy()
        return SArr(raw.shape, lambda i: raw.at(*i), raw.kind, lambda i: Bool(fill(i[0])), True)


@unit(UNITS, 'netcdf.get_data', [NC + ':get_data', NC + ':apply_offset_and_scaling'], max_paths=2000)
def u_nc(E):
    n, raw = raw_values(E)
    F = z3.Function('is_fill', z3.IntSort(), z3.BoolSort())
    k = raw.kind
    var = Var(raw, lambda i: F(term_int(i)))
    vmax, vmin = attribute(E, 'valid_max', k), attribute(E, 'valid_min', k)
    lo = attribute(E, 'range_from', k)
    hi = None if lo is None else (Int if k == 'i' else Real)('range_to')
    if lo is not None:
        E.assume(lo <= hi)
        var.valid_range = (lo, hi)
    if vmax is not None:
        var.valid_max = vmax
    if vmin is not None:
        var.valid_min = vmin
    sc, of = attribute(E, 'scale_factor'), attribute(E, 'add_offset')
    if sc is not None:
        var.scale_factor = sc
    if of is not None:
        var.add_offset = of
    E.cover()
    got = M(NC).get_data(var)

    def miss(i):
        r = raw.at(i)
        cs = [F(i.e)]
        if vmax is not None:
            cs.append(zbool(r > vmax))
        if vmin is not None:
            cs.append(zbool(r < vmin))
        if lo is not None:
            cs += [zbool(r < lo), zbool(r > hi)]
        return Bool(z3.Or(*cs))
    physical(E, got, n, miss, lambda i: lin(raw.at(i), sc, of))


def term_int(i):
    return i if z3.is_expr(i) else iterm(i)


def lin(r, sc, of):
    v = lift(r).real()
    if sc is not None:
        v = v * sc.real()
    if of is not None:
        v = v + of.real()
    return Num(v)


class Sds(object):
    """contract of an SD dataset"""
    _vc_symbolic = True
    _count = None

    def __init__(self, raw, attrs):
        self.raw, self.attrs = raw, attrs

    def get(self):
        use('SDS.get() and attributes(): the stored values and attributes')
        return self.raw.copy()

    def attributes(self):
        return dict(self.attrs)

    def info(self):
        return ('x', 1, [1], 5, len(self.attrs))


def sds(E, fill='_FillValue', scale='scale_factor', offset='add_offset', ranged=True):
    n, raw = raw_values(E)
    k = raw.kind
    a = {}
    f = attribute(E, fill, k)
    if f is not None:
        a[fill] = f
    lo = hi = None
    if ranged:
        lo = attribute(E, 'range_from', k)
        if lo is not None:
            hi = (Int if k == 'i' else Real)('range_to')
            E.assume(lo <= hi)
            a['valid_range'] = (lo, hi)
    sc, of = attribute(E, 'scale'), attribute(E, 'offset')
    if sc is not None:
        E.assume(sc != 0)
        a[scale] = sc
    if of is not None:
        a[offset] = of

    def miss(i):
        r = raw.at(i)
        cs = []
        if f is not None:
            cs.append(zbool(r == f))
        if lo is not None:
            cs += [zbool(r < lo), zbool(r > hi)]
        return Bool(z3.Or(*cs)) if cs else Bool(z3.BoolVal(False))
    return n, raw, a, sc, of, miss


@unit(UNITS, 'hdf_sd.get_data', [SD + ':get_data', NC + ':apply_offset_and_scaling', UT + ':create_masked_array_for_missing_data'],
      max_paths=2000)
def u_sd(E):
    n, raw, a, sc, of, miss = sds(E)
    E.cover()
    physical(E, M(SD).get_data(Sds(raw, a)), n, miss, lambda i: lin(raw.at(i), sc, of))


@unit(UNITS, 'MODIS data', [MO + ':_get_MODIS_SDS_data', MO + ':_apply_scaling_factor_MODIS',
                            UT + ':create_masked_array_for_missing_data'], max_paths=2000)
def u_modis(E):
    n, raw, a, sc, of, miss = sds(E)
    E.cover()
    physical(E, M(MO)._get_MODIS_SDS_data(Sds(raw, a)), n, miss, lambda i: Num(
        (lift(raw.at(i)).real() - (of.real() if of is not None else 0)) * (sc.real() if sc is not None else 1)))


# fill values of the CALIOP number formats, for data sets which do not say
FORMATS = {'Float_32': -9999.0, 'Int_16': -9999, 'Int_32': -9999, 'UInt_8': -127}


@unit(UNITS, 'CALIOP data', [CA + ':abstract_Caliop._get_calipso_data', CA + ':abstract_Caliop._apply_scaling_factor_CALIPSO',
                             UT + ':create_masked_array_for_missing_data'], max_paths=2000)
def u_caliop(E):
    fill = 'fillvalue' if E.choose('fillvalue') else '_FillValue'
    n, raw, a, sc, of, given = sds(E, fill=fill, ranged=False)
    miss = given
    kinds = sorted(f for f in FORMATS if ('Float' in f) == (raw.kind == 'r')) + ['Int_8']
    j = pick(E, 'format', len(kinds) + 1)
    if j < len(kinds):
        a['format'] = kinds[j]
        if kinds[j] in FORMATS and 'fillvalue' not in a:
            miss = lambda i: Bool(zbool(raw.at(i) == FORMATS[kinds[j]]))
    E.cover()
    k = M(CA)
    obj = Duck(k.abstract_Caliop)
    physical(E, k.abstract_Caliop._get_calipso_data(obj, Sds(raw, a)), n, miss, lambda i: Num(
        lift(raw.at(i)).real() / (sc.real() if sc is not None else 1) + (of.real() if of is not None else 0)))


OPS = {'<': lambda v, x: v < x, '<=': lambda v, x: v <= x, '==': lambda v, x: v == x, '>': lambda v, x: v > x}


@unit(UNITS, 'CloudSat SD data', [CS + ':CloudSat._get_cloudsat_sds_data', CS + ':CloudSat._apply_scaling_factor_CLOUDSAT',
                                  UT + ':create_masked_array_for_missing_data'], max_paths=3000)
def u_cloudsat(E):
    n, raw, a, sc, of, miss = sds(E, scale='factor', offset='offset')
    x = attribute(E, 'missing', raw.kind)
    op = None
    if x is not None:
        a['missing'] = x
        for o in sorted(OPS):
            if E.choose('missop ' + o):
                op = a['missop'] = o
                break
    E.cover()
    k = M(CS)
    m = (lambda i: Bool(or_(miss(i), OPS[op](raw.at(i), x)))) if op else miss
    physical(E, k.CloudSat._get_cloudsat_sds_data(Duck(k.CloudSat), Sds(raw, a)), n, m, lambda i: Num(
        (lift(raw.at(i)).real() - (of.real() if of is not None else 0)) / (sc.real() if sc is not None else 1)))


class Records(object):
    """what vd.read() gives: one-element records"""
    _vc_symbolic = True

    def __init__(self, raw):
        self.raw = raw

    def _vc_array(self):
        raw = self.raw
        return SArr((raw.shape[0], 1), lambda i: raw.at(i[0]), raw.kind)


class Hdf(object):
    """contract of pyhdf's HDF, VS and VD"""
    _vc_symbolic = True

    def __init__(self, raw, attrs):
        self.raw, self.attrs, self.open = raw, attrs, 0

    def __call__(self, filename):
        expect(filename == 'FILE')
        return self

    def vstart(self):
        return self

    def attach(self, variable):
        expect(variable == 'VARIABLE')
        use('VD.read(nRec=...): the stored values; attrinfo(): the attributes')
        return self

    def inquire(self):
        return (self.raw.shape[0],)

    def read(self, nRec=1):
        eng.CUR.prove('all records are read', lift(nRec) == lift(self.raw.shape[0]))
        return Records(self.raw)

    def attrinfo(self):
        return {k: (0, 1, v) for k, v in self.attrs.items()}

    def detach(self):
        pass
    end = close = detach


def vds(E, fill, scale=None, offset=None, ranged=False):
    n, raw, a, sc, of, miss = sds(E, fill=fill, scale=scale, offset=offset, ranged=ranged)
    k = M(VD)
    patch(k, 'HDF', Hdf(raw, a))
    return n, raw, sc, of, miss, k.VDS('FILE', 'VARIABLE'), k


@unit(UNITS, 'hdf_vd.get_data', [VD + ':get_data', VD + ':_get_attribute_value', UT + ':create_masked_array_for_missing_values'],
      max_paths=2000)
def u_vd(E):
    n, raw, sc, of, miss, v, k = vds(E, 'missing', 'unused', 'unused2')
    E.cover()
    physical(E, k.get_data(v), n, miss, lambda i: raw.at(i))


@unit(UNITS, 'CloudSat VD data', [CS + ':CloudSat._get_cloudsat_vds_data', CS + ':CloudSat._apply_scaling_factor_CLOUDSAT',
                                  UT + ':create_masked_array_for_missing_data', VD + ':_get_attribute_value'], max_paths=3000)
def u_cloudsat_vd(E):
    n, raw, sc, of, miss, v, _ = vds(E, 'missing', 'factor', 'offset', True)
    E.cover()
    k = M(CS)
    physical(E, k.CloudSat._get_cloudsat_vds_data(Duck(k.CloudSat), v), n, miss, lambda i: Num(
        (lift(raw.at(i)).real() - (of.real() if of is not None else 0)) / (sc.real() if sc is not None else 1)))


def parts(E, count):
    """arrays of any length, masked or not"""
    out = []
    for j in range(count):
        m = Int('n%d' % j)
        E.assume(m >= 0)
        masked = E.choose('masked %d' % j)
        out.append(fresh_array('part%d' % j, (m,), 'r', masked=masked))
    return out


def one_after_the_other(E, got, ps):
    got = asarr(got)
    total = z3.Sum([iterm(p.shape[0]) for p in ps])
    E.prove('as many values as there are in the files', z3.And(z3.BoolVal(got.ndim == 1), iterm(got.shape[0]) == total))
    off = z3.IntVal(0)
    for j, p in enumerate(ps):
        i = Int('i%d' % j)
        pos = off + i.e
        gm = zbool(got.mask_at(pos)) if got.is_masked else z3.BoolVal(False)
        pm = zbool(p.mask_at(i)) if p.is_masked else z3.BoolVal(False)
        E.prove('missing flags of file %d' % j, implies(in_range(i, p.shape[0]), Bool(gm == pm)))
        E.prove('values of file %d' % j, implies(in_range(i, p.shape[0]), same(got.at(pos), p.at(i))))
        off = off + iterm(p.shape[0])


def joining(count):
    """finite: the fold over the list of files is unrolled for the number of files; the lengths are arbitrary"""
    @unit(UNITS, 'concatenate [%d]' % count, [UT + ':concatenate'])
    def u(E):
        ps = parts(E, count)
        E.cover()
        one_after_the_other(E, M(UT).concatenate(list(ps)), ps)

    @unit(UNITS, 'LazyData.data [%d]' % count, [UD + ':LazyData.data', UD + ':LazyData.__init__', UT + ':listify'])
    def u2(E):
        ps = parts(E, count)
        reads = []

        def read(h):
            reads.append(h)
            return ps[h]
        k = M(UD)
        md = Duck(k.Metadata, shape=None)
        d = k.LazyData(list(range(count)), md, read)
        E.prove('nothing is read before it is needed', z3.BoolVal(not reads))
        E.cover()
        one_after_the_other(E, d.data, ps)
        d.data
        E.prove('every file is read once, in order', z3.BoolVal(reads == list(range(count))))


for _c in (1, 2, 3):
    joining(_c)


# ---- bounded: real files ------------------------------------------------------------------------------------------------
BOUNDED_FUNCTIONS = ['netcdf.read', 'netcdf.get_data', 'hdf_sd.get_data', '_get_MODIS_SDS_data', '_get_calipso_data',
                     'CloudSat._get_cloudsat_sds_data', 'LazyData.data', 'hdf.read_data']
RULE = ('random raw values of all types of integers and floats (with fill values, values at and next to the limits, NaN), random '
        'combinations of _FillValue, missing_value, valid_min, valid_max, valid_range, scale and offset, 1-3 files; netCDF '
        'files are written with netCDF4 and read back, HDF datasets are stand-ins for pyhdf (which is not installed)')
LIMIT_S = 30
TYPES = ['i1', 'i2', 'i4', 'u1', 'u2', 'f4', 'f8']


def cases(rng, tier, scale):
    for _ in range(500 * scale):
        kind = rng.choice(['nc', 'nc', 'nc', 'sd', 'modis', 'caliop', 'cloudsat'])
        t = rng.choice(TYPES)
        lo, hi = (0, 60) if t[0] == 'u' else (-40, 60)
        nfiles = rng.choice([1, 1, 2, 3])
        ndim = rng.choice([1, 1, 2])
        a = {}
        num = lambda: rng.randint(lo, hi) if t[0] != 'f' else rng.randint(lo * 4, hi * 4) / 4.
        if rng.random() < .5:
            a['fill'] = num()
        if kind == 'nc' and rng.random() < .3:
            a['missing_value'] = num()
        if kind == 'nc' and rng.random() < .4:
            a['valid_max'] = num()
        if kind == 'nc' and rng.random() < .4:
            a['valid_min'] = num()
        if rng.random() < .4:
            a['valid_range'] = sorted([num(), num()])
        if rng.random() < .5:
            a['scale'] = rng.choice([1.0, 0.5, 2.0, -0.25, 0.01])
        if rng.random() < .5:
            a['offset'] = rng.choice([0.0, 1.0, -3.5, 273.15])
        if kind == 'caliop' and rng.random() < .4:
            a['format'] = {'f4': 'Float_32', 'i2': 'Int_16', 'i4': 'Int_32', 'u1': 'UInt_8'}.get(t, 'Float_64')
        if kind == 'cloudsat' and rng.random() < .5:
            a['missing'], a['missop'] = num(), rng.choice(sorted(OPS))
        lims = [v for k in ('fill', 'missing_value', 'valid_max', 'valid_min', 'missing') for v in [a.get(k)] if v is not None] + \
            list(a.get('valid_range', [])) + ([-9999] * 2 if a.get('format') in ('Float_32', 'Int_16', 'Int_32') else [])
        files = []
        for _f in range(nfiles):
            m = rng.choice([1, 2, 5])
            files.append([[(rng.choice(lims) + rng.choice([0, 0, 1, -1]) if lims and rng.random() < .5 else num())
                           for _ in range(2 if ndim == 2 else 1)] for _ in range(m)])
        if t[0] == 'u':
            files = [[[max(0, v) for v in r] for r in f] for f in files]
        yield dict(kind=kind, type=t, attrs=a, files=files, ndim=ndim)


def nontrivial(c):
    return len(c['attrs']) >= 2


def expected_of(c, raw):
    a, f64 = c['attrs'], np.asarray(raw, dtype='f8')
    miss = np.zeros(f64.shape, bool)
    for k in ('fill', 'missing_value'):
        if k in a:
            miss |= f64 == a[k]
    if a.get('format') in FORMATS:
        miss = f64 == FORMATS[a['format']]
    if 'valid_max' in a:
        miss |= f64 > a['valid_max']
    if 'valid_min' in a:
        miss |= f64 < a['valid_min']
    if 'valid_range' in a:
        miss |= (f64 < a['valid_range'][0]) | (f64 > a['valid_range'][1])
    if 'missop' in a:
        miss |= OPS[a['missop']](f64, a['missing'])
    sc, of = a.get('scale', 1.0), a.get('offset', 0.0)
    v = {'nc': f64 * sc + of, 'sd': f64 * sc + of, 'modis': (f64 - of) * sc, 'caliop': f64 / sc + of,
         'cloudsat': (f64 - of) / sc}[c['kind']]
    return v, miss


def check(c):
    import os
    import shutil
    import tempfile
    from cis.data_io.ungridded_data import LazyData, Metadata
    a, dt = c['attrs'], np.dtype(c['type'])
    arrays = [np.array(f, dtype=dt) for f in c['files']]
    if c['ndim'] == 1:
        arrays = [x[:, 0] for x in arrays]
    exp = [expected_of(c, x) for x in arrays]
    wv, wm = np.concatenate([e[0] for e in exp]), np.concatenate([e[1] for e in exp])
    tmp = None
    try:
        if c['kind'] == 'nc':
            import netCDF4
            from cis.data_io import netcdf
            tmp = tempfile.mkdtemp()
            handles = []
            for j, x in enumerate(arrays):
                fn = os.path.join(tmp, '%d.nc' % j)
                n = netCDF4.Dataset(fn, 'w')
                n.createDimension('a', x.shape[0])
                n.createDimension('b', 2)
                v = n.createVariable('x', c['type'], ('a', 'b')[:x.ndim], fill_value=a.get('fill'))
                v.set_auto_maskandscale(False)
                for k in ('missing_value', 'valid_max', 'valid_min'):
                    if k in a:
                        setattr(v, k, dt.type(a[k]))
                if 'valid_range' in a:
                    v.valid_range = np.array(a['valid_range'], dt)
                if 'scale' in a:
                    v.scale_factor = a['scale']
                if 'offset' in a:
                    v.add_offset = a['offset']
                v[:] = x
                n.close()
                handles.append(netcdf.read(fn, ['x'])['x'])
            d = LazyData(handles, Metadata('x'))
        else:
            names = dict(fill='_FillValue', format='format', scale='scale_factor', offset='add_offset', valid_range='valid_range')
            if c['kind'] == 'cloudsat':
                names.update(scale='factor', offset='offset', missing='missing', missop='missop')
            at = {names[k]: v for k, v in a.items() if k in names}
            if c['kind'] == 'caliop' and 'valid_range' in at:
                at['valid_range'] = '...'.join(str(v) for v in at['valid_range'])

            class HDF_SDS(object):
                _count = None

                def __init__(self, x):
                    self.x = x

                def get(self):
                    return self.x.copy()

                def attributes(self):
                    return dict(at)

                def info(self):
                    return ('x',)
            from cis.data_io.products import MODIS, caliop, cloudsat
            fn = {'sd': None, 'modis': MODIS._get_MODIS_SDS_data, 'caliop': caliop.Caliop_L1()._get_calipso_data,
                  'cloudsat': cloudsat.CloudSat()._get_cloudsat_sds_data}[c['kind']]
            hs = [HDF_SDS(x) for x in arrays]
            if fn is not None and len(hs) > 1 and len(c['files'][0]) > 1:
                from cis.data_io import hdf
                d = LazyData(hdf.read_data(hs, fn), Metadata('x'))
            else:
                d = LazyData(hs, Metadata('x'), fn)
        got = d.data
        if got.shape != wv.shape:
            return 'shape %s instead of %s' % (got.shape, wv.shape)
        gm = np.ma.getmaskarray(got)
        if not np.array_equal(gm, wm):
            return 'missing flags %s instead of %s' % (gm.tolist(), wm.tolist())
        gv = np.ma.getdata(got).astype('f8')
        tol = 1e-4 if c['type'] == 'f4' else 1e-9
        bad = ~(np.abs(gv - wv) <= tol * (1 + np.abs(wv))) & ~wm
        if bad.any():
            return 'values %s instead of %s' % (gv[bad].tolist(), wv[bad].tolist())
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
