"""Builders of real cis objects from JSON-able cases, generators and comparison helpers for the bounded stand-ins."""
import datetime
import math
import random
import numpy as np

STD = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']      # order of the standard coordinates
UNITS = dict(latitude='degrees', longitude='degrees', altitude='m', air_pressure='Pa', time=None)
AXIS = dict(latitude='Y', longitude='X', altitude='Z', air_pressure='P', time='T')


def tunit():
    from cis.time_util import cis_standard_time_unit
    return cis_standard_time_unit


def nparr(v, mask=None, dtype=float, shape=None):
    a = np.array(v, dtype=dtype)
    if shape is not None:
        a = a.reshape(shape)
    if mask is not None:
        m = np.array(mask, dtype=bool).reshape(a.shape)
        a = np.ma.array(a, mask=m)
    return a


def coord(name, v, mask=None, shape=None, dtype=float):
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata
    u = UNITS.get(name, '1')
    md = Metadata(name=name[:3], standard_name=name if name in STD else '', long_name='' if name in STD else name,
                  units=tunit() if u is None else u)
    return Coord(nparr(v, mask, shape=shape, dtype=dtype), md, AXIS.get(name, ''))


def coord_list(d):
    from cis.data_io.Coord import CoordList
    cm = d.get('cmask', {})
    return CoordList([coord(n, v, cm.get(n), d.get('shape')) for n, v in d['coords'].items()])


def ung(d):
    """UngriddedData from {'coords': {name: values}, 'cmask': {name: mask}, 'vals', 'mask', 'shape', 'name'}"""
    from cis.data_io.ungridded_data import UngriddedData, Metadata
    return UngriddedData(nparr(d['vals'], d.get('mask'), shape=d.get('shape'), dtype=d.get('dtype', float)),
                         Metadata(name=d.get('name', 'v'), long_name=d.get('long_name', 'some value'),
                                  units=d.get('units', 'K'), missing_value=d.get('missing_value', -999.)),
                         coord_list(d))


def ungc(d):
    from cis.data_io.ungridded_data import UngriddedCoordinates
    return UngriddedCoordinates(coord_list(d))


def dimcoord(c):
    from iris.coords import DimCoord, AuxCoord
    kw = dict(units=c.get('units') or (tunit() if c['name'] == 'time' else UNITS.get(c['name'], '1')))
    if c['name'] in STD:
        kw['standard_name'] = c['name']
        kw['var_name'] = c['name'][:3]
    else:
        kw['long_name'] = c['name']
        kw['var_name'] = c['name']
    if c.get('bounds') is not None:
        kw['bounds'] = np.array(c['bounds'], dtype=float)
    p = np.array(c['points'], dtype=float)
    if c.get('aux'):
        return AuxCoord(p, **kw)
    r = DimCoord(p, **kw)
    if c.get('circular'):
        r.circular = True
    if c.get('guess') and r.bounds is None and p.size > 1:
        r.guess_bounds()
    return r


def cube(d):
    """GriddedData from {'dims': [{'name','points','bounds'?,'circular'?}], 'data', 'mask'?, 'aux': [{.., 'dims'}]}"""
    from cis.data_io.gridded_data import GriddedData
    shape = [len(c['points']) for c in d['dims']]
    data = nparr(d['data'], d.get('mask'), shape=shape, dtype=d.get('dtype', float))
    g = GriddedData(data, long_name=d.get('long_name', 'some value'), var_name=d.get('name', 'v'), units=d.get('units', 'K'),
                    dim_coords_and_dims=[(dimcoord(c), i) for i, c in enumerate(d['dims']) if not c.get('anonymous')])
    for c in d.get('aux', []):
        g.add_aux_coord(dimcoord(dict(c, aux=True)), tuple(c['dims']))
    return g


# ---- comparison -----------------------------------------------------------------------------------------------------
def snap(x):
    """deep, comparable snapshot of data or coordinates"""
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        return ('ma', x.shape, [None if b else fl(v) for v, b in zip(np.ma.getdata(x).ravel().tolist(), m.ravel())])
    if isinstance(x, np.ndarray):
        return ('ma', x.shape, [fl(v) for v in x.ravel().tolist()])
    if isinstance(x, (list, tuple)):
        return [snap(e) for e in x]
    import iris.cube
    if isinstance(x, iris.cube.Cube):
        return ('cube', snap(x.data), [(c.name(), snap(c.points), snap(c.bounds), x.coord_dims(c)) for c in x.coords()])
    if hasattr(x, '_coords'):
        return ('ug', snap(x._data) if hasattr(x, '_data') else None,
                [(c.name(), snap(np.asanyarray(c.data))) for c in x._coords])
    if hasattr(x, 'points'):
        return ('coord', snap(np.asanyarray(x.points)))
    return str(x)


def fl(v):
    if isinstance(v, float) and math.isnan(v):
        return 'nan'
    return v


def ismissing(v):
    if v is np.ma.masked or v is None:
        return True
    try:
        return bool(np.isnan(v))
    except TypeError:
        return False


def close(a, b, tol=1e-9):
    if ismissing(a) or ismissing(b):
        return ismissing(a) and ismissing(b)
    a, b = float(a), float(b)
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def vals(a):
    """list of floats, None where missing (masked)"""
    a = np.ma.asanyarray(a)
    m = np.ma.getmaskarray(a)
    return [None if b else v for v, b in zip(np.ma.getdata(a).ravel().tolist(), m.ravel())]


def same_vals(a, b, tol=1e-9):
    return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))


def mod360(x):
    return x - 360. * math.floor(x / 360.)


def same_place(a, b, tol=1e-6):
    d = abs(mod360(a - b))
    return min(d, 360 - d) < tol


# ---- generators -----------------------------------------------------------------------------------------------------
def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def grid_points(rng, lo, hi, n, regular=None):
    """n ascending points in [lo, hi], exactly representable steps"""
    if regular is None:
        regular = rng.random() < .6
    if n == 1:
        return [q(rng.uniform(lo, hi))]
    if regular:
        step = math.floor((hi - lo) / n * 4) / 4. or (hi - lo) / float(n)
        start = lo + rng.choice([0, step / 2.])
        return [start + i * step for i in range(n)]
    out = set()
    while len(out) < n:
        out.add(q(rng.uniform(lo, hi)))
    return sorted(out)


def q(x, s=8.):
    """quantise to a binary fraction so that arithmetic in the oracle is exact"""
    return round(x * s) / s


TINY = 2. ** -20


def maybe_mask(rng, n, p=.5, frac=.3):
    if rng.random() > p:
        return None
    if rng.random() < .08:
        return [True] * n
    return [rng.random() < frac for _ in range(n)]


def rand_vals(rng, n):
    k = rng.random()
    if k < .2:
        return [float(i + 1) for i in range(n)]
    return [q(rng.uniform(-50, 50)) for _ in range(n)]
