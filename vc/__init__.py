"""Contract-based deductive verifier for the Python subset used by cedadev/cis (see DESIGN.md)."""
import os
import sys

# z3 (and nothing else: appended, so the packages cis runs with win) comes from the pre-installed tools
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
# third party first (their bytecode caches are fine), then never read a bytecode cache of /repo: an edit of the same
# size in the same second would go unseen
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import numpy, pandas, scipy, iris, iris.cube, iris.analysis.cartography, netCDF4, matplotlib.pyplot, shapely  # noqa
    import shapely.geometry, cf_units  # noqa
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/no-bytecode'
