"""Loading the code under test.  A "simulated process" is a fresh import of the whole package."""
import importlib
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'safe_autonomy_dynamics'

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]


def fresh(f16=False, spacecraft=True):
    """Import the package from scratch and return its public names; earlier imports keep their own module state."""
    purge()
    ns = types.SimpleNamespace()
    if spacecraft:
        bm = importlib.import_module(PKG + '.base_models')
        assert bm.__file__.startswith(REPO + '/'), bm.__file__
        ns.base = bm
        ns.cwh = importlib.import_module(PKG + '.cwh')
        ns.point = importlib.import_module(PKG + '.cwh.point_model')
        ns.rot = importlib.import_module(PKG + '.cwh.rotational_model')
        ns.six = importlib.import_module(PKG + '.cwh.sixdof_model')
        ns.sun = importlib.import_module(PKG + '.cwh.sun_model')
        ns.dub = importlib.import_module(PKG + '.dubins')
        ns.integ = importlib.import_module(PKG + '.integrators')
    if f16:
        ns.cf = importlib.import_module(PKG + '.external.aerobench.controlled_f16')
        ns.util = importlib.import_module(PKG + '.external.aerobench.util')
        ns.llc = importlib.import_module(PKG + '.external.aerobench.lowlevel.low_level_controller')
        ns.sub = importlib.import_module(PKG + '.external.aerobench.lowlevel.subf16_model')
        ns.clf = importlib.import_module(PKG + '.external.aerobench.lowlevel.clf16')
        ns.conf = importlib.import_module(PKG + '.external.aerobench.lowlevel.conf16')
        assert ns.util.__file__.startswith(REPO + '/'), ns.util.__file__
    purge()
    return ns
