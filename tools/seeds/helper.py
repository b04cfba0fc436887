"""Small helpers for the demonstrations."""
import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.path.insert(0, os.path.join(os.getcwd(), 'scripts'))
from itmlogic.preparatory_subroutines.qlrps import qlrps
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar


def session(prop=None, f=100., hg=(10., 3.), dh=90., n0=301., zsys=0., eps=15., sgm=0.005, ipol=0,
            mode=3, climate=5):
    prop = {} if prop is None else prop
    prop['wn'], prop['gme'], prop['ens'], prop['zgnd'] = qlrps(f, zsys, n0, ipol, eps, sgm)
    prop['hg'] = list(hg)
    prop['dh'] = dh
    prop['kwx'] = 0
    prop['lvar'] = 5
    prop['mdvarx'] = mode
    prop['klimx'] = climate
    prop['klim'] = climate if climate > 0 else prop.get('klim', 5)
    prop['mdvar'] = mode if mode >= 0 else prop.get('mdvar', 0)
    return prop


def area(prop=None, kst=(0, 0), **kw):
    return qlra(list(kst), session(prop, **kw))


def p2p(pfl, prop=None, **kw):
    prop = session(prop, **kw)
    prop['pfl'] = list(pfl)
    return qlrpfl(prop)


def at(d, prop):
    prop['lvar'] = max(prop['lvar'], 1)
    return lrprop(d, prop)


def expect(ok, message):
    if not ok:
        print('FAILS: ' + message)
        sys.exit(1)


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol
