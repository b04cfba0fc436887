"""
Driving the real code, and the lattices of links the explorers walk.

Only public routines and documented session keys are used.  Horizon lists are read by [0] and [1]
(the two preparations use different containers for them).
"""
import itertools
import math
from collections import namedtuple

import itmref as ref
import profiles
from core import num

from itmlogic.lrprop import lrprop
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.statistics.avar import avar

# ---------------------------------------------------------------------------- links

Area = namedtuple('Area', 'fmhz h1 h2 dh k1 k2 en0 zsys eps sgm ipol')
P2P = namedtuple('P2P', 'fmhz h1 h2 en0 zsys eps sgm ipol xi z')

GROUNDS = [(15, 0.005), (4, 0.001), (25, 0.02), (81, 5.0), (81, 0.01), (13, 0.002)]
TYPICAL = Area(300.0, 10.0, 3.0, 90.0, 0, 0, 301.0, 0.0, 15, 0.005, 1)


def ground(link):
    return ref.qlrps(link.fmhz, link.zsys, link.en0, link.ipol, link.eps, link.sgm)


def base_inputs(link):
    """The session entries a caller fills in before preparing a link"""
    g = ground(link)
    return {'fmhz': link.fmhz, 'ipol': link.ipol, 'eps': link.eps, 'sgm': link.sgm,
            'ens0': link.en0, 'gma': 157e-9, 'wn': g.wn, 'ens': g.ens, 'gme': g.gme,
            'zgnd': g.zgnd, 'hg': [link.h1, link.h2], 'kwx': 0, 'lvar': 5,
            'klim': 5, 'klimx': 0, 'mdvar': 12, 'mdvarx': -1}


def area_inputs(link):
    p = base_inputs(link)
    p['dh'] = link.dh
    return p


def p2p_inputs(link):
    p = base_inputs(link)
    p['pfl'] = [len(link.z) - 1, link.xi] + list(link.z)
    return p


def prepare(link, session=None, **extra):
    """A session with this link prepared; in a reused session the caller's inputs are overwritten"""
    p = {} if session is None else session
    if isinstance(link, Area):
        p.update(area_inputs(link))
        p.update(extra)
        return qlra([link.k1, link.k2], p)
    p.update(p2p_inputs(link))
    p.update(extra)
    return qlrpfl(p)


def reference(link):
    """(path length or None, Attenuation); raises ref.Undefined"""
    g = ground(link)
    if isinstance(link, Area):
        return None, ref.Attenuation(ref.area_link((link.h1, link.h2), g, link.dh,
                                                   (link.k1, link.k2)))
    d, k = ref.profile_link((link.h1, link.h2), g, link.z, link.xi)
    return d, ref.Attenuation(k)


EPS = 3e-11
CONTINUOUS = {Area: ('fmhz', 'h1', 'h2', 'dh', 'en0', 'eps', 'sgm'),
              P2P: ('fmhz', 'h1', 'h2', 'en0', 'eps', 'sgm', 'xi')}


def neighbours(link):
    """The link itself and links indistinguishable from it but for rounding"""
    yield link
    names = CONTINUOUS[type(link)]
    for e in (EPS, -EPS):
        for n in names:
            yield link._replace(**{n: getattr(link, n) * (1 + e)})
    if isinstance(link, P2P):
        z = link.z
        span = 1e-11 * max([1.0] + [abs(v) for v in z])
        n = len(z)
        if n <= 12:
            for i in range(n):
                for s in (span, -span):
                    yield link._replace(z=z[:i] + (z[i] + s,) + z[i + 1:])
        else:
            for s in (span, -span):
                yield link._replace(z=tuple(v + (s if i % 2 else -s) for i, v in enumerate(z)))


NUDGES = [(0.0,) * 5] + list(itertools.product((-1e-9, 1e-9), repeat=5))


def allowed(link, observe):
    """
    All values observe(reference(...)) takes over the neighbours of a link: [(lo, hi), ...] per
    component, or None if the reference is undefined at one of them.
    """
    lo = hi = None
    cases = [(NUDGES[0], l) for l in neighbours(link)]
    if isinstance(link, P2P):
        cases += [(n, link) for n in NUDGES[1:]]
    try:
        for nudge, l in cases:
            ref.NUDGE[:] = nudge
            try:
                v = observe(*reference(l))
            except ref.Undefined:
                return None
            if lo is None:
                lo, hi = list(v), list(v)
            else:
                lo = [min(a, b) for a, b in zip(lo, v)]
                hi = [max(a, b) for a, b in zip(hi, v)]
    finally:
        ref.NUDGE[:] = NUDGES[0]
    return list(zip(lo, hi))


def within(observed, bounds, scales):
    for o, (lo, hi), s in zip(observed, bounds, scales):
        o = num(o)
        if o is None or o < lo - s - 1e-6 * abs(lo) or o > hi + s + 1e-6 * abs(hi):
            return False
    return True


# what is compared and how tightly: (name, absolute tolerance); relative tolerance is 1e-7
GEOMETRY = [('he0', 1e-7), ('he1', 1e-7), ('dl0', 1e-3), ('dl1', 1e-3), ('the0', 1e-9), ('the1', 1e-9)]
REGIONS = [('dlsa', 1e-3), ('dla', 1e-3), ('tha', 1e-9), ('aed', 1e-5), ('emd', 1e-11)]
LOS = [('ael', 1e-5), ('ak1', 1e-11), ('ak2', 1e-6)]
SCAT = [('dx', 1e-2), ('aes', 1e-5), ('ems', 1e-11)]


def observe_geometry(session):
    s = session
    return [s['he'][0], s['he'][1], s['dl'][0], s['dl'][1], s['the'][0], s['the'][1]]


def reference_geometry(att):
    k = att.k
    return [k.he[0], k.he[1], k.dl[0], k.dl[1], k.the[0], k.the[1]]


def observe_regions(session):
    s = session
    return [s['dlsa'], s['dla'], s['tha'], s['aed'], s['emd']]


def reference_regions(att):
    return [att.dlsa, att.dla, att.tha, att.aed, att.emd]


def mismatch(observed, expected, scales):
    """Index of the first component off by more than its tolerance, or None"""
    for i, (o, e, s) in enumerate(zip(observed, expected, scales)):
        o = num(o)
        if o is None or abs(o - e) > s + 1e-7 * abs(e):
            return i
    return None


# ---------------------------------------------------------------------------- lattices

AXES = {
    'fmhz': [20.0, 24, 30.0, 39.97, 40.0, 41.5, 50.0, 70, 88.0, 100.0, 150.0, 200, 300.0, 400.0, 573.3,
             700.0, 900, 1000.0, 1200, 1500.0, 1800, 2000.0, 2400.0, 3000, 3500.0, 5000.0, 5800, 7500.0, 10000.0,
             10017.0, 12000.0, 15000.0, 18000, 20000.0],
    'h1': [0.5, 0.75, 1.0, 1.3, 1.5, 2, 2.5, 3.0, 3.3, 4.0, 4.99, 5, 5.01, 6.0, 7.5, 8.5, 10, 12.5, 15.0,
           20.0, 25, 30.0, 40, 50.0, 75.0, 100, 143.9, 150.0, 200.0, 250, 300.0, 400, 500.0, 700.0, 850, 1000,
           1001.0, 1500.0, 2000.0, 2500, 3000],
    'dh': [0, 0.01, 0.5, 1.0, 3, 5.0, 10, 15.0, 20.0, 30, 40.0, 50.0, 60, 70.0, 80, 90.0, 102, 110, 120.0, 150.0,
           175, 200, 250.0, 300.0, 350, 400.0, 500, 600, 700.0, 800, 1000.0, 1500, 2000.0],
    'k1': [0, 1, 2],
    'en0': [250.0, 255, 260, 270, 280.0, 290, 301.0, 310, 314, 320, 330.0, 340, 350.0, 360, 370, 380, 390.0, 400.0],
    'zsys': [0.0, 1.0, 50, 100.0, 300, 500.0, 1000, 1500.0, 2000, 3000.0],
    'ground': GROUNDS + [(15, 0.001), (5, 0.0), (80, 0.0), (30, 0.05), (10, 1e-4), (40, 1.0), (70, 4.0), (2, 0.0001), (20, 0.1)],
    'ipol': [0, 1],
}
AXES['h2'] = AXES['h1']
AXES['k2'] = AXES['k1']

COARSE = {
    'fmhz': [20.0, 50.0, 100.0, 300.0, 1000.0, 3000.0, 10000.0, 20000.0],
    'h1': [0.5, 1.5, 3.3, 10.0, 50.0, 200.0, 1000.0],
    'h2': [0.5, 1.5, 3.3, 10.0, 50.0, 200.0, 1000.0],
    'dh': [0.0, 1, 10.0, 30.0, 90.0, 200.0, 500.0, 1500.0],
    'kk': [(0, 0), (1, 1), (2, 2), (0, 2), (2, 1), (1, 0)],
    'en0': [250.0, 301.0, 350, 400.0],
    'ground': [(15, 0.005), (4, 0.001), (81, 5.0)],
    'ipol': [0, 1],
}

BASES = [
    TYPICAL,
    Area(20.0, 3.3, 1.3, 102, 2, 2, 301.0, 0.0, 15, 0.001, 0),
    Area(3000.0, 50.0, 10.0, 30.0, 0, 1, 330.0, 0.0, 25, 0.02, 0),
    Area(100.0, 500.0, 2.0, 300.0, 1, 0, 370.0, 500.0, 4, 0.001, 1),
    Area(10000.0, 150.0, 100.0, 5.0, 0, 0, 314.0, 0.0, 81, 5.0, 0),
    Area(900.0, 1.5, 1.5, 0.0, 0, 0, 280.0, 0.0, 13, 0.002, 1),
    Area(15000.0, 100.0, 300.0, 1000.0, 0, 0, 301.0, 0.0, 15, 0.005, 0),
    Area(60.0, 1000.0, 700.0, 0.5, 0, 0, 390.0, 0.0, 40, 1.0, 1),
]


def setting(link, axis, value):
    if axis == 'ground':
        return link._replace(eps=value[0], sgm=value[1])
    if axis == 'kk':
        return link._replace(k1=value[0], k2=value[1])
    return link._replace(**{axis: value})


def within_two(base, axes):
    """Every link that differs from `base` in at most two axes of the dense lattice"""
    names = sorted(axes)
    yield base
    for a in names:
        for va in axes[a]:
            yield setting(base, a, va)
    for a, b in itertools.combinations(names, 2):
        for va in axes[a]:
            la = setting(base, a, va)
            for vb in axes[b]:
                yield setting(la, b, vb)


RANGES = {'fmhz': (20.0, 20000.0), 'h1': (0.5, 3000.0), 'h2': (0.5, 3000.0), 'dh': (0.01, 2000.0), 'en0': (250.0, 400.0),
          'zsys': (0.0, 3000.0), 'eps': (2.0, 81.0), 'sgm': (1e-4, 6.0)}


def stops(axis, n):
    """n values over the whole range of one continuous parameter, at equal ratios (or equal steps)"""
    lo, hi = RANGES[axis]
    if axis in ('en0', 'zsys'):
        return [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    return [lo * (hi / lo) ** (i / (n - 1)) for i in range(n)]


def sweeps(bases, n, axes=tuple(RANGES)):
    """Every base with each of its continuous parameters moved, alone, through n values"""
    for base in bases:
        for axis in axes:
            for v in stops(axis, n):
                yield base._replace(**{axis: v})


def mirrored(n):
    """Links with equal terminals, both moved together"""
    for base in BASES:
        for v in stops('h1', n):
            yield base._replace(h1=v, h2=v, k1=base.k1, k2=base.k1)


def product(axes, base=TYPICAL):
    """The full product of the axes; the first axis gives the chunks"""
    names = list(axes)
    for values in itertools.product(*(axes[n] for n in names)):
        link = base
        for n, v in zip(names, values):
            link = setting(link, n, v)
        yield link


def ladder(att, fine=False):
    """Distances through every region of a link's curve and both sides of its joins"""
    d = [0.0, 100.0, 999.0, 1e3, 2e3, 5e3, 1e4, 2e4, 5e4, 1e5, 2e5, 5e5, 1e6, 2e6, 3e6]
    l, x = att.dlsa, None
    try:
        x = att.scat().dx
    except ref.Undefined:
        pass
    d += [l * f for f in (0.01, 0.1, 0.3, 0.6, 0.9, 0.999999, 1.0, 1.000001, 1.2)]
    d += [att.dla, att.dmin]
    if x is not None and x < 9e6:
        d += [x * f for f in (0.9, 0.999999, 1.000001, 1.1, 2.0)]
    if fine == 'every':
        d += [100.0 * 10 ** (i / 300) for i in range(1360)] + [1e3 * i for i in range(1, 400)]
    elif fine:
        d += [1e3 * i for i in range(1, 31)] + [1e4 * i for i in range(4, 60, 3)]
    return sorted(set(v for v in d if v >= 0))


def signature(att):
    """Which branches of the algorithm a link takes: the abstraction that picks representatives"""
    k = att.k
    c = att.los()
    s = att.scat()
    d0 = 1.908 * k.wn * k.he[0] * k.he[1]
    if att.aed >= 0:
        d0 = min(d0, 0.5 * att.dla)
        d1 = 0.75 * d0 + 0.25 * att.dla
    else:
        d1 = max(-att.aed / att.emd, 0.25 * att.dla)
    if s.dx == 10e6:
        w = 'none'
    elif s.dx == att.dlsa:
        w = 'dlsa'
    elif abs(s.dx - att.dla - 0.3 * att.xae * math.log(47.7 * k.wn)) < 1e-6 * s.dx:
        w = 'xae'
    else:
        w = 'cross'
    return (att.aed >= 0, d0 < d1, c.ak2 > 0, c.ak1 == 0, c.ak1 == att.emd, w, k.dl[0] < k.dl[1],
            min(att.link_warning(), 4))


_REPR = None


def classify(link):
    """(branch signature, set of all branches of the algorithm the link takes)"""
    ref.TRACE = tags = set()
    try:
        att = reference(link)[1]
        sig = signature(att)
        if any(h < 5 and k > 0 for h, k in ((link.h1, link.k1), (link.h2, link.k2))):
            tags.add('low and careful')
        return sig, tags | {'%d: %s' % (i, v) for i, v in enumerate(sig)}
    finally:
        ref.TRACE = None


def representatives():
    """
    Links of a coarse lattice that between them take every combination of line-of-sight and region
    branches and every pair of branches of the algorithm that any link of the lattice takes.
    """
    global _REPR
    if _REPR is None:
        axes = dict(fmhz=[20.0, 100.0, 300.0, 3000.0, 20000.0], h1=[0.5, 1.5, 10.0, 200.0, 1000.0, 3000.0],
                    h2=[1.5, 3.3, 50.0, 1000.0, 3000.0], dh=[0.0, 10.0, 90.0, 500.0, 2000.0], kk=[(0, 0), (2, 1)],
                    en0=[250.0, 301.0, 400.0], ground=[(15, 0.005), (81, 5.0)], ipol=[0, 1])
        found, pairs = [], set()
        for link in product(axes):
            try:
                sig, tags = classify(link)
            except ref.Undefined:
                continue
            covers = set(itertools.combinations(sorted(tags), 2))
            covers.add(sig)
            if not covers <= pairs:
                pairs |= covers
                found.append((link, covers))
        # the later ones often cover what the earlier ones were taken for
        pairs, kept = set(), []
        for link, covers in reversed(found):
            if not covers <= pairs:
                pairs |= covers
                kept.append(link)
        found = kept[::-1]
        _REPR = found
    return _REPR


_PATHS = None


def path_representatives():
    """Paths of a lattice of irregular profiles that between them take every pair of branches any of them takes"""
    global _PATHS
    if _PATHS is None:
        pairs, found = set(), []
        for f, h, (e, g, p), xi, z, r in itertools.product(
                (20.0, 70.0, 900.0, 9000.0), ((1.0, 1100.0), (2.0, 30.0), (4.1, 4.2), (64.0, 160.0), (150.0, 0.6), (2600.0, 2900.0)),
                ((15, 0.005, 1), (80, 0.0, 0)), (40, 200.0, 1500.0, 15000.0, 90000.0), profiles.IRREGULAR[2::3], (0.5, 20.0, 150.0, 900.0)):
            link = P2P(f, h[0], h[1], 300.0, 0.0, e, g, p, xi, tuple(v * r for v in z))
            ref.TRACE = tags = set()
            try:
                d, att = reference(link)
                sig = signature(att)
                tags |= {'%d: %s' % (i, v) for i, v in enumerate(sig)}
                tags |= {'beyond %s %s' % (d > att.dlsa, d > att.scat().dx), 'negative %s' % (att.aed + att.emd * d < 0)}
            except (ref.Undefined, ZeroDivisionError, ValueError, OverflowError):
                continue
            finally:
                ref.TRACE = None
            covers = set(itertools.combinations(sorted(tags), 2)) | {sig}
            if not covers <= pairs:
                pairs |= covers
                found.append((link, covers))
        pairs, kept = set(), []
        for link, covers in reversed(found):
            if not covers <= pairs:
                pairs |= covers
                kept.append(link)
        _PATHS = kept[::-1]
    return _PATHS


def encode(link):
    return ['area' if isinstance(link, Area) else 'p2p'] + list(link)


def decode(values):
    kind = Area if values[0] == 'area' else P2P
    values = list(values[1:])
    if kind is P2P:
        values[-1] = tuple(values[-1])
    return kind(*values)
