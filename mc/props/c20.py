"""
C20: links without a severe warning always get finite, real results.

No oracle for the values: the real code runs over the widest lattice, and only where the documented
limits (itmref: link_warning, distance_warning) or the session's own marker say the link is severe may
a result be missing.
"""
import itertools
import math

import core
import itmref as ref
import links
import profiles
from links import Area, P2P, avar, lrprop
from props import c02, c13

PID = 'C20'
QUICK_GRADE = 'medium'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'links and profiles from the stated lattices, which contain every documented limit itself',
    'a call that raises counts only if the documented limits put the link below warning 3',
]
Z = [(0.0, 0.0, 0.0), (-3.0902, -3.0902, -3.0902), (3.0902, 3.0902, 3.0902), (2.3263, -1.2816, 0.5)]
MODES = [0, 1, 2, 3, 10, 11, 12, 13, 23, 32]
KLIMS = [1, 2, 3, 4, 5, 6, 7]


class Geometry:
    """Just enough of the reference to know the documented warnings"""

    def __init__(self, link):
        g = links.ground(link)
        hg = (link.h1, link.h2)
        if isinstance(link, Area):
            self.d = None
            self.k = ref.area_link(hg, g, link.dh, (link.k1, link.k2))
        else:
            self.d, self.k = ref.profile_link(hg, g, link.z, link.xi)
        self.dls = tuple(math.sqrt(2 * h / self.k.gme) for h in self.k.he)
        self.dlsa = sum(self.dls)
        self.dmin = abs(self.k.he[0] - self.k.he[1]) / 0.2

    link_warning = ref.Attenuation.link_warning
    distance_warning = ref.Attenuation.distance_warning


def mild(link, d):
    """Do the documented limits put this link and distance below warning 3?"""
    try:
        g = Geometry(link)
        w = max(g.link_warning(), g.distance_warning(g.d if g.d is not None else d))
    except (ref.Undefined, ZeroDivisionError, ValueError):
        return False
    # on a limit itself the last bit decides
    return w < 3


def quantiles(s, link, d, index, rec):
    """Two variability settings per link, cycling through all of them"""
    for k in (index, index + 4):
        s.update(klim=KLIMS[k % 7], mdvar=MODES[k % 10], lvar=5)
        for z in Z:
            a, s = avar(*z, s)
            rec.transitions += 1
            if core.num(a) is None:
                return s, 'quantile %r for deviates %r, climate %d, mode %d' % (a, z, s['klim'], s['mdvar'])
    return s, None


def distances(link):
    try:
        l = Geometry(link).dlsa
    except (ref.Undefined, ZeroDivisionError, ValueError):
        l = 5e4
    return [0, 1000, 1000.0, 5e3, 0.5 * l, l, math.nextafter(l, 0), 1.3 * l, 1e5, 4e5, 1e6, 2e6]


def check_area(link, index, rec, few):
    todo = distances(link)
    if few:
        todo = [todo[0], todo[(1, 4, 5, 6)[index % 4]], todo[(3, 7, 8, 9, 10, 11)[index % 6]]]
    try:
        s = links.prepare(link)
        rec.transitions += 1
    except Exception as e:
        return None, ('preparation raised %s: %s' % (type(e).__name__, e)) if mild(link, 0) else None
    for d in todo:
        try:
            s['kwx'] = 0
            t = lrprop(d, core.clone(s))
            rec.transitions += 1
            if t['kwx'] >= 3:
                rec.undefined += 1
                continue
            a = core.num(t['aref'])
            if a is None or a < 0:
                return d, 'attenuation %r with warning %r' % (t['aref'], t['kwx'])
            t, m = quantiles(t, link, d, index, rec)
            if m:
                return d, m
            rec.outcome(round(a, 5))
        except Exception as e:
            if mild(link, d):
                return d, 'raised %s: %s' % (type(e).__name__, e)
            rec.undefined += 1
    rec.traces += 1
    return None, None


def check_p2p(link, index, rec):
    try:
        s = links.prepare(link)
        rec.transitions += 1
        if s['kwx'] >= 3:
            rec.undefined += 1
            return None
        a = core.num(s['aref'])
        if a is None or a < 0 or core.num(s['dist']) is None or core.num(s['dh']) is None:
            return 'attenuation %r, distance %r, irregularity %r with warning %r' % (s['aref'], s['dist'], s['dh'], s['kwx'])
        s, m = quantiles(s, link, None, index, rec)
        if m:
            return m
        rec.outcome(round(a, 5))
    except Exception as e:
        if mild(link, None):
            return 'raised %s: %s' % (type(e).__name__, e)
        rec.undefined += 1
        return None
    rec.traces += 1
    return None


def listed(chunk, rec):
    index, many, few = chunk
    for i, link in enumerate(many):
        rec.states += 1
        case = dict(link=links.encode(link), index=index + i)
        rec.current = case
        if isinstance(link, Area):
            d, m = check_area(link, index + i, rec, few)
            case['d'] = d
        else:
            m = check_p2p(link, index + i, rec)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.sample(case)


WIDE = {
    'fmhz': [19.9863, 20.0, 39.9726, 100.0, 1000.0, 10017.0, 20034.0],
    'h1': [0.5, 1, 5.0, 30.0, 1000, 3000.0],
    'h2': [0.5, 1.0, 5, 30.0, 1000.0, 3000],
    'dh': [0, 0.1, 10.0, 90.0, 500.0, 1500],
    'kk': [(0, 0), (1, 1), (2, 2), (0, 2), (2, 0)],
    'en0': [250.0, 301.0, 400.0],
    'ground': [(15, 0.005), (4, 0.001), (81, 5.0), (25, 0)],
    'ipol': [0, 1],
}


def wide(chunk, rec):
    f, h1, few = chunk
    axes = dict(WIDE, fmhz=[f], h1=[h1])
    listed((int(f) % 70, links.product(axes), few), rec)


def small(chunk, rec):
    n, levels, first, setups = chunk
    i = 0
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        for f, h1, h2, en0, zsys, eps, sgm, ipol, xi in setups:
            i += 1
            link = P2P(f, h1, h2, en0, zsys, eps, sgm, ipol, xi, z)
            listed((i, [link], False), rec)
            if rec.full:
                return


SETUPS = c13.SETUPS + [(20.0, 1.0, 1.0, 250.0, 0.0, 15, 0.005, 0, 1000.0), (10000.0, 1000.0, 1000.0, 400.0, 0.0, 4, 0.001, 1, 50000.0),
                       (300, 10, 10, 301, 0, 15, 0.005, 1, 1000), (900.0, 0.5, 3000.0, 301.0, 1000.0, 25, 0.02, 0, 20000.0)]


def wide_profiles(chunk, rec):
    listed((int(7 * chunk[0] + chunk[1][0]) % 70, c13.wide_paths(chunk), False), rec)


def flats(quick):
    """Perfectly flat terrain and equal terminals, every size"""
    for n in list(range(1, 60)) + ([] if quick else list(range(60, 600, 7))) + [156, 300, 599]:
        for total in (1000.0, 1000, 5e3, 3e4, 1e5, 4e5, 1e6, 2e6):
            for h1, h2, f in ((1, 1, 20), (10.0, 10.0, 300.0), (30.0, 2.0, 5000.0), (0.5, 0.5, 900.0)):
                for base in (0, 1234.5):
                    yield P2P(f, h1, h2, 301.0, 0.0, 15, 0.005, 1, total / n, (base,) * (n + 1))


def spaces(grade):
    quick = grade == 'small'
    L = (0, 35.0, 120.0)
    near = list(c02.all_two())
    sizes = [(1, L), (2, L), (3, L), (4, L), (5, L)] + ([] if quick else [(6, L), (7, L), (4, (0, 1.0, 15.0, 60.0, 400.0))])
    fl = core.chunked(flats(quick), 48)
    lp = core.chunked(c13.long_profiles(quick), 48)
    if quick:
        near = near[::3]
    if grade == 'huge':
        sizes += [(8, L), (6, (0, 1.0, 15.0, 60.0, 400.0)), (11, (0, 80.0))]
    return [
        core.Space('area links on the limits', [(f, h, True) for f in WIDE['fmhz'] for h in WIDE['h1']] if quick else
                   [(f, h, False) for f in WIDE['fmhz'] for h in WIDE['h1']], wide,
                   'full product of frequency, heights, irregularity, siting, refractivity, ground, polarisation at and between their limits'),
        core.Space('area links around typical ones', [(97 * i, c, False) for i, c in enumerate(core.chunked(near, 96))], listed,
                   'links within two changes of 8 bases%s, 12 distances' % (' (quick: every third)' if quick else '')),
        core.Space('area sweeps', [(53 * i, c, True) for i, c in enumerate(core.chunked(c02.sweeps('medium' if quick else grade), 96))], listed,
                   '8 bases, each continuous parameter alone through many values of its range, 3 distances'),
        core.Space('profile sweeps', [(29 * i, c, False) for i, c in enumerate(core.chunked(c13.sizes_and_steps(grade), 96))], listed,
                   'every number of intervals, every continuous parameter through its range'),
        core.Space('small profiles', [(n, lv, f, [s]) for n, lv in sizes for f in lv for s in SETUPS], small, 'all small profiles, 8 setups'),
        core.Space('wide paths', c13.wide_chunks() if quick else c13.wide_chunks((250.0, 300.0, 395.0)), wide_profiles,
                   'irregular shapes x spacings x reliefs x frequencies x heights x grounds'),
        core.Space('flat and level', [(31 * i, c, False) for i, c in enumerate(fl)], listed, 'flat profiles of every size, lengths 1 km to 2000 km, equal and unequal terminals'),
        core.Space('long profiles', [(17 * i, c, False) for i, c in enumerate(lp)], listed, 'structured long profiles'),
    ]


def replay(case):
    link = links.decode(case['link'])
    rec = core.Recorder()
    if isinstance(link, Area):
        return check_area(link, case['index'], rec, False)[1]
    return check_p2p(link, case['index'], rec)
