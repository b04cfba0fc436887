"""
C10: links are reciprocal.

The real code is run on a link and on its mirror image and the two are compared; the reference model
is consulted only to tell a genuine difference from a tie (a position that falls exactly on a sample,
two obstacles seen at exactly the same angle), where either neighbour is a correct answer.
"""
import itertools

import core
import itmref as ref
import links
import profiles
from links import Area, P2P, lrprop, avar
from props import c02, c13

PID = 'C10'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'links and profiles from the stated lattices; values compared to 1e-7 relative plus an absolute floor',
]
Z = [(0.0, 0.0, 0.0), (-1.2816, 0.5, 1.6449)]
DISTANCES = [0.3, 0.9, 1.1, 2.5, 8.0]


def asked(att):
    """Distances of an area link: 0, around the least distance its heights allow, and through all regions"""
    near = [f * att.dmin for f in (0.5, 0.999) if f * att.dmin > 1.0]
    return [0] + near + [f * att.dlsa for f in DISTANCES]


SPEC = links.GEOMETRY + [('dh', 1e-6), ('dist', 1e-6), ('aref', 1e-6), ('kwx', 0), ('q0', 1e-6), ('q1', 1e-6)]


def mirror(link):
    if isinstance(link, Area):
        return link._replace(h1=link.h2, h2=link.h1, k1=link.k2, k2=link.k1)
    return link._replace(h1=link.h2, h2=link.h1, z=tuple(reversed(link.z)))


def rows(link, att, swap, klim=6, mdvar=3, zs=Z):
    """What the real code publishes for a link, one row per distance; swapped back if asked"""
    s = links.prepare(link, klim=klim, klimx=0, mdvar=mdvar, mdvarx=-1)
    out = []
    for d in (asked(att) if isinstance(link, Area) else [None]):
        if d is not None:
            s['lvar'] = max(1, s['lvar'])
            if d:
                s['kwx'] = 0            # from here on what each distance alone gives
            s = lrprop(d, s)
        g = links.observe_geometry(s)
        if swap:
            g = [g[1], g[0], g[3], g[2], g[5], g[4]]
        row = g + [s['dh'], s['dist'], s['aref'], s['kwx']]
        for z in zs:
            a, s = avar(*z, s)
            row.append(a)
        out.append(row)
    return out


def model(link, dist):
    def f(d, a):
        at = dist if d is None else d
        sp = ref.spread(6, 3, a.k.wn, a.k.he, a.k.dh, at)
        return links.reference_geometry(a) + [a.k.dh, at, a.aref(at),
                                                   max(0 if d is None and at else a.link_warning(), a.distance_warning(at))] + \
            [ref.quantile(sp, a.aref(at), *z) for z in Z]
    return f


def check(link, rec, strict=False):
    try:
        d, att = links.reference(link)
        att.scat(), att.los()
        links.reference(mirror(link))[1].los()
    except ref.Undefined:
        rec.undefined += 1
        return None
    rec.states += 1
    try:
        there, back = rows(link, att, False), rows(mirror(link), att, True)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    rec.transitions += 2 * len(there)
    rec.outcome(repr(there[0][8]))
    scales = [s for _, s in SPEC]
    for k, (a, b) in enumerate(zip(there, back)):
        bad = None
        for i in range(len(SPEC)):
            x, y = core.num(a[i]), core.num(b[i])
            if x is None or y is None or abs(x - y) > scales[i] + 1e-7 * abs(x):
                bad = i
                break
        if bad is None:
            continue
        dist = asked(att)[k] if isinstance(link, Area) else None
        if strict:
            return '%s is %r one way and %r the other' % (SPEC[bad][0], a[bad], b[bad])
        # a tie: both answers are among those the definition allows here
        bounds = links.allowed(link, model(link, dist))
        if bounds is None:
            rec.ties += 1
            continue
        spread = bounds[bad][1] - bounds[bad][0]
        if spread > scales[bad] and links.within(a, bounds, scales) and links.within(b, bounds, scales):
            rec.ties += 1
            continue
        return '%s is %r one way and %r the other' % (SPEC[bad][0], a[bad], b[bad])
    rec.traces += 1
    return None


def worker(chunk, rec):
    for link in chunk:
        case = dict(link=links.encode(link))
        rec.current = case
        m = check(link, rec)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.sample(case)


MODES = list(range(0, 4)) + list(range(10, 14)) + [20, 21, 22, 23, 30, 33]
DEVIATES = [(-3.5, 0.0, 0.0), (0.0, 3.3, 0.0), (0.2, 0.3, -3.2), (2.0, -1.0, 0.5), (-0.5, 1.5, -2.0)]


def modes(chunk, rec):
    """Every climate and variability mode, deviates in every range: quantiles and markers, both ways"""
    link, klim = chunk
    case = dict(link=links.encode(link), klim=klim)
    rec.current = case
    m = check_modes(link, klim, rec)
    if m:
        rec.violation(case, m)
    else:
        rec.sample(case)


def check_modes(link, klim, rec):
    try:
        d, att = links.reference(link)
        att.scat(), att.los()
        links.reference(mirror(link))[1].los()
    except ref.Undefined:
        rec.undefined += 1
        return None
    rec.states += 1
    for mdvar in MODES:
        try:
            there = rows(link, att, False, klim, mdvar, DEVIATES)
            back = rows(mirror(link), att, True, klim, mdvar, DEVIATES)
        except Exception as e:
            return 'raised %s: %s' % (type(e).__name__, e)
        rec.transitions += 2 * len(there)
        for a, b in zip(there, back):
            if core.num(a[8]) is None or core.num(b[8]) is None or abs(a[8] - b[8]) > 1e-9 * (1 + abs(a[8])):
                continue                     # the attenuation itself: a matter for the other spaces
            for x, y, z in zip(a[10:], b[10:], DEVIATES):
                if core.num(x) is None or core.num(y) is None or abs(x - y) > 1e-5 + 1e-6 * abs(x):
                    return 'the quantile for %r in mode %d, climate %d is %r one way and %r the other' % (z, mdvar, klim, x, y)
    rec.traces += 1
    return None


def modes_links():
    out = [l for l in links.representatives() if (l.h1, l.k1) != (l.h2, l.k2)][::4]
    for n in (5, 12):
        out += [P2P(300.0, 20.0, 3.0, 301.0, 0.0, 15, 0.005, 1, xi, z) for xi in (700.0, 9000.0) for _, z in profiles.shaped(n)]
    return out


EDGES = [0.3, 0.49, 0.5, 0.51, 0.99, 1.0, 1, 1.01, 5.0, 60.0, 999.0, 1000.0, 1000, 1001.0, 2999.0, 3000.0, 3001.0, 5000.0]


def edges():
    """Terminals exactly on, just inside and just outside the limits of validity"""
    for h1, h2 in itertools.permutations(EDGES, 2):
        for dh, k1, k2 in ((0.0, 0, 0), (90.0, 0, 2), (700.0, 1, 0), (3000.0, 0, 0)):
            yield links.TYPICAL._replace(h1=h1, h2=h2, dh=dh, k1=k1, k2=k2)
            yield links.TYPICAL._replace(h1=h1, h2=h2, dh=dh, k1=k1, k2=k2, fmhz=3000.0, en0=340.0)
        for xi, r in ((25.0, 90.0), (800.0, 30.0), (1000.0, 500.0), (20000.0, 2000.0)):
            for z in ((0.0, 1.0, 0.0, 0.3), (1.0, 0.0, 0.5), (0.0, 0.2, 0.1, 0.9, 1.0), (0.0, 0.0, 0.0, 0.0, 0.0)):
                yield P2P(300.0, h1, h2, 301.0, 0.0, 15, 0.005, 1, xi, tuple(r * v for v in z))


def wide(chunk, rec):
    worker(c13.wide_paths(chunk), rec)


def exact_windows():
    """Spacings and heights that are powers of two: the windows begin and end exactly on samples, in exact
    arithmetic, so no tie is due to rounding"""
    for n in (160, 181, 320):
        for xi, h in ((512.0, (512.0, 512.0)), (256.0, (256.0, 256.0)), (128.0, (128.0, 128.0)), (256.0, (256.0, 512.0)), (512.0, (512.0, 256.0))):
            for name, z in profiles.shaped(n):
                yield P2P(300.0, h[0], h[1], 301.0, 0.0, 15, 0.005, 1, xi, tuple(float(round(v)) for v in z))
                yield P2P(300.0, h[0], h[1], 301.0, 0.0, 15, 0.005, 1, xi, tuple(float(round(0.25 * v)) for v in z))


def exact(chunk, rec):
    for link in chunk:
        case = dict(link=links.encode(link), strict=True)
        rec.current = case
        m = check(link, rec, True)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.sample(case)


def small(chunk, rec):
    n, levels, first, setups = chunk
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        for f, h1, h2, ipol, xi in setups:
            link = P2P(f, h1, h2, 301.0, 0.0, 15, 0.005, ipol, xi, tuple(map(float, z)))
            case = dict(link=links.encode(link))
            rec.current = case
            m = check(link, rec)
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
            else:
                rec.sample(case)


def long_profiles(quick):
    for n in ((4, 9, 10, 20, 33, 60, 157, 300) if quick else (4, 9, 10, 11, 20, 33, 40, 60, 100, 157, 300, 599)):
        for km in (3.3, 25.0, 77.8, 240.0):
            for _, z in profiles.shaped(n):
                for h in ((10.0, 3.0), (150.0, 2.0), (3.0, 60.0), (1.5, 1.5)):
                    yield P2P(300.0, h[0], h[1], 301.0, 0.0, 15, 0.005, 1, km * 1000.0 / n, z)
    for h in ((143.9, 8.5), (10.0, 30.0)):
        for f in (41.5, 573.3, 3000.0):
            yield P2P(f, h[0], h[1], 314.0, 0.0, 15, 0.005, 0, 77800.0 / 156, tuple(map(float, profiles.CRYSTAL_PALACE)))


SETUPS = [(300.0, 10.0, 3.0, 1, 1700.0), (2000.0, 3.0, 45.0, 0, 7300.0)]


def spaces(grade):
    quick = grade == 'small'
    area = list(c02.all_two())
    area += c02.sweeps('small' if quick else 'medium' if grade != 'huge' else 'large')
    area = [l for l in area if (l.h1, l.k1) != (l.h2, l.k2)]
    levels = (0.0, 35.0, 120.0)
    sizes = [(2, levels), (3, levels), (4, levels), (5, levels), (6, levels)] + ([(9, levels), (6, (0.0, 20.0, 60.0, 150.0))] if grade in ('large', 'huge') else []) + ([(10, levels), (7, (0.0, 20.0, 60.0, 150.0)), (12, (0.0, 70.0))] if grade == 'huge' else []) + ([] if quick else [(7, levels), (8, levels), (5, (0.0, 20.0, 60.0, 150.0))])
    chunks = [(n, lv, f, SETUPS) for n, lv in sizes for f in lv]
    return [
        core.Space('area links', core.chunked(area if not quick else area[::2], 100), worker,
                   'links within two changes of 8 bases (quick: every second), 5 distances, both ways'),
        core.Space('small profiles', chunks, small, 'all profiles of 2..%d intervals over %s m, 2 setups, both ways' % (
            {'small': 6, 'medium': 8, 'large': 9, 'huge': 12}[grade], levels)),
        core.Space('grazing paths', core.chunked(list(c13.grazing(quick)), 32), worker,
                   'level ground with dips, at every length around the reach of the horizons, both ways'),
        core.Space('profile sweeps', core.chunked(c13.sizes_and_steps('small' if grade != 'huge' else 'medium'), 64), worker,
                   'every number of intervals and every continuous parameter through its range, both ways'),
        core.Space('edges of validity', core.chunked(edges(), 64), exact, 'both terminals over 18 heights on and around the limits, 8 areas and 16 profiles, both ways'),
        core.Space('wide paths', c13.wide_chunks(grounds=c13.WIDE_GROUNDS[:1 if quick else 3]) if grade != 'huge' else c13.wide_chunks(), wide,
                   'irregular shapes x spacings x reliefs x frequencies x heights x grounds, both ways'),
        core.Space('every mode', [(l, k) for l in modes_links() for k in range(1, 8)], modes, 'representative links, 7 climates, 14 modes, 5 deviates in and out of range, both ways'),
        core.Space('exact windows', core.chunked(exact_windows(), 32), exact,
                   'structured profiles whose statistical windows begin and end exactly on samples; no tie accepted'),
        core.Space('long profiles', core.chunked(long_profiles(quick), 64), worker,
                   'structured profiles up to %d intervals, 4 lengths, 4 height pairs, both ways' % (300 if quick else 599)),
    ]


def replay(case):
    if 'klim' in case:
        return check_modes(links.decode(case['link']), case['klim'], core.Recorder())
    return check(links.decode(case['link']), core.Recorder(), case.get('strict', False))
