"""C14: the same terrain at another height above the datum gives the same link."""
import core
import itmref as ref
import links
import profiles
from links import P2P, avar
from props import c13

PID = 'C14'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the real code is compared with itself; the reference model only tells a difference from a tie of the definition',
    'profiles from the stated complete sets; shifts from a list reaching from below the Dead Sea to above any mountain',
]
SHIFTS = [-4096.0, -430.0, -120.0, -35.0, -10.0, 0.5, 100, 2048.0, 8849.0]
WIDE_SHIFTS = [-430.0, 2048.0]
Z = [(0.0, 0.0, 0.0), (-1.2816, 0.5, 1.6449), (2.3263, 0.0, -1.2816)]
SPEC = c13.HEAD + links.GEOMETRY + links.REGIONS + [('aref', 1e-6), ('kwx', 0)] + [('quantile', 1e-6)] * len(Z)
SCALES = [max(s, 1e-7) if n not in ('emd', 'the0', 'the1', 'tha') else s for n, s in SPEC]


def row(link):
    s = links.prepare(link, klim=6, mdvarx=13, klimx=0)
    out = [s['dist'], s['dh']] + links.observe_geometry(s) + links.observe_regions(s) + [s['aref'], s['kwx']]
    for z in Z:
        a, s = avar(*z, s)
        out.append(a)
    return out


def model(d, att):
    sp = ref.spread(6, 13, att.k.wn, att.k.he, att.k.dh, d)
    return c13.expected(d, att) + [ref.quantile(sp, att.aref(d), *z) for z in Z]


def check(link, shifts, rec):
    try:
        d, att = links.reference(link)
        att.aref(d)
    except ref.Undefined:
        rec.undefined += 1
        return None
    rec.states += 1
    try:
        home = row(link)
        rec.transitions += 1
        for shift in shifts:
            moved = link._replace(z=tuple(v + shift for v in link.z))
            there = row(moved)
            rec.transitions += 1
            for i, (a, b) in enumerate(zip(home, there)):
                x, y = core.num(a), core.num(b)
                if x is None or y is None or abs(x - y) > SCALES[i] * 10 + 1e-7 * abs(x):
                    bounds = links.allowed(link, model)
                    if bounds is None or (links.within(home, bounds, SCALES) and links.within(there, bounds, SCALES)):
                        rec.ties += 1
                        break
                    return shift, '%s is %r, and %r with the terrain moved by %r m' % (SPEC[i][0], a, b, shift)
    except Exception as e:
        return None, 'raised %s: %s' % (type(e).__name__, e)
    rec.traces += 1
    rec.outcome(repr(home[-1]))
    return None


def run(link, shifts, rec):
    case = dict(link=links.encode(link), shifts=list(shifts))
    rec.current = case
    m = check(link, shifts, rec)
    if m:
        if m[0] is not None:
            case['shifts'] = [m[0]]
        rec.violation(case, m[1])
    else:
        rec.sample(case)


def small(chunk, rec):
    n, levels, first, setups = chunk
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        for f, h1, h2, en0, zsys, eps, sgm, ipol, xi in setups:
            run(P2P(f, h1, h2, en0, zsys, eps, sgm, ipol, xi, z), SHIFTS, rec)
            if rec.full:
                return


def listed(chunk, rec):
    for link in chunk:
        run(link, SHIFTS, rec)
        if rec.full:
            return


def wide(chunk, rec):
    for link in c13.wide_paths(chunk):
        run(link, WIDE_SHIFTS, rec)
        if rec.full:
            return


def spaces(grade):
    quick = grade == 'small'
    L = (0.0, 35.0, 120.0)
    sizes = [(1, L), (2, L), (3, L), (4, L), (5, L)] + ([] if quick else [(6, L), (7, L), (4, (0.0, 15.0, 60.0, 200.0))]) + (
        [(8, L), (5, (0.0, 15.0, 60.0, 200.0)), (6, (0.0, 15.0, 60.0, 200.0))] if grade in ('large', 'huge') else []) + (
        [(9, L), (7, (0.0, 15.0, 60.0, 200.0)), (12, (0.0, 60.0))] if grade == 'huge' else [])
    setups = c13.SETUPS
    longs = list(c13.long_profiles(True))
    return [
        core.Space('small profiles', [(n, lv, f, [s]) for n, lv in sizes for f in lv for s in setups], small,
                   'all profiles of 1..%d intervals, 4 setups, 9 shifts from -4096 m to 8849 m' % {'small': 5, 'medium': 7, 'large': 8, 'huge': 12}[grade]),
        core.Space('long profiles', core.chunked(longs if not quick else longs[::3], 64), listed, 'structured long profiles, 9 shifts'),
        core.Space('grazing paths', core.chunked(list(c13.grazing(True))[::2 if quick else 1], 32), listed, 'level ground with dips around the reach of the horizons, 9 shifts'),
        core.Space('wide paths', c13.wide_chunks(grounds=c13.WIDE_GROUNDS[:1 if quick else 2]) if grade != 'huge' else c13.wide_chunks(), wide,
                   'irregular shapes x spacings x reliefs x frequencies x heights x grounds, 2 shifts'),
        core.Space('documented path', core.chunked(list(c13.palace(True))[::6 if quick else 1], 32), listed, 'variants of the Crystal Palace path, 9 shifts'),
    ]


def replay(case):
    m = check(links.decode(case['link']), case['shifts'], core.Recorder())
    return m[1] if m else None
