"""C08: quantiles against section 5 for every climate, mode, deviates and link."""
import itertools
import math

import core
import itmref as ref
import links
from links import avar, lrprop

PID = 'C08'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the reference model of section 5 is the specification',
    'deviates, distances, frequencies, heights and irregularities are taken from the stated lattices',
]
CLIMATES = [1, 2, 3, 4, 5, 6, 7]
BAD_CLIMATES = [0, -1, 8, 100]
MODES = [m + x for x in (0, 10, 20, 30) for m in (0, 1, 2, 3)]
BAD_MODES = [-1, 4, 7, 9, 14, 19, 25, 34, 40, -20]
WN = [0.42, 1.0, 2.0, 7.518796992481203, 12.0, 20.0, 100.0, 420.0]
HE = [(1.0, 1.0), (10.0, 5.0), (2.0, 300.0), (1000.0, 1000.0)]
DH = [0.0, 10.0, 90.0, 500]
DIST = [0.0, 1e3, 1e4, 5e4, 1e5, 1.3e5, 1.9e5, 2.6e5, 4e5, 8e5, 2e6]
AREF = [0.0, 8.0, 45.0]
ZS = [-6.0, -3.5, -2.3263, -1.0, 0.0, 0.4, 1.282, 1.2816, 2.161, 3.3, 5.5]
FEW = [(0.0, 0.0, 0.0), (-1.2816, 0.5, 1.6449), (2.4, -1.1, -0.7), (1.6, 2.0, 2.9),
       (21.5, 0.3, 0.4), (16.0, -12.0, 14.0)]


def session(klim, mdvar, wn, he, dh, dist, aref):
    s = lrprop(3e4, links.prepare(links.TYPICAL))
    s.update(klim=klim, mdvar=mdvar, wn=wn, he=list(he), dh=dh, dist=dist, aref=aref, lvar=5, kwx=0)
    return s


def walk(setup, zs, rec, template):
    klim, mdvar, wn, he, dh, dist, aref = setup
    sp = ref.spread(klim, mdvar, wn, he, dh, dist)
    s = core.clone(template)
    s.update(klim=klim, mdvar=mdvar, wn=wn, he=list(he), dh=dh, dist=dist, aref=aref, lvar=5, kwx=0)
    rec.states += 1
    rec.current = dict(setup=list(setup), z=None)
    for z in zs:
        try:
            a, s = avar(*z, s)
        except Exception as e:
            rec.violation(dict(setup=list(setup), z=list(z)), 'raised %s: %s' % (type(e).__name__, e))
            return
        rec.transitions += 1
        want = ref.quantile(sp, aref, *z)
        if not core.close(a, want):
            rec.violation(dict(setup=list(setup), z=list(z)), 'quantile is %r, section 5 gives %r' % (a, want))
            return
        rec.outcome(round(want, 9))
    rec.traces += 1
    rec.sample(dict(setup=list(setup), deviates=len(zs)))


def deviates(chunk, rec):
    climates, modes, points = chunk
    zs = list(itertools.product(ZS, repeat=3))
    template = session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    for setup in itertools.product(climates, modes):
        for p in points:
            walk(setup + p, zs, rec, template)
            if rec.full:
                return


POINTS = [
    (2.0, (10.0, 5.0), 90.0, 5e4, 30.0), (20.0, (2.0, 300.0), 10.0, 2.4e5, 70.0), (0.42, (1.0, 1.0), 0.0, 1e4, 0.0),
    (100.0, (1000.0, 50.0), 500, 8e5, 45.0), (7.518796992481203, (10.0, 10.0), 30.0, 1.3e5, 5.0), (12.0, (30.0, 5.0), 200.0, 0.0, 2.0),
]


def lattice(chunk, rec):
    klim, modes, wn = chunk
    template = session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    for mdvar, he, dh, dist, aref in itertools.product(modes, HE, DH, DIST, AREF):
        walk((klim, mdvar, wn, he, dh, dist, aref), FEW, rec, template)
        if rec.full:
            return


def dense(chunk, rec):
    """Every kilometre of distance, and many frequencies, for one climate and mode"""
    klim, mdvar = chunk
    template = session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    for i in range(1, 600):
        walk((klim, mdvar, 6.0, (20.0, 5.0), 90.0, 2e3 * i, 40.0), FEW, rec, template)
    for i in range(1, 400):
        walk((klim, mdvar, 0.419 * 1.0175 ** i, (20.0, 5.0), 90.0, 9e4, 40.0), FEW, rec, template)
    for i in range(0, 200):
        walk((klim, mdvar, 6.0, (20.0, 5.0), 5.0 * i, 3e4, 40.0), FEW, rec, template)
        walk((klim, mdvar, 6.0, (0.5 * 1.045 ** i, 5.0), 90.0, 1.1e5, 40.0), FEW, rec, template)


def fine_deviates(step):
    """Each deviate alone from -5 to 5, the others at rest and not"""
    n = int(round(5 / step))
    line = [round(i * step, 6) for i in range(-n, n + 1)]
    for v in line:
        yield (v, 0.0, 0.0)
        yield (0.0, v, 0.0)
        yield (0.0, 0.0, v)
        yield (v, 1.3, -0.6)
        yield (0.7, v, -0.6)
        yield (-0.7, 0.3, v)
        yield (v, v, v)


def fine(chunk, rec):
    klim, mdvar, step, points = chunk
    template = session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    zs = list(fine_deviates(step))
    for p in points:
        walk((klim, mdvar) + p, zs, rec, template)
        if rec.full:
            return


def reach(wn, he):
    """The distance at which the effective distance changes its rule, (5.1) - (5.3)"""
    return sum(math.sqrt(18e6 * h) for h in he) + (575.7e12 / wn) ** (1 / 3)


def joins(chunk, rec):
    """Both sides of that distance, and attenuations around zero, closely"""
    klim, mdvar = chunk
    template = session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    for wn, he in itertools.product(WN, HE):
        r = reach(wn, he)
        for f in (0.5, 0.9, 0.99, 0.999, 0.9999, 0.99999, 1.00001, 1.0001, 1.001, 1.01, 1.1, 1.5):
            walk((klim, mdvar, wn, he, 90.0, r * f, 20.0), FEW, rec, template)
        for a in (0.0, 1e-6, 0.01, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 7.0, 12.0, 17.0, 25.0, 35.0, 60.0, 100.0, 250.0):
            walk((klim, mdvar, wn, he, 90.0, 7e4, a), FEW, rec, template)
        if rec.full:
            return


def spaces(grade):
    quick = grade == 'small'
    klims = [[k] for k in CLIMATES] + [BAD_CLIMATES]
    modes = MODES + BAD_MODES
    mode_parts = [modes[i::4] for i in range(4)]
    lat_modes = [[m] for m in MODES] if not quick else [[0, 13, 21, 32], [3, 10, 22, 31], [1, 12, 20, 33], [2, 11, 23, 30]]
    return [
        core.Space('deviates', [(k, m, POINTS) for k in klims for m in mode_parts], deviates,
                   'all climates (and invalid) x all modes (and invalid) x all triples of %d deviates x %d links' % (
                       len(ZS), len(POINTS))),
        core.Space('links', [(k, m, w) for k in CLIMATES for w in (WN if not quick else WN[::2] + [7.518796992481203])
                             for m in lat_modes], lattice,
                   'climates x modes x frequency x heights x irregularity x distance x attenuation: full product'),
        core.Space('deviates, closely', [(k, m, 0.05 if quick else 0.01 if grade != 'huge' else 0.001, POINTS[:2 if quick else 6 if grade != 'huge' else 3])
                                         for k in CLIMATES for m in ((3, 2) if quick else MODES)], fine,
                   'each deviate alone through -5..5 (quick: step 0.01; thorough: 0.001), others at rest and not, and all together'),
        core.Space('joins, closely', [(k, m) for k in CLIMATES for m in MODES], joins,
                   'both sides of the distance where the rule for the effective distance changes; 17 attenuations'),
        core.Space('dense lines', [(k, m) for k in CLIMATES for m in ((3, 11) if quick else MODES)], dense,
                   'every 2 km to 1200 km, 400 frequencies, 200 irregularities, 200 heights'),
    ]


def replay(case):
    rec = core.Recorder()
    st = case['setup']
    setup = tuple(tuple(v) if isinstance(v, list) else v for v in st)
    template = session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    walk(setup, [tuple(case['z'])] if case['z'] else FEW, rec, template)
    return rec.violations[0][1] if rec.violations else None
