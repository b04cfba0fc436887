"""C16: the numerical approximations of section 6 and the climate curve against their formulas."""
import itertools
import math

import core
import itmref as ref
from itmlogic.diffraction_attenuation.aknfe import aknfe
from itmlogic.diffraction_attenuation.fht import fht
from itmlogic.scatter_attenuation.ahd import ahd
from itmlogic.scatter_attenuation.h0f import h0f
from itmlogic.statistics.curv import curv

PID = 'C16'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'arguments on the stated grids, which contain every branch boundary and its floating-point neighbours',
    'within 1e-9 relative of x*w^3 = 5495 either branch of the height gain is accepted',
]
REAL = {'aknfe': aknfe, 'fht': fht, 'ahd': ahd, 'h0f': h0f, 'curv': curv}


def gain_allowed(x, pk):
    yield ref.height_gain(x, pk)
    if x < 200:
        w = x * (-math.log(pk)) ** 3
        if abs(w - 5495) < 5495e-9 * 3:
            yield 2.5e-5 * x * x / pk + 8.686 * math.log(pk) - 15
            yield 17.372 * math.log(x) - 117


def one(v):
    def allowed(*args):
        yield v(*args)
    return allowed


MODEL = {'aknfe': one(ref.knife_edge), 'fht': gain_allowed, 'ahd': one(ref.scatter_base),
         'h0f': one(ref.frequency_gain), 'curv': one(ref.climate_curve)}


def case(name, args):
    want = list(MODEL[name](*args))
    try:
        got = REAL[name](*args)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    if any(core.close(got, w, 1e-9, 1e-10) for w in want):
        return None
    return '%s%r is %r, the formula gives %r' % (name, tuple(args), got, want[0])


def run(chunk, rec):
    name, points = chunk
    args = None
    for args in points:
        try:
            list(MODEL[name](*args))
        except ref.Undefined:
            rec.undefined += 1
            continue
        rec.states += 1
        rec.transitions += 1
        m = case(name, args)
        if m:
            rec.violation(dict(f=name, args=list(args)), m)
            if rec.full:
                return
        rec.outcome(args)
    rec.traces += 1
    rec.sample(dict(f=name, args=list(args)))


def around(values):
    out = []
    for v in values:
        out += [v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v * (1 + 1e-9), v * (1 - 1e-9), v * 1.001, v * 0.999]
    return out


def log_grid(lo, hi, n):
    return [lo * (hi / lo) ** (i / (n - 1)) for i in range(n)]


def spaces(grade):
    quick = grade == 'small'
    k = {'small': 1, 'medium': 6, 'large': 24, 'huge': 72}[grade]
    v2 = [0.0, -1.0, -1e-9, 0, 1, 5, 6] + around([5.76, 1e-5]) + log_grid(1e-9, 1e7, 3000 * k) + [i / 500 for i in range(5000)]
    x = [1, 50, 150, 200, 2000, 0.0, -3.0, -250.0] + around([1.0, 200.0, 2000.0]) + log_grid(1e-4, 1e6, 240 * k) + [float(i) for i in range(1, 2400, 20 if quick else 3)]
    pk = around([1e-5]) + log_grid(1e-8, 20.0, 90 * k) + [0.5, 1.0, 1.607, 0.0316]
    # arguments on both sides of x*w^3 = 5495
    edge = []
    for p in log_grid(1e-5, 0.9, 200 * k):
        w3 = (-math.log(p)) ** 3
        edge += [(5495 / w3 * f, p) for f in (0.9, 0.999999, 1.000001, 1.1) if 5495 / w3 * f < 200]
    gains = list(itertools.product(x, pk)) + edge
    td = [1, 10000, 70000, 100000] + around([10e3, 70e3]) + log_grid(1.0, 1e8, 4000 * k) + [100.0 * i for i in range(1, 1500)]
    r = [1, 2, 10] + log_grid(1e-3, 1e4, 90 * k)
    et = [0, 1, 2, 3, 4, 5, 7, -1.0, 0.0] + around([1.0, 2.0, 3.0, 4.0, 5.0, 0.5]) + [i / 16 for i in range(-16, 130)]
    if not quick:
        et += [i / 64 for i in range(0, 400)]
    h0 = list(itertools.product(r, et))
    tables = sorted({t for c in ref.CLIMATE.values() for t in c[:3]})
    de = [0, 0.0, 100000, 250000] + [1e3 * i for i in range(0, 1500, 1 if not quick else 3)] + log_grid(1.0, 1e7, 300 * k)
    de += [y for t in tables for y in t[2:]]
    synthetic = list(itertools.product((-3.0, 0.0, 2.0), (0.0, 9.0), (100e3,), (-50e3, 150e3), (80e3,)))
    curves = [t + (d,) for t in tables + synthetic for d in de]

    small = {'curv': ((-3.0, 2.0, 9.5), (0.0, 9.0, -4.0), (1e5, 1.4e5), (-5e4, 1.5e5), (8e4, 1.1e5), (5e4, 1.2e5, 3e5)),
             'fht': ((0.5, 3.0, 90.0, 150.0, 900.0, 5000.0), (1e-6, 1e-4, 0.01, 0.3, 1.2)),
             'h0f': ((0.2, 1.0, 7.0, 300.0), (0.3, 1.0, 1.5, 2.5, 3.9, 4.5, 6.0)),
             'aknfe': ((0.01, 0.011, 3.0, 3.01, 5.8, 6.0, 100.0),), 'ahd': ((5e3, 5.001e3, 4e4, 4.001e4, 9e4, 2e5),)}
    pairs = [(name, [p for a, b in itertools.permutations(list(itertools.product(*small[name])), 2)
                     if sum(u != v for u, v in zip(a, b)) == 1 for p in (a, b)]) for name in sorted(small)]

    def chunks(name, pts, n):
        return [(name, c) for c in core.chunked(pts, n)]
    return [
        core.Space('one argument changed', pairs, run, 'every ordered pair of argument lists of a small product that differ in one argument, one right after the other'),
        core.Space('knife edge', chunks('aknfe', [(v,) for v in v2], 4), run, 'v^2 from 1e-9 to 1e7, zero and negative, around 5.76'),
        core.Space('height gain', chunks('fht', gains, 32), run, 'x from 1e-4 to 1e6 (and <= 0) by K from 1e-8 to 20, around every boundary'),
        core.Space('scatter distance', chunks('ahd', [(t,) for t in td], 4), run, '1 m to 1e8 m, around 10 km and 70 km'),
        core.Space('frequency gain', chunks('h0f', h0, 16), run, 'r from 1e-3 to 1e4 by eta from -1 to 8, at and around the integers'),
        core.Space('climate curve', chunks('curv', curves, 16), run, 'all tables of the seven climates and 12 synthetic ones by distances to 1e7 m'),
    ]


def replay(c):
    return case(c['f'], tuple(c['args']))
