"""C17: general preparation against (1.1)-(1.5) over the full product of its arguments."""
import itertools

import core
import itmref as ref
import links
from itmlogic.preparatory_subroutines.qlrps import qlrps

PID = 'C17'
LEVEL = 'model_checking'
ASSUMPTIONS = ['arguments from the stated lattice']


def case(args):
    want = ref.qlrps(*args)
    try:
        wn, gme, ens, zgnd = qlrps(*args)
        z = complex(zgnd)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    for name, got, w in (('wave number', wn, want.wn), ('earth curvature', gme, want.gme), ('refractivity', ens, want.ens),
                         ('impedance (real)', z.real, want.zgnd.real), ('impedance (imaginary)', z.imag, want.zgnd.imag)):
        if not core.close(got, w, 1e-18 if name == 'earth curvature' else 1e-12, 1e-9):
            return '%s is %r, (1.1)-(1.5) give %r' % (name, got, w)
    return None


def run(chunk, rec):
    fmhz, zs, ens, grounds = chunk
    for args in itertools.product([fmhz], zs, ens, (0, 1, 2), grounds):
        args = args[:4] + tuple(args[4])
        rec.states += 1
        rec.transitions += 1
        m = case(args)
        if m:
            rec.violation(dict(args=list(args)), m)
            if rec.full:
                return
        rec.outcome(args)
    rec.traces += 1
    rec.sample(dict(args=list(args)))


TWO = ((40.0, 900.0, 5000), (0.0, 300.0, -50.0), (270.0, 301.0, 370.0), (0, 1), (4, 15, 15.5, 81.0), (0.001, 0.005, 5.0))
BASES = [(100.0, 0.0, 301.0, 0, 15, 0.005), (2400.0, 800.0, 250.0, 1, 81, 5.0), (30.0, -20.0, 400.0, 1, 4, 0.001)]


def listed(chunk, rec):
    for args in chunk:
        rec.states += 1
        rec.transitions += 1
        m = case(args)
        if m:
            rec.violation(dict(args=list(args)), m)
            if rec.full:
                return
        rec.outcome(args)
    rec.traces += 1


def swept(n):
    def ladder(lo, hi):
        return [lo * (hi / lo) ** (i / (n - 1)) for i in range(n)]
    values = [ladder(15.0, 50000.0) + [20.0 + 0.5 * i for i in range(n)],
              [-450.0 + 9400.0 * i / (n - 1) for i in range(n)] + ladder(1e-3, 30.0),
              [200.0 + 250.0 * i / (n - 1) for i in range(n)], [],
              [1.0 + 99.0 * i / (n - 1) for i in range(n)], ladder(1e-7, 100.0)]
    for base in BASES:
        for pol in (0, 1):
            for i, vs in enumerate(values):
                yield [base[:i] + (v,) + base[i + 1:3] + (pol,) + base[4:] if i < 3 else base[:3] + (pol,) + base[4:i] + (v,) + base[i + 1:] for v in vs]


def spaces(grade):
    quick = grade == 'small'
    zs = [0, 0.0, 1e-6, 1, 1.0, 100.0, 500, 1000.0, 2000, 3000.0, 5000.0, 8848, -1.0, -100, -430.0, -0.001]
    ens = links.AXES['en0'] + [200.0, 225, 239.9, 249.9, 400.1, 450.0]
    grounds = links.AXES['ground'] + [(1, 0.005), (1.0, 0.0), (15, 0), (7.5, 0.03), (100, 10.0), (2.5, 1e-6), (81, 4)]
    f = links.AXES['fmhz'] + [1.0, 10, 47.7, 100000.0]
    if grade == 'medium':
        zs += [250.0 * i for i in range(1, 12)]
        ens += [240.0 + 10 * i for i in range(18)]
    if grade in ('large', 'huge'):
        zs += [25.0 * i for i in range(1, 60)]
        ens += [240.0 + 2.5 * i for i in range(70)]
        grounds += [(e, s) for e in (3, 9.0, 22, 50) for s in (1e-5, 3e-3, 0.3, 3.0)]
    if grade == 'huge':
        f = f + links.stops('fmhz', 200)
    pts = list(itertools.product(*TWO))
    pairs = [p for a in pts for i, vs in enumerate(TWO) for v in vs if v != a[i] for p in (a, a[:i] + (v,) + a[i + 1:])]
    return [core.Space('one argument changed', core.chunked(pairs, 4), listed,
                       'every ordered pair of argument lists of a small product that differ in one argument, one right after the other'),
            core.Space('sweeps', [c for c in swept({'small': 400, 'medium': 1000, 'large': 2500, 'huge': 12000}[grade]) if c], listed,
                       'every argument swept alone through its range, from three bases and both polarisations'),
            core.Space('general preparation', [(v, zs, ens, grounds) for v in f], run,
                       'frequency x elevation (also 0 and below sea level) x refractivity x polarisation x ground: full product')]


def replay(c):
    return case(tuple(c['args']))
