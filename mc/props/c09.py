"""
C09: quantiles are ordered in every deviate, and unused deviates are ignored.

No reference model: only values the real code returns are compared with each other.
"""
import itertools

import core
import links
from links import avar
from props import c08

PID = 'C09'
QUICK_GRADE = 'medium'
LEVEL = 'model_checking'
ASSUMPTIONS = ['deviates on a grid of step 0.1 from -4 to 4 (coarser to 8) with every breakpoint and its neighbourhood added; '
               'links from the stated lattice']
GRID = sorted(set([round(0.1 * i, 10) for i in range(-40, 41)] + [-8.0, -6.0, -5.0, -4.5, 4.5, 5.0, 6.0, 8.0] +
                  [b + e for b in (0.0, 1.282, 2.161, -1.282, 3.10, -3.10) for e in (-1e-7, 0.0, 1e-7)] +
                  [b + e for b in (0.0, 1.282, 2.161) for e in (-0.05, -0.01, 0.01, 0.05)]))
NEAR = sorted(set(GRID + [round(b + 0.002 * i, 10) for b in (0.0, 1.282, 2.161) for i in range(-60, 61)]))
FINE = sorted(set([round(0.002 * i, 10) for i in range(-2000, 2001)] + GRID))
THIN = sorted(set(GRID[::4] + [-1e-7, 0.0, 1e-7, 1.282 - 1e-7, 1.282, 1.282 + 1e-7, 2.161, 2.161 + 1e-7]))
GRIDS = {True: THIN, False: GRID, 'near': NEAR, 'fine': FINE}
OTHERS = [-3.4, -0.8, 0.0, 1.0, 2.7]
UNUSED = [-8.0, -3.3, -3.1, -1.7, -0.4, 0.0, 0.9, 1.9, 3.1, 3.3, 8.0]
SLACK = 1e-9


def value(s, z):
    a, s = avar(*z, s)
    v = core.num(a)
    if v is None:
        raise ValueError('quantile is %r' % (a,))
    return v, s


def check(setup, grid, rec, template):
    klim, mdvar, wn, he, dh, dist, aref = setup
    s = core.clone(template)
    s.update(klim=klim, mdvar=mdvar, wn=wn, he=list(he), dh=dh, dist=dist, aref=aref, lvar=5, kwx=0)
    mode = mdvar % 10
    rec.states += 1
    used = {0: (2,), 1: (0, 2), 2: (0, 2), 3: (0, 1, 2)}[mode]
    for axis in range(3):
        rest = [i for i in range(3) if i != axis]
        for o in itertools.product(OTHERS, repeat=2):
            if any(i not in used and v != 0.0 for i, v in zip(rest, o)):
                continue
            last = None
            for g in (grid if axis in used else UNUSED):
                z = [0.0, 0.0, 0.0]
                z[axis] = g
                for i, v in zip(rest, o):
                    z[i] = v
                v, s = value(s, z)
                rec.transitions += 1
                if last is not None:
                    if axis in used and v > last[0] + SLACK:
                        return [last[1], z], 'quantile rises from %r to %r when deviate %d rises' % (last[0], v, axis + 1)
                    if axis not in used and abs(v - last[0]) > SLACK:
                        return [last[1], z], 'quantile moves from %r to %r with a deviate the mode does not use' % (last[0], v)
                last = (v, z)
            rec.outcome(round(last[0], 6))
    return None


def worker(chunk, rec):
    klim, mdvars, points, thin = chunk
    template = c08.session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    for mdvar in mdvars:
        for p in points:
            setup = (klim, mdvar) + p
            case = dict(setup=list(setup), thin=thin)
            rec.current = case
            try:
                bad = check(setup, GRIDS[thin], rec, template)
            except Exception as e:
                bad = None, 'raised %s: %s' % (type(e).__name__, e)
            if bad:
                rec.violation(dict(case, pair=bad[0]), bad[1])
                if rec.full:
                    return
            else:
                rec.traces += 1
                rec.sample(case)


def points(grade):
    few = [(2.0, (10.0, 5.0), 90.0, 5e4, 30.0), (20.0, (2.0, 300.0), 10.0, 2.4e5, 12.0), (0.42, (1.0, 1.0), 0.0, 1e4, 0.0)]
    many = list(itertools.product([0.42, 7.518796992481203, 100.0], [(1.0, 1.0), (10.0, 300.0)], [0.0, 90.0],
                                  [0.0, 3e4, 1.3e5, 2.6e5, 1e6], [0.0, 10.0, 60.0]))
    return few, many


def spaces(grade):
    few, many = points(grade)
    if grade == 'small':
        thin = many[::4] + many[1::9]
        modes = [[m] for m in c08.MODES]
        return [
            core.Space('fine grid', [(k, m, few, False) for k in c08.CLIMATES for m in modes], worker,
                       'all climates x 16 modes x 3 links, each used deviate along the fine grid, others on 5x5'),
            core.Space('links', [(k, m, thin, True) for k in c08.CLIMATES for m in ([0], [3], [11], [12], [23], [31])], worker,
                       '%d links of the lattice, thin grid, 6 modes' % len(thin)),
        ]
    extra = [core.Space('around the breaks', [(k, [m], few, 'near') for k in c08.CLIMATES for m in c08.MODES], worker,
                        'all climates x 16 modes x 3 links, steps of 0.002 within 0.12 of each break')] if grade == 'medium' else [
        core.Space('finest grid', [(k, [m], few, 'fine') for k in c08.CLIMATES for m in c08.MODES], worker,
                   'all climates x 16 modes x 3 links, each used deviate in steps of 0.002 from -4 to 4')]
    return extra + [core.Space('fine grid', [(k, [m], many + few, False) for k in c08.CLIMATES for m in c08.MODES], worker,
                       'all climates x 16 modes x %d links, fine grid' % (len(many) + len(few)))]


def replay(case):
    rec = core.Recorder()
    setup = tuple(tuple(v) if isinstance(v, list) else v for v in case['setup'])
    template = c08.session(5, 3, 2.0, (10.0, 5.0), 90.0, 1e4, 30.0)
    bad = check(setup, GRIDS[case['thin']], rec, template)
    return bad[1] if bad else None
