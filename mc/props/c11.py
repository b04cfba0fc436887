"""C11: radio horizons against their geometric definition, for all small profiles and structured long ones."""
import core
import itmref as ref
import links
import profiles
from links import P2P, qlrpfl
from itmlogic.preparatory_subroutines.hzns import hzns

PID = 'C11'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'where two points are seen at the same angle to within 1e-11 rad, either distance is accepted',
    'profiles from the stated complete sets',
]
TOL = 1e-11


def judge(z, xi, hg, gme, the, dl):
    """None, or what is wrong; by the definition, point by point"""
    n = len(z) - 1
    d = n * xi
    za, zb = z[0] + hg[0], z[n] + hg[1]
    direct = [(zb - za) / d - 0.5 * gme * d, (za - zb) / d - 0.5 * gme * d]
    seen = [[], []]
    for i in range(1, n):
        s = i * xi
        seen[0].append(((z[i] - za) / s - 0.5 * gme * s, s))
        s = (n - i) * xi
        seen[1].append(((z[i] - zb) / s - 0.5 * gme * s, s))
    scale = TOL * max(1.0, max(abs(v) for v in z) / xi)
    margin = max([a for a, _ in seen[0]], default=-9e9) - direct[0]
    margin2 = max([a for a, _ in seen[1]], default=-9e9) - direct[1]
    for j in (0, 1):
        got, at = core.num(the[j]), core.num(dl[j])
        if got is None or at is None:
            return 'terminal %d: horizon %r at %r' % (j + 1, the[j], dl[j])
        clear = max(margin, margin2) <= -scale
        grazing = abs(margin) < scale or abs(margin2) < scale
        best = max([a for a, _ in seen[j]], default=direct[j])
        ok = []
        if clear or grazing or not seen[j]:
            ok.append((direct[j], d))
        if not clear and seen[j]:
            ok += [(a, s) for a, s in seen[j] if a >= best - scale]
        if not any(abs(got - a) <= scale and abs(at - s) <= 1e-6 + 1e-9 * s for a, s in ok):
            return 'terminal %d: horizon angle %r at %r m, by definition %r' % (j + 1, got, at, ok[0])
    return None


def one(z, xi, hg, gme):
    pfl = [len(z) - 1, xi] + list(z)
    try:
        the, dl = hzns(pfl, (len(z) - 1) * xi, list(hg), gme)
        return judge(z, xi, hg, gme, the, dl)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


SETUPS = [(500.0, (10.0, 5.0), 1.17e-7), (3000.0, (30.0, 2.0), 1.17e-7), (9000.0, (2.0, 150.0), 0.8e-7),
          (40000.0, (100.0, 100.0), 1.57e-7)]


def run(z, setup, rec):
    xi, hg, gme = setup
    rec.states += 1
    rec.transitions += 1
    case = dict(z=list(z), xi=xi, hg=list(hg), gme=gme)
    rec.current = case
    m = one(z, xi, hg, gme)
    if m:
        rec.violation(case, m)
    else:
        rec.traces += 1
        rec.sample(case)


def small(chunk, rec):
    n, levels, first = chunk
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        for setup in SETUPS:
            run(z, setup, rec)
        rec.outcome(z)
        if rec.full:
            return


def spiky(chunk, rec):
    n, k, levels, setup = chunk
    for z in profiles.deviations(n, 10.0, levels, k):
        run(z, setup, rec)
        rec.outcome(z)
        if rec.full:
            return


def shaped(chunk, rec):
    for n, setup, name, z in chunk:
        run(z, setup, rec)
        rec.outcome(n, name)


def stepped(grade):
    """Curvature, spacing, each height and the relief alone through their ranges, over irregular and structured shapes"""
    count = {'small': 15, 'medium': 40, 'large': 80, 'huge': 400}[grade]
    shapes = [tuple(300.0 * v for v in z) for z in profiles.IRREGULAR] + [z for _, z in profiles.shaped(24)]
    for z in shapes:
        for xi, hg, gme in SETUPS:
            for i in range(count):
                f = i / (count - 1)
                yield 0, (xi, hg, 2e-8 * 20.0 ** f), '', z
                yield 1, (10.0 * 9000.0 ** f, hg, gme), '', z
                yield 2, (xi, (0.5 * 6000.0 ** f, hg[1]), gme), '', z
                yield 3, (xi, (hg[0], 0.5 * 6000.0 ** f), gme), '', z
                yield 4, (xi, hg, gme), '', tuple(v * 0.01 * 2000.0 ** f for v in z)
                yield 5, (xi, hg, gme), '', tuple(v + 100.0 * i - 400.0 for v in z)


def through(chunk, rec):
    """The horizons the whole preparation publishes, where it publishes the geometric ones"""
    n, levels, first = chunk
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        for xi, hg, _ in SETUPS[:3]:
            link = P2P(300.0, hg[0], hg[1], 301.0, 0.0, 15, 0.005, 1, xi, tuple(map(float, z)))
            g = links.ground(link)
            _, dl = ref.horizons(link.z, xi, hg, g.gme)
            if sum(dl) > 1.5 * n * xi - 1e-6 * n * xi:
                continue
            rec.states += 1
            rec.transitions += 1
            case = dict(link=links.encode(link))
            rec.current = case
            m = through_case(link)
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
            else:
                rec.traces += 1
        rec.outcome(z)


def through_case(link):
    g = links.ground(link)
    try:
        s = links.prepare(link)
        return judge(link.z, link.xi, (link.h1, link.h2), g.gme, s['the'], s['dl'])
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def spaces(grade):
    quick = grade == 'small'
    L = (0, 20.0, 75.0, 200.0)
    L3 = (-30.0, 0.0, 90)
    sizes = [(1, L), (2, L), (3, L), (4, L), (5, L), (6, L), (7, L3)] + ([] if quick else [(7, L), (8, L3), (9, L3), (8, (0.0, 5.0, 50.0, 400.0))]) + (
        [(8, L), (10, L3), (9, (0.0, 5.0, 50.0, 400.0)), (11, L3)] if grade in ('large', 'huge') else []) + (
        [(9, L), (12, L3), (10, (0.0, 5.0, 50.0, 400.0)), (7, (0, 10.0, 25.0, 60.0, 110.0, 300.0)), (18, (0.0, 80.0))] if grade == 'huge' else [])
    shapes = [(n, s, name, z) for n in (2, 3, 8, 15, 40, 156, 400, 599) for s in SETUPS for name, z in profiles.shaped(n)]
    for n in range(2, 61 if quick else 600):
        some = list(profiles.shaped(n))
        shapes += [(n, s) + some[(7 * n + 11 * k) % len(some)] for k in range(3) for s in SETUPS[:2]]
    return [
        core.Space('small profiles', [(n, lv, f) for n, lv in sizes for f in lv], small,
                   'all profiles of 1..%d intervals over the levels, 4 setups' % {'small': 7, 'medium': 9, 'large': 11, 'huge': 18}[grade]),
        core.Space('few obstacles', [(n, k, lv, s) for n, k, lv in ((12, 2, (0.0, 60.0, 300.0)), (40, 2, (45.0, 200.0)), (150, 1, (0.0, 11.0, 60.0, 400.0)), (15, 3, (60.0, 130.0)))
                                     for s in SETUPS], spiky,
                   'all ways to put up to 2 or 3 obstacles of several heights on level ground of 12..150 intervals'),
        core.Space('sweeps', core.chunked(stepped(grade), 400), shaped, 'curvature, spacing, heights, relief and base elevation through their ranges, 33 shapes x 4 setups'),
        core.Space('shapes', core.chunked(shapes, 32), shaped, 'structured profiles of every size up to 599 intervals'),
        core.Space('through the preparation', [(n, lv, f) for n, lv in ((2, L), (3, L), (4, L3), (5, L3)) for f in lv], through,
                   'published horizons of obstructed paths after the whole point-to-point preparation'),
    ]


def replay(case):
    if 'link' in case:
        return through_case(links.decode(case['link']))
    return one(tuple(case['z']), case['xi'], tuple(case['hg']), case['gme'])
