"""
C06: the warning marker.

  limits     every primary input at, just below and just above each documented limit, alone and in
             pairs, through the basic propagation call with hand-set inputs;
  links      the marker of whole area and point-to-point links against the model;
  histories  all sequences of calls that raise different warnings, from every initial marker;
  no effect  the same calls with another initial marker publish identical numbers.
"""
import itertools
import math

import core
import itmref as ref
import links
import profiles
from links import Area, P2P, lrprop, avar
from props import c02

PID = 'C06'
QUICK_GRADE = 'medium'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'limits on raw inputs are compared exactly; limits on derived values (horizon distances against '
    'smooth-earth ones, distance against the height difference) one part in 1e9 to either side',
    'inputs for which the algorithm defines no value are left out and counted',
]


def below(x):
    return math.nextafter(x, -math.inf)


def above(x):
    return math.nextafter(x, math.inf)


def around(*limits):
    return [f(x) for x in limits for f in (below, lambda v: v, above)]


NEAR = (1 - 1e-9, 1 + 1e-9)
BASE = dict(wn=6.3, h1=10.0, h2=5.0, e1=10.0, e2=5.0, ens=301.0, gme=1.17e-7, zgnd=complex(3.5, 0.8),
            f1=0.7, f2=0.7, t1=-0.001, t2=-0.002, dh=60.0, dist=40e3)
LIMITS = {
    'wn': around(0.419, 0.838, 210.0, 420.0),
    'h1': around(0.5, 1.0, 1000.0, 3000.0), 'h2': around(0.5, 1.0, 1000.0, 3000.0),
    'ens': around(250.0, 400.0), 'gme': around(75e-9, 250e-9),
    'zgnd': [complex(2, 2), complex(2, above(2.0)), complex(2, below(2.0)), complex(2, -2), complex(2, -2.5),
             complex(2, -1.5), complex(0.5, 0.0), complex(3, 3.1)],
    't1': around(0.2, -0.2) + [0.5, -0.5], 't2': around(0.2, -0.2) + [0.5, -0.5],
    'f1': [0.1 * n for n in NEAR] + [3 * n for n in NEAR] + [0.05, 4.0],
    'f2': [0.1 * n for n in NEAR] + [3 * n for n in NEAR] + [0.05, 4.0],
    'dist': around(1e3, 1000e3, 2000e3) + [0, 1.0, 3e6, ('dmin', NEAR[0]), ('dmin', NEAR[1])],
    'heights': [(100.0, 5.0), (5.0, 100.0), (20.0, 19.0)],
    'dh': [0.0, 500.0],
}


def build(v):
    e1, e2 = v.get('heights', (v['e1'], v['e2']))
    dls = [ref.root(2 * e / v['gme']) for e in (e1, e2)]
    s = {'mdp': 1, 'wn': v['wn'], 'hg': [v['h1'], v['h2']], 'he': [e1, e2], 'ens': v['ens'], 'gme': v['gme'],
         'zgnd': v['zgnd'], 'dl': [v['f1'] * dls[0], v['f2'] * dls[1]], 'the': [v['t1'], v['t2']], 'dh': v['dh'],
         'kwx': v.get('kwx', 0), 'lvar': 5, 'klim': 5, 'mdvar': 3, 'klimx': 0, 'mdvarx': -1}
    att = ref.Attenuation(ref.Link(False, tuple(s['hg']), s['wn'], s['dh'], s['ens'], s['gme'], s['zgnd'],
                                   tuple(s['he']), tuple(s['dl']), tuple(s['the'])))
    d = v['dist']
    if isinstance(d, tuple):
        d = att.dmin * d[1]
    att.aref(d)
    return s, att, d


def limit_case(changes, kwx, rec):
    v = dict(BASE, kwx=kwx)
    v.update(changes)
    try:
        s, att, d = build(v)
    except (ref.Undefined, OverflowError):
        rec.undefined += 1
        return None
    rec.transitions += 1
    try:
        s = lrprop(d, s)
        got = s['kwx']
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    want = max(kwx, att.link_warning(), att.distance_warning(d))
    rec.outcome(tuple(sorted(changes)), want)
    if got != want:
        return 'marker is %r, the documented limits give %r' % (got, want)
    return None


def coded(changes):
    out = {}
    for k, x in changes.items():
        if isinstance(x, complex):
            x = ['complex', x.real, x.imag]
        elif isinstance(x, tuple):
            x = ['tuple'] + list(x)
        out[k] = x
    return out


def decoded(changes):
    out = {}
    for k, x in changes.items():
        if isinstance(x, list):
            x = complex(x[1], x[2]) if x[0] == 'complex' else tuple(x[1:])
        out[k] = x
    return out


def limits(chunk, rec):
    for changes in chunk:
        for kwx in (0, 2, 4):
            case = dict(kind='limit', changes=coded(changes), kwx=kwx)
            rec.current = case
            rec.states += 1
            m = limit_case(changes, kwx, rec)
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
            else:
                rec.traces += 1
                rec.sample(case)


def all_limits(k):
    names = sorted(LIMITS)
    for m in range(k + 1):
        for axes in itertools.combinations(names, m):
            for values in itertools.product(*(LIMITS[a] for a in axes)):
                yield dict(zip(axes, values))


def ladder(lo, hi, n):
    return [lo * (hi / lo) ** (i / (n - 1)) for i in range(n)]


def swept_limits(n):
    axes = {'wn': ladder(0.3, 600.0, n), 'h1': ladder(0.3, 5000.0, n), 'h2': ladder(0.3, 5000.0, n),
            'ens': ladder(200.0, 480.0, n), 'gme': ladder(60e-9, 320e-9, n), 'dist': ladder(10.0, 4e6, 2 * n),
            't1': [i * 0.6 / n - 0.3 for i in range(n + 1)], 't2': [i * 0.6 / n - 0.3 for i in range(n + 1)],
            'f1': ladder(0.03, 9.0, n), 'f2': ladder(0.03, 9.0, n), 'dh': [0.0] + ladder(0.1, 2000.0, n)}
    for a in sorted(axes):
        for v in axes[a]:
            for more in ({}, {'dist': 1.2e6}, {'h2': 2000.0}, {'dist': 600.0, 'wn': 0.5}):
                yield dict(more, **{a: v})


# ------------------------------------------------------------------- whole links

DISTANCES = [500.0, 1e3, 2e4, 1e6, 1.5e6, 2.5e6]


def link_case(link, rec):
    try:
        d, att = links.reference(link)
        att.scat(), att.los()
    except ref.Undefined:
        rec.undefined += 1
        return None
    try:
        s = links.prepare(link)
        if d is None:
            s = lrprop(0, s)
        rec.transitions += 1
        want = att.link_warning() if d is None else max(att.link_warning(), att.distance_warning(d))
        if s['kwx'] != want:
            bounds = links.allowed(link, lambda d, a: [max(a.link_warning(), a.distance_warning(d or 0))])
            if bounds is None or bounds[0][0] <= s['kwx'] <= bounds[0][1]:
                rec.ties += 1
                return None
            return 'marker is %r after preparation, the limits give %r' % (s['kwx'], want)
        rec.outcome(link.fmhz, want)
        if d is not None:
            return None
        got0 = want
        for x in DISTANCES + [att.dmin * NEAR[0], att.dmin * NEAR[1]]:
            if x < 1e-3:
                continue
            s['kwx'] = 0
            s = lrprop(x, s)
            rec.transitions += 1
            if s['kwx'] != att.distance_warning(x):
                return 'marker is %r at %r m, the limits give %r' % (s['kwx'], x, att.distance_warning(x))
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def whole(chunk, rec):
    for link in chunk:
        case = dict(kind='link', link=links.encode(link))
        rec.current = case
        rec.states += 1
        m = link_case(link, rec)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.sample(case)


def profile_links():
    for n in (1, 2, 4, 10, 60):
        for km in (0.9, 1.0, 5.0, 30.0, 100.0, 600.0, 1200.0, 2100.0):
            for _, z in profiles.shaped(n):
                for h in ((10.0, 3.0), (0.5, 1.0), (0.4, 5.0), (1500.0, 2.0), (2.0, 3100.0), (300.0, 100.0)):
                    for f in (300.0, 15.0, 12000.0):
                        yield P2P(f, h[0], h[1], 301.0, 0.0, 15, 0.005, 1, km * 1000.0 / n, z)


def outside():
    """Frequencies, heights and refractivities beyond the limits, in pairs"""
    axes = {'fmhz': [10.0, 19.98, 19.99, 25.0, 39.9, 40.0, 10016.9, 10017.1, 20033.9, 20034.1, 30000.0],
            'h1': [0.3, 0.5, 0.9, 1.0, 1000.0, 1001.0, 3000.0, 3001.0], 'h2': [0.3, 0.5, 0.9, 1.0, 1000.0, 1001.0, 3000.0, 3001.0],
            'en0': [200.0, 249.9, 250.0, 400.0, 400.1, 450.0], 'zsys': [0.0, 1000.0, 2000.0],
            'ground': [(15, 0.005), (81, 5.0), (1.5, 0.01), (4, 1.0)], 'ipol': [0, 1], 'dh': [0.0, 90.0, 500.0]}
    seen = set()
    for b in links.BASES:
        for l in links.within_two(b, axes):
            if l not in seen:
                seen.add(l)
                yield l


# ------------------------------------------------------------------- histories and no effect

LINKS = [links.TYPICAL, links.TYPICAL._replace(fmhz=25.0), links.TYPICAL._replace(h1=200.0, h2=1.5),
         links.TYPICAL._replace(fmhz=10.0), links.TYPICAL._replace(h1=0.7)]
OPS = [('L', 2e4), ('L', 0), ('L', 500.0), ('L', 1.2e6), ('L', 2.1e6), ('L', 1500.0),
       ('Q', 0.0, 0.0, 0.0), ('Q', 3.1, 3.1, 3.1), ('Q', 3.11, 0.0, 0.0), ('Q', 0.0, 3.2, 0.0), ('Q', 0.0, 0.0, -3.11), ('Q', -3.2, 0.0, 0.0),
       ('K', 5), ('K', 9), ('K', 0), ('M', 3), ('M', 7), ('M', 15), ('M', 34), ('M', 21)]


def history(link, kwx, seq, rec):
    _, att = links.reference(link)
    s = links.prepare(link, kwx=kwx, mdvar=3)
    s = lrprop(3e4, s)
    want = max(kwx, att.link_warning(), att.distance_warning(3e4))
    klim, mdvar, fresh_k, fresh_m = 5, 3, True, True
    for op in seq:
        if op[0] == 'L':
            s['lvar'] = max(s['lvar'], 1)
            s = lrprop(op[1], s)
            want = max(want, att.distance_warning(op[1]))
        elif op[0] == 'K':
            klim, s['klim'], s['lvar'], fresh_k, fresh_m = op[1], op[1], 5, True, True
        elif op[0] == 'M':
            mdvar, s['mdvar'], s['lvar'], fresh_m = op[1], op[1], max(s['lvar'], 4), True
        else:
            _, s = avar(op[1], op[2], op[3], s)
            m, _, _, wm = ref.effective_mode(mdvar)
            if fresh_k:
                want = max(want, ref.effective_climate(klim)[1])
            if fresh_m:
                want = max(want, wm)
            fresh_k = fresh_m = False
            want = max(want, ref.quantile_warning(m, *op[1:]))
        rec.transitions += 1
        if s['kwx'] != want:
            return 'after %s the marker is %r, the documented conditions give %r' % (op, s['kwx'], want)
    rec.outcome(kwx, want)
    return None


def histories(chunk, rec):
    li, kwx, first, depth = chunk
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = [first] + list(rest)
        case = dict(kind='history', link=links.encode(LINKS[li]), kwx=kwx, seq=seq)
        rec.current = case
        rec.states += 1
        try:
            m = history(LINKS[li], kwx, seq, rec)
        except Exception as e:
            m = 'raised %s: %s' % (type(e).__name__, e)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.sample(case)


DEVIATES = [0.0, 1.5, 3.0, 3.09, math.nextafter(3.1, 0), 3.1, math.nextafter(3.1, 4), 3.105, 3.12, 3.2, 4.0, 12.0]
DEVIATES = sorted(set(DEVIATES) | {-z for z in DEVIATES})


def conditions(grade):
    """One quantile after the choice of a mode and a climate, and a second one that announces nothing"""
    modes = list(range(-4, 46)) + [99, 100, -20]
    climates = [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 50]
    lines = [tuple(z if j == i else o for j in range(3)) for z in DEVIATES for i in range(3) for o in (0.0, -1.0)]
    few = DEVIATES if grade != 'small' else DEVIATES[::3] + [3.1, -3.1]
    out = [(0, k, [('M', m), ('Q',) + z]) for m in modes for z in lines for k in (0, 1, 2)]
    out += [(0, 0, [('M', m), ('Q', a, b, c)]) for m in (0, 1, 2, 3, 13, 21, 32, 7) for a in few for b in few for c in few]
    out += [(li, k, [('K', c), ('M', m), ('Q', 0.5, 0.5, 0.5)]) for li in range(len(LINKS)) for c in climates for m in modes for k in (0, 3)]
    out += [(0, 0, [('M', m), ('Q', 0.0, 0.0, 0.0), ('M', n), ('Q', 0.0, 0.0, 0.0)]) for m in modes for n in modes]
    out += [(0, 0, [('K', m), ('Q', 0.0, 0.0, 0.0), ('K', n), ('Q', 0.0, 0.0, 0.0)]) for m in climates for n in climates]
    return [(li, k, seq + [('Q', 0.0, 0.0, 0.0)]) for li, k, seq in out]


def quantile_conditions(chunk, rec):
    for li, kwx, seq in chunk:
        case = dict(kind='history', link=links.encode(LINKS[li]), kwx=kwx, seq=seq)
        rec.current = case
        rec.states += 1
        try:
            m = history(LINKS[li], kwx, seq, rec)
        except Exception as e:
            m = 'raised %s: %s' % (type(e).__name__, e)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.sample(case)


PUBLISHED = ['aref', 'dist', 'dlsa', 'dla', 'tha', 'aed', 'emd', 'he', 'dl', 'the', 'dh']


def published(link, kwx):
    s = links.prepare(link, kwx=kwx)
    out = []
    for d in (0, 500.0, 2e4, 4e5, 2.5e6):
        s['lvar'] = max(1, s['lvar'])
        s = lrprop(d, s)
        out += [repr(s[k]) for k in PUBLISHED]
        for z in ((0.0, 0.0, 0.0), (1.0, -1.0, 3.3)):
            a, s = avar(*z, s)
            out.append(repr(a))
    return out


def no_effect(chunk, rec):
    for link in chunk:
        case = dict(kind='effect', link=links.encode(link))
        rec.current = case
        rec.states += 1
        try:
            links.reference(link)
        except ref.Undefined:
            rec.undefined += 1
            continue
        m = effect_case(link, rec)
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.outcome(link)
            rec.sample(case)


def effect_case(link, rec):
    base = None
    for kwx in (0, 1, 2, 3, 4):
        try:
            got = published(link, kwx)
        except Exception as e:
            got = ['raised ' + type(e).__name__]
        rec.transitions += 1
        if base is None:
            base = got
        elif got != base:
            return 'with an initial marker of %d the results differ from those with 0: %s' % (
                kwx, next(((a, b) for a, b in zip(got, base) if a != b), (got, base)))
    return None


def spaces(grade):
    quick = grade == 'small'
    reps = links.representatives()
    singles = [links.setting(b, a, v) for b in links.BASES for a in ('fmhz', 'h1', 'dh', 'en0') for v in links.AXES[a]]
    profs = list(profile_links())
    return [
        core.Space('limits', core.chunked(all_limits(2 if quick else 3), 64 if quick else 400), limits,
                   'all combinations of at most %d inputs moved to a limit value' % (2 if quick else 3)),
        core.Space('limits swept', core.chunked(swept_limits({'small': 150, 'medium': 700, 'large': 1500, 'huge': 6000}[grade]), 64), limits,
                   'every limited input moved alone, finely, from below its lower to above its upper limit, with 4 settings of the others'),
        core.Space('area links', core.chunked(list(outside()) + (singles if quick else list(c02.all_two()) + c02.sweeps(grade)), 100), whole,
                   'links with parameters inside, at and outside the limits, in pairs'),
        core.Space('profile links', core.chunked(profs, 100), whole,
                   'structured profiles x lengths x heights x frequencies'),
        core.Space('histories', [(li, k, op, 4 if grade in ('large', 'huge') else 3) for li in range(len(LINKS)) for k in ((0, 3) if quick else range(5))
                                 for op in OPS], histories,
                   'every sequence of %d calls out of %d that raise different warnings, several initial markers' % (4 if grade in ('large', 'huge') else 3, len(OPS))),
        core.Space('quantile conditions', core.chunked(conditions(grade), 400), quantile_conditions,
                   'one quantile per mode -4..45, climate -1..9 and deviate up to and past +-3.1 (its neighbours too), alone and together'),
        core.Space('no effect', core.chunked(reps + c04pool() + (singles if not quick else singles[::3]), 50), no_effect,
                   'initial markers 0..4 on the same calls: published numbers identical'),
    ]


def c04pool():
    from props import c04
    return c04.POOL


def replay(case):
    rec = core.Recorder()
    if case['kind'] == 'limit':
        return limit_case(decoded(case['changes']), case['kwx'], rec)
    link = links.decode(case['link'])
    if case['kind'] == 'link':
        return link_case(link, rec)
    if case['kind'] == 'history':
        return history(link, case['kwx'], [tuple(o) for o in case['seq']], rec)
    return effect_case(link, rec)
