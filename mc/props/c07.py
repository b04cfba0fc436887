"""
C07: variability recomputes everything that was announced as changed.

  changes       breadth-first search over session states: parameter changes with their announcement,
                and quantile requests, in every order, to fixpoint;
  preparations  the same with re-preparations that do or do not supply a mode and a climate;
  announcement  the change level, mode and climate left by a preparation, for every combination of
                previous level, supplied mode and supplied climate, both modes of operation.
"""

import itertools

import core
import itmref as ref
import links
from links import Area, P2P, lrprop, avar, qlra, qlrpfl
from props import c04

PID = 'C07'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a caller announces a change by raising the change level to at least the documented value',
    'the model keeps only the current parameters; it has no level and no cache',
    'graph search merges states only when the whole session is equal, entry by entry',
]
MAX_STATES = 12000
Z = [(0.0, 0.0, 0.0), (-1.2816, 0.5, 1.6449), (2.0, -1.0, 0.3)]
LEVELS = {'dist': 1, 'he': 2, 'wn': 3, 'mdvar': 4, 'klim': 5}
VALUES = {
    'dist': [2.5e4, 2.4e5], 'he': [(10.0, 5.0), (300.0, 40.0)], 'wn': [2.0, 60.0],
    'mdvar': [3, 12], 'klim': [1, 6],
}
ALT = {
    'dist': [6e3, 9e5], 'he': [(2.0, 2.0), (2.0, 900.0)], 'wn': [7.5189, 0.5],
    'mdvar': [20, 1], 'klim': [5, 4],
}
ALT2 = {
    'dist': [1.2e5, 1.3e5], 'he': [(50.0, 50.0), (20.0, 50.0)], 'wn': [20.0, 21.0],
    'mdvar': [33, 2], 'klim': [7, 2],
}
SETS = [VALUES, ALT, ALT2]


def start(values):
    s = links.prepare(links.TYPICAL)
    s = lrprop(values['dist'][0], s)
    s.update(he=list(values['he'][0]), wn=values['wn'][0], mdvar=values['mdvar'][0], klim=values['klim'][0],
             lvar=5, kwx=0)
    return s


def apply(op, s, values):
    kind, arg = op
    if kind == 'Q':
        a, s = avar(*Z[arg], s)
        return s, a
    if kind == 'dist':
        s = lrprop(values['dist'][arg], s)
    elif kind == 'he':
        s['he'] = list(values['he'][arg])
    else:
        s[kind] = values[kind][arg]
    s['lvar'] = max(s['lvar'], LEVELS[kind])
    return s, None


def judge(s, a, params, z, dh):
    sp = ref.spread(params['klim'], params['mdvar'], params['wn'], params['he'], dh, params['dist'])
    want = ref.quantile(sp, float(s['aref']), *z)
    if not core.close(a, want):
        return 'quantile %r is %r, the current parameters %r give %r' % (z, a, params, want)
    if s['lvar'] != 0:
        return 'the change level is %r after a quantile' % (s['lvar'],)
    return None


def canon(session):
    return repr(sorted((str(k), repr(v)) for k, v in session.items()))


def initial(values):
    return {k: v[0] for k, v in values.items()}


def move(op, params, values):
    if op[0] == 'Q':
        return params
    q = dict(params)
    q[op[0]] = values[op[0]][op[1]]
    return q


def changes(chunk, rec):
    si, moved = chunk
    values = SETS[si]
    ops = [('Q', i) for i in range(len(Z))] + [(k, i) for k in moved for i in (0, 1)]
    s0 = start(values)
    p0 = initial(values)
    seen = set()
    frontier = [(s0, p0, ())]
    depth = 0
    while frontier and len(seen) < MAX_STATES and not rec.full:
        nxt = []
        for s, params, history in frontier:
            for op in ops:
                case = dict(kind='changes', set=si, history=list(history) + [op])
                rec.current = case
                c = core.clone(s)
                try:
                    c, a = apply(op, c, values)
                    m = judge(c, a, params, Z[op[1]], links.TYPICAL.dh) if op[0] == 'Q' else None
                except Exception as e:
                    m = 'raised %s: %s' % (type(e).__name__, e)
                rec.transitions += 1
                if m:
                    rec.violation(case, m)
                    continue
                if op[0] == 'Q':
                    rec.outcome(repr(a))
                k = canon(c)
                if k not in seen:
                    seen.add(k)
                    nxt.append((c, move(op, params, values), history + (op,)))
        frontier = nxt
        depth += 1
    rec.capped += bool(frontier) and not rec.full
    rec.states += len(seen)
    rec.traces += len(seen)
    rec.sample(dict(set=si, moved=moved, states=len(seen), depth=depth))


# ------------------------------------------------------------------- preparations

SUPPLIED = [(0, -1), (2, -1), (0, 0), (0, 21), (7, 3), (0, 12)]
PREP_LINKS = [c04.A1, c04.A2, c04.P2, c04.P1]


def prep_start():
    link = PREP_LINKS[0]
    s = links.prepare(link, klim=4, klimx=0, mdvar=3, mdvarx=-1)
    return lrprop(3e4, s), (0, 4, 3, 3e4)


def prep_apply(op, s, model):
    """model: (link index, climate, mode, distance)"""
    li, klim, mdvar, dist = model
    if op[0] == 'R':
        li, (kx, mx) = op[1], SUPPLIED[op[2]]
        link = PREP_LINKS[li]
        inputs = links.area_inputs(link) if isinstance(link, Area) else links.p2p_inputs(link)
        for k in ('lvar', 'klim', 'mdvar', 'kwx', 'klimx', 'mdvarx'):
            inputs.pop(k)
        s.update(inputs)
        s.update(klimx=kx, mdvarx=mx)
        s = qlra([link.k1, link.k2], s) if isinstance(link, Area) else qlrpfl(s)
        klim, mdvar = (kx if kx > 0 else klim), (mx if mx >= 0 else mdvar)
        d, a = c04.attenuation(link)
        if d is None:
            d = 1.2 * a.dlsa
            s = lrprop(d, s)
        return s, (li, klim, mdvar, d), None
    if op[0] == 'D':
        link = PREP_LINKS[li]
        d, a = c04.attenuation(link)
        if d is None:
            d = op[1] * a.dlsa
            s['lvar'] = max(1, s['lvar'])
        s = lrprop(d, s)
        return s, (li, klim, mdvar, d), None
    q, s = avar(*Z[op[1]], s)
    _, a = c04.attenuation(PREP_LINKS[li])
    return s, model, judge(s, q, dict(klim=klim, mdvar=mdvar, wn=a.k.wn, he=a.k.he, dist=dist), Z[op[1]], a.k.dh)


def preparations(first, rec):
    ops = [('R', l, i) for l in range(len(PREP_LINKS)) for i in range(len(SUPPLIED))] + [('Q', 0), ('Q', 1), ('D', 0.5), ('D', 3.0)]
    s0, m0 = prep_start()
    seen, frontier, depth = set(), [(s0, m0, ())], 0
    while frontier and depth < 4 and not rec.full:
        nxt = []
        for s, model, history in frontier:
            for op in (ops if depth else [first]):
                case = dict(kind='prep', history=list(history) + [op])
                rec.current = case
                try:
                    c, mod, m = prep_apply(op, core.clone(s), model)
                except Exception as e:
                    m = 'raised %s: %s' % (type(e).__name__, e)
                rec.transitions += 1
                if m:
                    rec.violation(case, m)
                    continue
                k = canon(c)
                if k not in seen:
                    seen.add(k)
                    nxt.append((c, mod, history + (op,)))
        frontier = nxt
        depth += 1
        if depth == 3 and QUICK:
            break
    rec.states += len(seen)
    rec.traces += len(seen)
    for k in seen:
        rec.outcome(k)
    rec.sample(dict(first=first, states=len(seen), depth=depth))


QUICK = True


# ------------------------------------------------------------------- announcement

MODES = [-1, -7, 0, 1, 2, 3, 10, 11, 12, 13, 20, 23, 30, 33]
CLIMATES = [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8]


def announce_case(li, lvar, mx, kx):
    link = PREP_LINKS[li]
    s = links.prepare(link, lvar=lvar, mdvarx=mx, klimx=kx, mdvar=2, klim=3)
    want = max(lvar, 3, 4 if mx >= 0 else 0, 5 if kx > 0 else 0)
    if not want <= s['lvar'] <= 5:
        return 'change level is %r after preparation, at least %r is announced' % (s['lvar'], want)
    if s['mdvar'] != (mx if mx >= 0 else 2):
        return 'mode is %r (supplied %r, previously 2)' % (s['mdvar'], mx)
    if s['klim'] != (kx if kx > 0 else 3):
        return 'climate is %r (supplied %r, previously 3)' % (s['klim'], kx)
    return None


def announcements(li, rec):
    for lvar in range(6):
        for mx in MODES:
            for kx in CLIMATES:
                case = dict(kind='announce', args=[li, lvar, mx, kx])
                rec.current = case
                rec.states += 1
                rec.transitions += 1
                try:
                    m = announce_case(li, lvar, mx, kx)
                except Exception as e:
                    m = 'raised %s: %s' % (type(e).__name__, e)
                if m:
                    rec.violation(case, m)
                else:
                    rec.traces += 1
                    rec.outcome(lvar, mx, kx)
                    rec.sample(case)


PREVIOUS = [(k, m) for k in (1, 2, 4, 5, 7) for m in (0, 1, 2, 3, 12, 23, 31)]
DEVIATES = [(0.0, 0.0, 0.0), (1.7, 0.5, -0.4), (2.5, -1.0, 1.0), (-1.2, 0.3, 2.0)]


def again_case(li, prev, lvar, mx, kx, rec):
    """A link prepared, quantiles taken, then prepared anew with a mode and climate supplied or not"""
    link = PREP_LINKS[li]
    d, att = c04.attenuation(link)
    klim, mdvar = prev
    s = {}
    dists = [d] if d is not None else [0.7 * att.dlsa, 2.2 * att.dlsa]
    for round_, (k, m) in enumerate(((klim, mdvar), (kx, mx))):
        if round_ == 0:
            s = links.prepare(link, s, klim=k, klimx=k, mdvar=m, mdvarx=m)
        else:
            s.update(klimx=k, mdvarx=m, lvar=lvar)
            s = qlra([link.k1, link.k2], s) if isinstance(link, Area) else qlrpfl(s)
            want = max(lvar, 3, 4 if mx >= 0 else 0, 5 if kx > 0 else 0)
            if not want <= s['lvar'] <= 5:
                return 'change level is %r after the second preparation, at least %r is announced' % (s['lvar'], want)
            klim, mdvar = (k if k > 0 else klim), (m if m >= 0 else mdvar)
        rec.transitions += 1
        for dist in dists:
            if d is None:
                s['lvar'] = max(s['lvar'], 1)
                s = lrprop(dist, s)
            for z in DEVIATES:
                q, s = avar(*z, s)
                rec.transitions += 1
                m = judge(s, q, dict(klim=klim, mdvar=mdvar, wn=att.k.wn, he=att.k.he, dist=dist), z, att.k.dh)
                if m:
                    return m
    return None


def again(chunk, rec):
    li, prev = chunk
    for mx in MODES:
        for kx in CLIMATES:
            for lvar in (0, 2):
                case = dict(kind='again', args=[li, list(prev), lvar, mx, kx])
                rec.current = case
                rec.states += 1
                try:
                    m = again_case(li, prev, lvar, mx, kx, rec)
                except ref.Undefined:
                    raise
                except Exception as e:
                    m = 'raised %s: %s' % (type(e).__name__, e)
                if m:
                    rec.violation(case, m)
                    if rec.full:
                        return
                else:
                    rec.traces += 1
                    rec.outcome(prev, mx, kx)
                    rec.sample(case)


# ------------------------------------------------------------------- one announced change, every pair of values

PAIR_VALUES = {
    'klim': [1, 2, 3, 4, 5, 6, 7, 0, 9], 'mdvar': [m + x for x in (0, 10, 20, 30) for m in (0, 1, 2, 3)] + [-1, 7, 14],
    'wn': [0.42, 2.0, 2.001, 7.5189, 60.0, 420.0], 'dist': [1e3, 2e4, 2.0001e4, 1.3e5, 2.4e5, 1e6],
    'he': [(10.0, 5.0), (5.0, 10.0), (10.0, 300.0), (10.001, 5.0), (1000.0, 1000.0)],
}
CONTEXTS = [dict(klim=k, mdvar=m, wn=2.0, dist=2e4, he=(10.0, 5.0)) for k in (1, 4, 5) for m in (3, 10, 21, 32)]


def pair_case(ctx, name, old, new, level, rec):
    p = dict(CONTEXTS[ctx])
    s = links.prepare(links.TYPICAL)
    for step, (value, lv) in enumerate(((old, 5), (new, level), (old, level), (new, 5), (old, level))):
        p[name] = value
        if step == 0:
            s = lrprop(p['dist'], s)
            s.update(he=list(p['he']), wn=p['wn'], mdvar=p['mdvar'], klim=p['klim'])
        elif name == 'dist':
            s = lrprop(value, s)
        else:
            s[name] = list(value) if name == 'he' else value
        s['lvar'] = max(s['lvar'], lv)
        for z in DEVIATES:
            q, s = avar(*z, s)
            rec.transitions += 1
            m = judge(s, q, p, z, links.TYPICAL.dh)
            if m:
                return 'step %d: %s' % (step, m)
            if name != 'klim' and name != 'mdvar' and (s['klim'], s['mdvar']) != (p['klim'], p['mdvar']):
                return 'the climate or mode changed'
    return None


def pairs(chunk, rec):
    ctx, name, old = chunk
    for new in PAIR_VALUES[name]:
        for level in range(LEVELS[name], 6):
            case = dict(kind='pair', args=[ctx, name, old, new, level])
            rec.current = case
            rec.states += 1
            try:
                m = pair_case(ctx, name, old, new, level, rec)
            except Exception as e:
                m = 'raised %s: %s' % (type(e).__name__, e)
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
            else:
                rec.traces += 1
                rec.outcome(ctx, name, old, new)
                rec.sample(case)


def spaces(grade):
    global QUICK
    QUICK = grade == 'small'
    prep_ops = [('R', l, i) for l in range(len(PREP_LINKS)) for i in range(len(SUPPLIED))] + [('Q', 0), ('Q', 1), ('D', 0.5), ('D', 3.0)]
    sets = range(len(SETS))
    return [
        core.Space('announced changes', [(i, m) for i in sets for m in itertools.combinations(sorted(LEVELS), 4 if QUICK else 5)], changes,
                   'every sequence of announced changes of %s parameters (2 values each) and quantile '
                   'requests, as a graph to fixpoint, for %d value sets' % ('any 4' if QUICK else 'all 5', len(SETS))),
        core.Space('preparations', prep_ops, preparations,
                   'sequences of re-preparations with every combination of supplied/kept mode and climate, '
                   'distance changes and quantiles, to depth %d' % (3 if QUICK else 4)),
        core.Space('announcement', range(len(PREP_LINKS)), announcements,
                   'previous level x supplied mode x supplied climate x link: full product'),
        core.Space('prepared again', [(li, p) for li in ((0, 2) if grade in ('small', 'medium') else range(len(PREP_LINKS))) for p in PREVIOUS], again,
                   'mode and climate served before x supplied mode x supplied climate x level, with quantiles before and after'),
        core.Space('value pairs', [(c, n, v) for c in range(len(CONTEXTS)) for n in sorted(PAIR_VALUES) for v in PAIR_VALUES[n]], pairs,
                   'each parameter from every listed value to every other and back, announced at every sufficient level'),
    ]


def replay(case):
    if case['kind'] == 'announce':
        return announce_case(*case['args'])
    if case['kind'] == 'again':
        li, prev, lvar, mx, kx = case['args']
        return again_case(li, tuple(prev), lvar, mx, kx, core.Recorder())
    if case['kind'] == 'pair':
        ctx, name, old, new, level = case['args']
        t = lambda v: tuple(v) if isinstance(v, list) else v
        return pair_case(ctx, name, t(old), t(new), level, core.Recorder())
    if case['kind'] == 'prep':
        s, model = prep_start()
        for op in case['history']:
            s, model, m = prep_apply(tuple(op), s, model)
            if m:
                return m
        return None
    values = SETS[case['set']]
    s, params = start(values), initial(values)
    for op in case['history']:
        op = tuple(op)
        s, a = apply(op, s, values)
        if op[0] == 'Q':
            m = judge(s, a, params, Z[op[1]], links.TYPICAL.dh)
            if m:
                return m
        params = move(op, params, values)
    return None
