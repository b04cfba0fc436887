"""
C01: area-mode results do not depend on the history of calls.

Two explorations of the real lrprop/avar:
  graph      breadth-first search over whole-session states (every entry of the dict), to fixpoint;
  sequences  every operation sequence up to a depth, each replayed from a fresh session, with no
             deduplication (so state hidden outside the session would show too).
Oracle after every operation: the history-free reference model.
"""
import itertools

import core
import itmref as ref
import links
from links import lrprop, avar

PID = 'C01'
QUICK_GRADE = 'medium'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a caller announces a changed distance with change level 1 before asking for a quantile, as the '
    'manual requires',
    'alphabet: the listed distances (relative to each link\'s regions) and deviate triples',
    'graph search merges states only when the whole session is equal, entry by entry',
]
MAX_STATES = 1500
Z = [(0.0, 0.0, 0.0), (-1.2816, 0.5, 1.6449), (3.0, 3.0, 3.0)]
KLIM, MDVAR = 6, 3


def alphabet(att, rich):
    l = att.dlsa
    d = [0, 0.35 * l, 0.9 * l, l, 1.3 * l, 3e6]
    x = att.scat().dx
    if x < 9e6:
        d += [1.4 * x]
    if rich:
        d += [500.0, 0.999999999 * l, 1.05 * att.dla]
        if x < 9e6:
            d += [x, 0.97 * x]
    return [('L', v) for v in sorted(set(d))] + [('Q', i) for i in range(3 if rich else 2)]


def start(link):
    return links.prepare(link, klim=3, klimx=KLIM, mdvar=0, mdvarx=MDVAR)


def apply(op, session):
    """Runs one operation on the real code; returns (session, observation)"""
    kind, arg = op
    if kind == 'L':
        session = lrprop(arg, session)
        session['lvar'] = max(1, session['lvar'])
        return session, [session['aref'], session['dist']]
    a, session = avar(*Z[arg], session)
    return session, [a]


def expected(op, dist, att):
    kind, arg = op
    if kind == 'L':
        return [att.aref(arg), arg]
    sp = ref.spread(KLIM, MDVAR, att.k.wn, att.k.he, att.k.dh, dist)
    return [ref.quantile(sp, att.aref(dist), *Z[arg])]


def coefficients(op, session, att):
    """Published coefficients of the region just evaluated: (observed, expected, names)"""
    if op[0] != 'L':
        return None
    d = op[1]
    out = [(n, s) for n, s in links.REGIONS]
    obs = links.observe_regions(session)
    exp = links.reference_regions(att)
    if d < att.dlsa:
        out += links.LOS
        obs += [session[n] for n, _ in links.LOS]
        exp += list(att.los())
    if d <= 0 or d >= att.dlsa:
        out += links.SCAT
        obs += [session[n] for n, _ in links.SCAT]
        exp += list(att.scat())
    return out, obs, exp


def step(op, session, dist, att, link):
    """Returns (session, message or None, tie)"""
    try:
        session, obs = apply(op, session)
        exp = expected(op, dist, att)
        bad = links.mismatch(obs, exp, [1e-6, 0])
        pub = coefficients(op, session, att)
    except ref.Undefined:
        raise
    except Exception as e:
        return session, 'raised %s: %s' % (type(e).__name__, e), False
    if bad is not None:
        def again(_, a):
            return expected(op, dist, a)
        bounds = links.allowed(link, again)
        if bounds is not None and not links.within(obs, bounds, [1e-6, 0]):
            return session, '%s gives %r, a fresh session gives %r' % (op, obs, exp), False
        return session, None, True
    if pub is not None:
        names, obs, exp = pub
        bad = links.mismatch(obs, exp, [s for _, s in names])
        if bad is not None:
            bounds = links.allowed(link, lambda _, a: _pub(op, a))
            if bounds is not None and not links.within(obs, bounds, [s for _, s in names]):
                return session, 'after %s, %s is %r, a fresh session has %r' % (
                    op, names[bad][0], obs[bad], exp[bad]), False
            return session, None, True
    return session, None, False


def _pub(op, a):
    v = links.reference_regions(a)
    if op[1] < a.dlsa:
        v += list(a.los())
    if op[1] <= 0 or op[1] >= a.dlsa:
        v += list(a.scat())
    return v


def canon(session):
    return repr(sorted((str(k), repr(v)) for k, v in session.items()))


def graph(chunk, rec):
    for link, rich in chunk:
        try:
            _, att = links.reference(link)
            ops = alphabet(att, rich)
        except ref.Undefined:
            rec.undefined += 1
            continue
        rec.current = dict(link=links.encode(link), history=[])
        first = start(link)
        seen = {canon(first)}
        frontier = [(first, None, ())]
        while frontier and not rec.full:
            nxt = []
            for session, dist, history in frontier:
                for op in ops:
                    if op[0] == 'Q' and dist is None:
                        continue
                    case = dict(link=links.encode(link), history=list(history) + [op])
                    rec.current = case
                    s, message, tie = step(op, core.clone(session), dist, att, link)
                    rec.transitions += 1
                    rec.ties += tie
                    if message:
                        rec.violation(case, message)
                        continue
                    k = canon(s)
                    if k not in seen:
                        seen.add(k)
                        nxt.append((s, op[1] if op[0] == 'L' else dist, history + (op,)))
            frontier = nxt
            if frontier and len(seen) > MAX_STATES:
                rec.capped += 1
                break
        rec.states += len(seen)
        rec.traces += len(seen)
        for k in seen:
            rec.outcome(k)
        rec.sample(dict(link=links.encode(link), states=len(seen), operations=ops))


def sequences(chunk, rec):
    for link, depth in chunk:
        try:
            _, att = links.reference(link)
            ops = [o for o in alphabet(att, False)]
        except ref.Undefined:
            rec.undefined += 1
            continue
        for seq in itertools.product(ops, repeat=depth):
            if seq[0][0] == 'Q':
                continue
            message, tie = run(link, att, seq, rec)
            rec.ties += tie
            if message:
                rec.violation(dict(link=links.encode(link), history=list(seq)), message)
                break
        if rec.full:
            return


def de_bruijn(k, n):
    """A cyclic word over 0..k-1 that contains every word of length n exactly once"""
    a, out = [0] * k * n, []

    def grow(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        grow(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            grow(t + 1, t)
    grow(1, 1)
    return out + out[:n - 1]


SHARED = [2000, 10000.0, 50000.0, 150000, 200000.0, 999999.0]        # the same for every link


def long_history(chunk, rec):
    for link, order in chunk:
        try:
            _, att = links.reference(link)
            l, x = att.dlsa, att.scat().dx
            d = [0.35 * l, 0.9 * l, 1.3 * l] + ([1.4 * x] if x < 9e6 else [])
            if order == 2:
                d += [0.9995 * l, 1.0005 * l, 0.9995 * x, 1.0005 * x, att.dla, att.dmin]
                d = [v + e for v in d if 0 < v < 9e6 for e in (0, 0.3, 60.0)] + SHARED
            ops = [('L', v) for v in [0] + d] + [('Q', i) for i in range(len(Z))]
        except ref.Undefined:
            rec.undefined += 1
            continue
        seq = [ops[i] for i in de_bruijn(len(ops), order)]
        message, tie = run(link, att, seq, rec)
        rec.ties += tie
        if message:
            rec.violation(dict(link=links.encode(link), history=rec.current['history']), message)
        if rec.full:
            return


def run(link, att, seq, rec):
    rec.current = dict(link=links.encode(link), history=list(seq))
    session, dist, ties = start(link), None, False
    for n, op in enumerate(seq):
        session, message, tie = step(op, session, dist, att, link)
        rec.transitions += 1
        ties = ties or tie
        if message:
            rec.current['history'] = list(seq[:n + 1])
            return message, False
        if op[0] == 'L':
            dist = op[1]
    rec.traces += 1
    rec.states += 1
    rec.outcome(tuple(seq))
    return None, ties


def spaces(grade):
    reps = links.representatives()
    more = []
    depth = 3
    if grade in ('large', 'huge'):
        depth = 4
        wide = grade == 'huge'
        more = [l for b in links.BASES for a in (('fmhz', 'h1', 'h2', 'dh', 'en0', 'ground') if wide else ('fmhz', 'h1', 'dh')) for v in links.AXES[a][::1 if wide else 2]
                for l in [links.setting(b, a, v)]]
    return [
        core.Space('all sequences', core.chunked([(l, depth) for l in reps], 50), sequences,
                   'every sequence of exactly %d operations (hence every shorter one as a prefix), each '
                   'from a fresh session, no merging' % depth),
        core.Space('long histories', core.chunked([(l, o) for l in reps for o in (2, 3)], 60), long_history,
                   'one uninterrupted history per link that contains every pair of requests of a rich '
                   'alphabet (neighbouring distances, distances shared by all links) and one that contains '
                   'every triple of a smaller one (de Bruijn words)'),
        core.Space('session state graph', core.chunked([(l, True) for l in reps + more], 100), graph,
                   'all session states reachable by any sequence of distance and quantile requests, '
                   'to fixpoint, for one link per branch signature'),
    ]


def replay(case):
    link = links.decode(case['link'])
    _, att = links.reference(link)
    rec = core.Recorder()
    return run(link, att, [tuple(o) for o in case['history']], rec)[0]
