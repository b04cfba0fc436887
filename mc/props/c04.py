"""
C04: a session can be reused for a new link.

  graph    breadth-first search over whole-session states for every set of three links out of
           area and point-to-point links: prepare any of them, ask for distances and quantiles;
  changes  for every base link and every single parameter change: A, B, A, B ... in one session,
           in the styles a caller uses (new values, lists edited in place).
"""
import itertools

import core
import itmref as ref
import links
import profiles
from links import Area, P2P, lrprop, avar, qlra, qlrpfl

PID = 'C04'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'a caller sets every input of the new link before preparing it and clears the warning marker, as '
    'the manual\'s suggested program flow does',
    'graph search merges states only when the whole session is equal, entry by entry',
]
MAX_STATES = 6000
Z = [(0.0, 0.0, 0.0), (-1.2816, 0.5, 1.6449)]

A1 = links.TYPICAL
A2 = Area(3000.0, 500.0, 100.0, 5.0, 2, 1, 370.0, 0.0, 81, 5.0, 0)
A3 = Area(20.0, 1.5, 1.5, 0.0, 0, 0, 280.0, 0.0, 4, 0.001, 1)
SHAPES = dict(profiles.shaped(12))
P1 = P2P(300.0, 10.0, 3.0, 301.0, 0.0, 15, 0.005, 1, 900.0, SHAPES['rolling'])       # short, los
P2 = P2P(900.0, 30.0, 10.0, 330.0, 0.0, 25, 0.02, 0, 4000.0, SHAPES['twin'])         # two horizons
P3 = P2P(50.0, 5.0, 5.0, 301.0, 500.0, 4, 0.001, 1, 25000.0, SHAPES['dome'])         # scatter
P4 = P2P(1000.0, 20.0, 40.0, 314.0, 0.0, 15, 0.005, 0, 1500.0, SHAPES['bowl'][:6])   # shorter profile
A4 = Area(20.0, 1000.0, 900.0, 0.0, 0, 0, 301.0, 0.0, 15, 0.005, 0)                    # large frequency gain
A5 = Area(15000.0, 100.0, 300.0, 1000.0, 0, 2, 301.0, 0.0, 15, 0.005, 0)               # scatter at once
P5 = P2P(150.0, 3.0, 200.0, 360.0, 0.0, 81, 5.0, 1, 7000.0, SHAPES['rough'])
P6 = P2P(300.0, 400.0, 3.0, 301.0, 0.0, 15, 0.005, 1, 110.0, SHAPES['rolling'])     # high, short
P7 = P2P(300.0, 40.0, 30.0, 301.0, 0.0, 15, 0.005, 1, 110.0, SHAPES['rolling'])     # short
P8 = P2P(1000.0, 300.0, 30.0, 301.0, 0.0, 15, 0.005, 0, 120.0, (5.0,) * 12)         # short and flat
POOL = [A1, P2, A2, P1, P3, A3, P4, A4, A5, P5]
VAR = {0: dict(klim=5, klimx=0, mdvar=12, mdvarx=-1), 1: dict(klim=5, klimx=2, mdvar=0, mdvarx=3),
       2: dict(klim=7, klimx=0, mdvar=21, mdvarx=-1)}


def variability(link):
    return VAR[POOL.index(link) % 3] if link in POOL else VAR[1]


def effective(v):
    return (v['klimx'] if v['klimx'] > 0 else v['klim'],
            v['mdvarx'] if v['mdvarx'] >= 0 else v['mdvar'])


_ATT = {}


def attenuation(link):
    if link not in _ATT:
        d, a = links.reference(link)
        a.scat(), a.los()
        _ATT[link] = (d, a)
    return _ATT[link]


def operations(link, n=3):
    ops = [('P', i) for i in range(n)]
    if link is None:
        return ops
    d, a = attenuation(link)
    if d is None:
        ops += [('L', 0), ('L', 0.5 * a.dlsa), ('L', 1.4 * a.scat().dx if a.scat().dx < 9e6 else 1.5 * a.dlsa)]
    else:
        ops += [('L', 0)]
    return ops + [('Q', 0), ('Q', 1)]


def compare_session(session, link, dist):
    d, a = attenuation(link)
    obs = links.observe_geometry(session) + links.observe_regions(session) + [session['aref'], session['dist']]
    exp = lambda d, a: links.reference_geometry(a) + links.reference_regions(a) + [
        a.aref(dist if d is None else d), dist if d is None else d]
    names = links.GEOMETRY + links.REGIONS + [('aref', 1e-6), ('dist', 1e-6)]
    scales = [s for _, s in names]
    if d is not None:
        obs.append(session['dh'])
        names = names + [('dh', 1e-6)]
        scales.append(1e-6)
        old = exp
        exp = lambda d, a: old(d, a) + [a.k.dh]
    i = links.mismatch(obs, exp(d, a), scales)
    if i is not None:
        bounds = links.allowed(link, exp)
        if bounds is not None and not links.within(obs, bounds, scales):
            return '%s is %r, a new session has %r' % (names[i][0], obs[i], exp(d, a)[i])
    return None


def check_quantile(value, link, dist, z, var=None):
    d, a = attenuation(link)
    klim, mdvar = effective(var or variability(link))

    def exp(d, a):
        at = dist if d is None else d
        sp = ref.spread(klim, mdvar, a.k.wn, a.k.he, a.k.dh, at)
        return [ref.quantile(sp, a.aref(at), *z)]
    if links.mismatch([value], exp(d, a), [1e-6]) is not None:
        bounds = links.allowed(link, exp)
        if bounds is not None and not links.within([value], bounds, [1e-6]):
            return 'quantile %r is %r, a new session gives %r' % (z, value, exp(d, a)[0])
    return None


def check_marker(session, link, dists, extra=0):
    """The marker was cleared for this link; dists are those asked for since"""
    d, a = attenuation(link)

    def exp(d, a):
        return [max([extra, a.link_warning()] + [a.distance_warning(x if d is None else d) for x in dists])]
    if session['kwx'] != exp(d, a)[0]:
        bounds = links.allowed(link, exp)
        if bounds is not None and not bounds[0][0] <= session['kwx'] <= bounds[0][1]:
            return 'the warning marker is %r, a new session has %r' % (session['kwx'], exp(d, a)[0])
    return None


def step(op, session, link, dist, trio):
    """-> session, link, dist, message"""
    kind, arg = op
    try:
        if kind == 'P':
            link = trio[arg]
            session = links.prepare(link, session, **variability(link))
            if isinstance(link, P2P):
                return session, link, None, compare_session(session, link, None)
            return session, link, None, None
        if kind == 'L':
            session = lrprop(arg, session)
            session['lvar'] = max(1, session['lvar'])
            return session, link, arg, compare_session(session, link, arg)
        a, session = avar(*Z[arg], session)
        return session, link, dist, check_quantile(a, link, dist, Z[arg])
    except ref.Undefined:
        raise
    except Exception as e:
        return session, link, dist, 'raised %s: %s' % (type(e).__name__, e)


def canon(session):
    return repr(sorted((str(k), repr(v)) for k, v in session.items()))


def graph(trio, rec):
    start = {}
    seen = set()
    frontier = [(start, None, None, ())]
    while frontier and len(seen) < MAX_STATES and not rec.full:
        nxt = []
        for session, link, dist, history in frontier:
            for op in operations(link, len(trio)):
                if op[0] == 'Q' and isinstance(link, Area) and dist is None:
                    continue
                case = dict(trio=[links.encode(l) for l in trio], history=list(history) + [op])
                rec.current = case
                s, l, d, message = step(op, core.clone(session), link, dist, trio)
                rec.transitions += 1
                if message:
                    rec.violation(case, message)
                    continue
                k = canon(s) + repr(l)
                if k not in seen:
                    seen.add(k)
                    nxt.append((s, l, d, history + (op,)))
        frontier = nxt
    rec.capped += bool(frontier) and not rec.full
    rec.states += len(seen)
    rec.traces += len(seen)
    for k in seen:
        rec.outcome(k)
    rec.sample(dict(trio=[links.encode(l) for l in trio], states=len(seen)))


# ------------------------------------------------------------------- one-parameter changes

P_BASES = [P1, P2, P3, P4]


def changed(base):
    """Every link one parameter away"""
    if isinstance(base, Area):
        for a in sorted(links.AXES):
            for v in links.AXES[a]:
                l = links.setting(base, a, v)
                if l != base:
                    yield l
        return
    for a in ('fmhz', 'h1', 'h2', 'en0', 'zsys', 'ground', 'ipol'):
        for v in links.AXES[a][::2]:
            l = links.setting(base, a, v)
            if l != base:
                yield l
    for f in (0.5, 0.9, 1.1, 3.0):
        yield base._replace(xi=base.xi * f)
    for i in range(len(base.z)):
        for v in (-40.0, 15.0, 300.0):
            yield base._replace(z=base.z[:i] + (base.z[i] + v,) + base.z[i + 1:])
    for n in range(3, len(base.z)):
        yield base._replace(z=base.z[:n])
    yield base._replace(z=tuple(reversed(base.z)))


def in_place(session, link, var):
    """Re-prepares by editing the lists already in the session, as the campaign runner does"""
    new = links.area_inputs(link) if isinstance(link, Area) else links.p2p_inputs(link)
    for k, v in new.items():
        if isinstance(v, list) and isinstance(session.get(k), list):
            session[k][:] = v
        else:
            session[k] = v
    session.update(var)
    return qlra([link.k1, link.k2], session) if isinstance(link, Area) else qlrpfl(session)


def fresh_values(session, link, var):
    return links.prepare(link, session, **var)


STYLES = [fresh_values, in_place]


def serve(session, link, style, var, rec):
    session = STYLES[style](session, link, var)
    rec.transitions += 1
    d, a = attenuation(link)
    asked = []
    for dist in ([None] if d is not None else [0.6 * a.dlsa, 1.6 * a.dlsa]):
        if d is None:
            session['lvar'] = max(1, session['lvar'])
            session = lrprop(dist, session)
            rec.transitions += 1
        asked.append(dist)
        message = compare_session(session, link, dist) or check_marker(session, link, asked)
        if message:
            return session, message
        for z in Z:
            q, session = avar(*z, session)
            rec.transitions += 1
            message = check_quantile(q, link, dist, z, var)
            if message:
                return session, message
    return session, None


def alternate(a, b, style, rec):
    """A B A B in one session; the last B by the other style"""
    session = {}
    for i, (link, st) in enumerate(((a, 0), (b, style), (a, style), (b, 1 - style))):
        try:
            session, message = serve(session, link, st, VAR[1 if i % 2 else 2], rec)
        except ref.Undefined:
            raise
        except Exception as e:
            message = 'raised %s: %s' % (type(e).__name__, e)
        if message:
            return 'as link %d of the session: %s' % (i + 1, message)
    return None


def changes(chunk, rec):
    for a, b in chunk:
        for style in (0, 1):
            case = dict(a=links.encode(a), b=links.encode(b), style=style)
            rec.current = case
            try:
                attenuation(a), attenuation(b)
            except ref.Undefined:
                rec.undefined += 1
                break
            message = alternate(a, b, style, rec)
            rec.states += 1
            if message:
                rec.violation(case, message)
                if rec.full:
                    return
            else:
                rec.traces += 1
                rec.outcome(b, style)
                rec.sample(case)
    _ATT.clear()


# ------------------------------------------------------------------- variability settings in turn

KLIMX = [0, 1, 7, 9]                                  # 9 is no climate: the manual's default applies
MDVARX = [-1, 0, 1, 2, 3, 10, 13, 20, 33, 37]         # 37 is no mode either
SETTINGS = [(k, m) for k in KLIMX for m in MDVARX]


def settings_in_turn(links_, turns, rec):
    """Links prepared one after another; the climate or mode is asked for, or left as the session has it"""
    session, klim, mdvar = {}, 5, 12
    for i, (link, (klimx, mdvarx)) in enumerate(zip(links_, turns)):
        new = links.area_inputs(link) if isinstance(link, Area) else links.p2p_inputs(link)
        if i:
            for k in ('klim', 'mdvar', 'lvar'):
                new.pop(k)
        session.update(new, klimx=klimx, mdvarx=mdvarx)
        try:
            session = qlra([link.k1, link.k2], session) if isinstance(link, Area) else qlrpfl(session)
            klim, mdvar = klimx if klimx > 0 else klim, mdvarx if mdvarx >= 0 else mdvar
            dist = None
            if isinstance(link, Area):
                dist = 1.2 * attenuation(link)[1].dlsa
                session['lvar'] = max(1, session['lvar'])
                session = lrprop(dist, session)
            rec.transitions += 2
            for z in Z:
                q, session = avar(*z, session)
                rec.transitions += 1
                m = check_quantile(q, link, dist, z, dict(klim=klim, klimx=0, mdvar=mdvar, mdvarx=-1))
                wrong = max(ref.effective_climate(klim)[1] if klimx > 0 else 0,
                            ref.effective_mode(mdvar)[3] if klimx > 0 or mdvarx >= 0 else 0)
                m = m or check_marker(session, link, [dist], wrong)
                if m:
                    return 'as link %d, climate %d and mode %d: %s' % (i + 1, klim, mdvar, m)
            klim = ref.effective_climate(klim)[0]
        except ref.Undefined:
            raise
        except Exception as e:
            return 'as link %d: raised %s: %s' % (i + 1, type(e).__name__, e)
    return None


def turns(chunk, rec):
    first, pairs = chunk
    for second, many in itertools.product(SETTINGS, pairs):
        third = SETTINGS[(SETTINGS.index(first) * 7 + SETTINGS.index(second) * 3) % len(SETTINGS)]
        case = dict(links=[links.encode(l) for l in many], turns=[first, second, third])
        rec.current = case
        m = settings_in_turn(many, (first, second, third), rec)
        rec.states += 1
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.sample(case)


def spaces(grade):
    trios = list(itertools.combinations(POOL, 3))
    bases = [A1, A2] + P_BASES if grade == 'small' else links.BASES + [A2, A3] + P_BASES
    pairs = [(b, c) for b in bases for c in changed(b)]
    if grade in ('large', 'huge'):
        reps = links.representatives()
        pairs += [(a, b) for a in reps for b in reps if a != b]
        reps = links.path_representatives()
        pairs += [(a, b) for a in reps for b in reps[::2] if a != b]
    elif grade != 'small':
        reps = links.representatives()[::4] + links.path_representatives()[::4]
        pairs += [(a, reps[(i + k) % len(reps)]) for i, a in enumerate(reps) for k in range(1, 12)]
    if grade == 'huge':
        trios += list(itertools.combinations(POOL, 4))
    wider = POOL + [P6, P7, P8]
    mixed = [(a, b) for a in wider for b in wider if a != b]
    return [
        core.Space('session graph over several links', trios, graph,
                   'all session states reachable by preparing any of three (thorough: or four) links in any order and asking '
                   'for distances and quantiles, for all %d choices out of a pool of %d links' % (len(trios), len(POOL))),
        core.Space('single parameter changes', core.chunked(pairs + mixed, 64), changes,
                   'A,B,A,B in one session for every base A and every B one parameter away, and all ordered '
                   'pairs of the pool and three very short paths; lists replaced or edited in place'),
        core.Space('variability settings in turn', [(f, [(P1, P2, P1), (A1, A2, A1), (A1, P2, A3), (P3, A1, P3)]) for f in SETTINGS], turns,
                   'every ordered pair of 40 climate/mode requests (or none: the session keeps what it has), then a third, over 4 triples of links'),
    ]


def replay(case):
    rec = core.Recorder()
    if 'turns' in case:
        return settings_in_turn([links.decode(l) for l in case['links']], [tuple(t) for t in case['turns']], rec)
    if 'trio' in case:
        trio = [links.decode(l) for l in case['trio']]
        session, link, dist = {}, None, None
        for op in case['history']:
            session, link, dist, message = step(tuple(op), session, link, dist, trio)
            if message:
                return message
        return None
    return alternate(links.decode(case['a']), links.decode(case['b']), case['style'], rec)
