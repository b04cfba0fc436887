"""
C18: the tables the runner functions return.

Expected tables are built from the reference model for the values the runners document (their fixed
percentages, distances and environment) and the caller's own parameters and terrain.
"""
import itertools

import core
import itmref as ref
import links
import profiles
import scripts
from links import Area, P2P

PID = 'C18'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the combinations a runner is asked for are the lists fixed in the scripts (3 confidence levels, 22 distances in '
    'area mode; 5 reliability by 3 confidence levels in point-to-point mode; 121 heights in the campaign runner)',
    'parameters, profiles and run sequences from the stated complete sets; losses compared to 1e-6 dB',
]
AREA_KM = list(range(10, 151, 10)) + list(range(200, 501, 50))
CONFIDENCE = (50, 90, 10)
RELIABILITY = (1, 10, 50, 90, 99)
TOL = 2e-6


def dev(percent):
    return ref.deviate(percent / 100)


# ---------------------------------------------------------------------------- expected tables

def area_link(p):
    fmhz, h1, h2, dh, ipol = p
    return Area(fmhz, h1, h2, dh, 2, 2, 301, 0, 15, 0.001, ipol)


def area_model(_, att):
    out = []
    for km in AREA_KM:
        d = km * 1000.0
        sp = ref.spread(5, 3, att.k.wn, att.k.he, att.k.dh, d)
        for c in CONFIDENCE:
            out.append(ref.free_space(att.k.wn, d) + ref.quantile(sp, att.aref(d), dev(50), dev(50), dev(c)))
    return out


AREA_KEYS = [(float(km), c) for km in AREA_KM for c in CONFIDENCE]


def p2p_link(p, z):
    fmhz, h1, h2, km, ipol = p
    return P2P(fmhz, h1, h2, 314, 0, 15, 0.005, ipol, km * 1000.0 / (len(z) - 1), tuple(z))


def p2p_model(d, att):
    sp = ref.spread(5, 11, att.k.wn, att.k.he, att.k.dh, d)
    return [ref.free_space(att.k.wn, d) + ref.quantile(sp, att.aref(d), dev(r), 0.0, dev(c))
            for r in RELIABILITY for c in CONFIDENCE]


P2P_KEYS = [(r, c) for r in RELIABILITY for c in CONFIDENCE]
HEIGHTS = list(range(10, 131))


def campaign_link(z, xi, height):
    return P2P(2488.0, 2.56, height, 314, 0, 15, 0.005, 1, xi, tuple(z))


def campaign_model(d, att):
    sp = ref.spread(5, 11, att.k.wn, att.k.he, att.k.dh, d)
    return [ref.free_space(att.k.wn, d) + ref.quantile(sp, att.aref(d), dev(50), 0.0, dev(50))]


# ---------------------------------------------------------------------------- judging

def keyed(rows, keys, what):
    """{key: value} for an observed list of (key, value), or a message"""
    table = {}
    for k, v in rows:
        if k in table:
            return None, 'row %r occurs twice' % (k,)
        table[k] = v
    if set(table) != set(keys) or len(rows) != len(keys):
        missing = sorted(set(keys) - set(table), key=repr)[:3]
        extra = sorted(set(table) - set(keys), key=repr)[:3]
        return None, '%s: %d rows, expected %d; missing %r, unexpected %r' % (what, len(rows), len(keys), missing, extra)
    return table, None


def compare(table, keys, link, model, rec):
    d, att = links.reference(link)
    want = model(d, att)
    got = [table[k] for k in keys]
    i = links.mismatch(got, want, [TOL] * len(want))
    if i is None:
        return None
    bounds = links.allowed(link, model)
    if bounds is None or links.within(got, bounds, [TOL] * len(want)):
        rec.ties += 1
        return None
    return 'row %r has loss %r, the model gives %r' % (keys[i], got[i], want[i])


def area_inputs(p):
    fmhz, h1, h2, dh, ipol = p
    return {'hg': [h1, h2], 'fmhz': fmhz, 'dh': dh, 'ipol': ipol}


def p2p_inputs(p):
    fmhz, h1, h2, km, ipol = p
    return {'fmhz': fmhz, 'd': km, 'hg': [h1, h2], 'ipol': ipol}


def area_run(module, p, given, rec):
    """Runs one area runner with a parameter dictionary; (message, rows)"""
    with scripts.quiet():
        out = scripts.load(module).itmlogic_area(given)
    rec.transitions += 1
    rows = [((float(r['distance_km']), r['confidence_level_%']), r['propagation_loss_dB']) for r in out]
    table, m = keyed(rows, AREA_KEYS, module)
    m = m or compare(table, AREA_KEYS, area_link(p), area_model, rec)
    return m, [(k, float(v)) for k, v in rows]


def p2p_run(module, p, z, given, rec):
    profile = list(z)
    with scripts.quiet():
        out = scripts.load(module).itmlogic_p2p(given, profile)
    rec.transitions += 1
    if profile != list(z):
        return 'the profile was changed', None
    for r in out:
        if not core.close(r['distance_km'], p[3], 1e-9):
            return 'row labelled %r km, the path has %r km' % (r['distance_km'], p[3]), None
    rows = [((r['reliability_level_%'], r['confidence_level_%']), r['propagation_loss_dB']) for r in out]
    table, m = keyed(rows, P2P_KEYS, module)
    m = m or compare(table, P2P_KEYS, p2p_link(p, z), p2p_model, rec)
    return m, [(k, float(v)) for k, v in rows]


def campaign_run(z, xi, rec):
    profile, distances = list(z), [i * xi for i in range(len(z))]
    with scripts.quiet():
        out = scripts.load('pimter').run_itmlogic(profile, distances)
    rec.transitions += len(out)
    if profile != list(z):
        return 'the profile was changed', None
    keys = [(2488.0, h, 50) for h in HEIGHTS]
    rows = [((round(float(r[0]), 6), r[1], r[2]), r[3]) for r in out]
    table, m = keyed(rows, keys, 'pimter')
    for k in keys if m is None else ():
        try:
            links.reference(campaign_link(z, xi, k[1]))[1].los()
        except ref.Undefined:
            rec.undefined += 1
            continue
        m = compare({k: table[k]}, [k], campaign_link(z, xi, k[1]), campaign_model, rec)
        if m:
            break
    return m, [(k, float(v)) for k, v in rows]


# ---------------------------------------------------------------------------- spaces

def guarded(f, case, rec):
    rec.current = case
    try:
        m = f()
    except ref.Undefined:
        rec.undefined += 1
        return
    except Exception as e:
        m = 'raised %s: %s' % (type(e).__name__, e)
    if m:
        rec.violation(case, m)
    else:
        rec.traces += 1
        rec.sample(case)


def area_case(module, p):
    rec = core.Recorder()
    return _area_case(module, p, rec)


def _area_case(module, p, rec):
    links.reference(area_link(p))[1].los()
    links.reference(area_link(p))[1].scat()
    m, rows = area_run(module, p, area_inputs(p), rec)
    rec.outcome(module, repr(rows and rows[0]))
    return m


def areas(chunk, rec):
    module, points = chunk
    for p in points:
        rec.states += 1
        guarded(lambda: _area_case(module, p, rec), dict(kind='area', module=module, p=list(p)), rec)
        if rec.full:
            return


def _p2p_case(module, p, z, rec):
    links.reference(p2p_link(p, z))[1].los()
    m, rows = p2p_run(module, p, z, p2p_inputs(p), rec)
    rec.outcome(module, repr(rows and rows[0]))
    return m


def p2ps(chunk, rec):
    module, points = chunk
    for p, z in points:
        rec.states += 1
        guarded(lambda: _p2p_case(module, p, z, rec), dict(kind='p2p', module=module, p=list(p), z=list(z)), rec)
        if rec.full:
            return


def campaigns(chunk, rec):
    for z, xi in chunk:
        rec.states += 1
        guarded(lambda: campaign_run(z, xi, rec)[0], dict(kind='campaign', z=list(z), xi=xi), rec)
        rec.outcome(z, xi)
        if rec.full:
            return


# Histories.  An operation is (runner, parameter set, dictionary): dictionary 'new' is a fresh one,
# 'same' is the dictionary of the previous runs with this operation's parameters written into it.
HA = [(20, 3.3, 1.3, 102, 0), (900.0, 30.0, 2.0, 10.0, 1)]
HP = [((41.5, 143.9, 8.5, 77.8, 0), tuple(profiles.CRYSTAL_PALACE)), ((3000.0, 4.0, 60.0, 9.0, 1), (40.0, 10.0, 35.0, 20.0))]
OPS = [('area', i, w) for i in (0, 1) for w in ('new', 'same')] + [('p2p', i, w) for i in (0, 1) for w in ('new', 'same')]
MORE = [('area_2tiles', 1, 'same'), ('p2p_2tiles', 0, 'same'), ('pimter', 0, 'new')]


def history_case(ops, rec):
    shared, first = {}, {}
    for step, (module, i, which) in enumerate(ops):
        if module == 'pimter':
            m, rows = campaign_run(HP[1][1], 800.0, rec)
        else:
            kind = module.split('_')[0]
            inputs = area_inputs(HA[i]) if kind == 'area' else p2p_inputs(HP[i][0])
            given = inputs
            if which == 'same':
                shared.update(inputs)
                given = shared
            if kind == 'area':
                m, rows = area_run(module, HA[i], given, rec)
            else:
                m, rows = p2p_run(module, HP[i][0], HP[i][1], given, rec)
        if m:
            return 'run %d: %s' % (step + 1, m)
        known = first.setdefault((module, i), rows)
        if len(rows) != len(known) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-9 for a, b in zip(rows, known)):
            return 'run %d gives another table than the first run' % (step + 1)
    return None


def histories(chunk, rec):
    prefix, ops, depth = chunk
    for rest in itertools.product(ops, repeat=depth - len(prefix)):
        seq = list(prefix) + list(rest)
        rec.states += 1
        guarded(lambda: history_case(seq, rec), dict(kind='history', ops=[list(o) for o in seq]), rec)
        rec.outcome(tuple(seq))
        if rec.full:
            return


def spaces(grade):
    quick = grade == 'small'
    f = [20, 41.5, 100.0, 300, 900.0, 3000.0, 20000.0]
    h = [(3.3, 1.3), (10, 3.0), (1.5, 30.0), (200.0, 2.0), (1000.0, 0.5)]
    dh = [0, 5.0, 30, 90.0, 102, 250, 600.0]
    points = [(a, b[0], b[1], c, i) for a in f for b in h for c in dh for i in (0, 1)]
    if not quick:
        points += [(a, b[0], b[1], c, i) for a in (30.0, 70, 150, 500, 1500.0, 8000.0) for b in h + [(4.9, 50.0), (60.0, 5.0)]
                   for c in (1, 15.0, 60.0, 150, 400) for i in (0, 1)]
    area = [(m, c) for m in ('area', 'area_2tiles') for c in core.chunked(points, 12)]

    pp = [(41.5, 143.9, 8.5, 77.8, 0), (573.3, 143.9, 8.5, 77.8, 1), (300, 10, 3.0, 4.0, 1), (2400.0, 2.0, 45.0, 33.3, 0), (100.0, 30.0, 30.0, 240.0, 1),
          (150.25, 12.345, 7.0625, 18.23457, 0), (1800.0, 20, 5, 7, 1)]
    paths = [(p, z) for p in pp for n in ((1, 2, 3) if quick else (1, 2, 3, 4, 5)) for z in profiles.all_small(n, (0.0, 40.0, 130))]
    paths += [(p, z) for p in pp for n in ((10, 60, 157) if quick else (5, 10, 33, 60, 157, 300, 599)) for _, z in profiles.shaped(n)]
    paths += [((fm, h1, h2, 77.8, ip), tuple(profiles.CRYSTAL_PALACE)) for fm in f for h1, h2 in h for ip in (0, 1)]
    p2p = [(m, c) for m in ('p2p', 'p2p_2tiles') for c in core.chunked(paths, 12)]

    camp = [(z, xi) for n in (2, 3) for z in profiles.all_small(n, (200.0, 215.0)) for xi in (150.0, 1000.0, 333.33333)]
    camp += [(z, xi) for n in ((12, 40) if quick else (12, 40, 150, 400)) for _, z in profiles.shaped(n) for xi in (25.0, 90.0437)][:60 if quick else 999]
    depth = {'small': 3, 'medium': 4, 'large': 5, 'huge': 6}[grade]
    return [
        core.Space('area tables', area, areas, 'frequency x heights x irregularity x polarisation, both area runners'),
        core.Space('point-to-point tables', p2p, p2ps, 'small, structured and documented profiles x parameters, both runners'),
        core.Space('campaign tables', core.chunked(camp, 32), campaigns, 'small and structured profiles, all 121 heights'),
        core.Space('run histories', [([a], OPS, depth) for a in OPS] + [([a], OPS + MORE, 2) for a in OPS + MORE], histories,
                   'all sequences of %d runs over {area, p2p} x 2 parameter sets x {new, reused dictionary}, and of 2 runs over all runners' % depth),
    ]


def replay(case):
    rec = core.Recorder()
    try:
        if case['kind'] == 'area':
            return _area_case(case['module'], tuple(case['p']), rec)
        if case['kind'] == 'p2p':
            return _p2p_case(case['module'], tuple(case['p']), tuple(case['z']), rec)
        if case['kind'] == 'campaign':
            return campaign_run(tuple(case['z']), case['xi'], rec)[0]
        return history_case([tuple(o) for o in case['ops']], rec)
    except ref.Undefined:
        return None
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
