"""C13: the whole point-to-point preparation and attenuation against the reference model."""
import itertools

import core
import itmref as ref
import links
import profiles
from links import P2P, lrprop

PID = 'C13'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the reference model (mc/itmref.py) is the specification',
    'profiles from the stated complete sets of small profiles and structured families of long ones',
    'values are compared to 1e-7 relative plus an absolute floor; where the definition itself jumps within '
    'rounding of the input (a window end on a sample, two obstacles at one angle), either side is accepted '
    '(counted as ties)',
]
HEAD = [('dist', 1e-6), ('dh', 1e-6)]
BODY = HEAD + links.GEOMETRY + links.REGIONS + [('aref', 1e-6), ('kwx', 0)]


def expected(d, att):
    return [d, att.k.dh] + links.reference_geometry(att) + links.reference_regions(att) + \
        [att.aref(d), max(att.link_warning(), att.distance_warning(d))]


def expected_los(d, att):
    return list(att.los())


def expected_scat(d, att):
    return list(att.scat())


def judge(observed, model, spec, link, att, d, rec):
    scales = [s for _, s in spec]
    want = model(d, att)
    i = links.mismatch(observed, want, scales)
    if i is None:
        return None
    bounds = links.allowed(link, model)
    if bounds is None or links.within(observed, bounds, scales):
        rec.ties += 1
        return None
    return '%s is %r, ITM gives %r' % (spec[i][0], observed[i], want[i])


def check(link, rec, again=(0, 2500.0, 3e5)):
    try:
        d, att = links.reference(link)
        value = att.aref(d)
    except ref.Undefined:
        rec.undefined += 1
        return None
    rec.states += 1
    try:
        s = links.prepare(link)
        los = d < att.dlsa * (1 - 1e-9)
        far = d > att.dlsa * (1 + 1e-9)
        observed = [s['dist'], s['dh']] + links.observe_geometry(s) + links.observe_regions(s) + [s['aref'], s['kwx']]
        m = judge(observed, expected, BODY, link, att, d, rec)
        if m is None and los:
            m = judge([s[n] for n, _ in links.LOS], expected_los, links.LOS, link, att, d, rec)
        if m is None and far:
            m = judge([s[n] for n, _ in links.SCAT], expected_scat, links.SCAT, link, att, d, rec)
        rec.transitions += 1
        if m:
            return m
        first = core.num(s['aref'])
        for e in again + (d,):
            s = lrprop(e, s)
            rec.transitions += 1
            if not core.close(s['aref'], first) or not core.close(s['dist'], d):
                return 'asked again with distance %r: attenuation %r at %r m, before %r at %r m' % (
                    e, s['aref'], s['dist'], first, d)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    rec.traces += 1
    rec.outcome(round(value, 6))
    return None


def run(link, rec, again=(0, 2500.0, 3e5)):
    case = dict(link=links.encode(link))
    rec.current = case
    m = check(link, rec, again)
    if m:
        rec.violation(case, m)
    else:
        rec.sample(case)


# fmhz h1 h2 en0 zsys eps sgm ipol xi
SETUPS = [(300.0, 10.0, 3.0, 301.0, 0.0, 15, 0.005, 1, 1700.0),
          (2000.0, 3.0, 45.0, 330.0, 0.0, 4, 0.001, 0, 7300.0),
          (41.5, 143.9, 8.5, 314.0, 0.0, 15, 0.005, 0, 600.0),
          (8000.0, 30.0, 30.0, 280.0, 500.0, 81, 5.0, 1, 24000.0)]


def small(chunk, rec):
    n, levels, first, setups = chunk
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        for f, h1, h2, en0, zsys, eps, sgm, ipol, xi in setups:
            run(P2P(f, h1, h2, en0, zsys, eps, sgm, ipol, xi, z), rec)
            if rec.full:
                return


def listed(chunk, rec):
    for link in chunk:
        run(link, rec, again=(1e5,))
        if rec.full:
            return


def long_profiles(quick):
    sizes = (2, 4, 9, 10, 11, 20, 33, 60, 157, 300, 599) if not quick else (4, 9, 20, 33, 60, 157, 300)
    for n in sizes:
        for km in ((1.0, 3.3, 25.0, 77.8, 240.0, 600.0) if not quick else (3.3, 25.0, 77.8, 240.0)):
            for _, z in profiles.shaped(n):
                for f, h1, h2 in ((300.0, 10.0, 3.0), (2400.0, 150.0, 2.0), (50.0, 3.0, 60.0), (900.0, 1.5, 1.5)):
                    yield P2P(f, h1, h2, 301.0, 0.0, 15, 0.005, 1, km * 1000.0 / n, z)


def palace(quick):
    """The documented example path, with every parameter moved over its whole axis"""
    z = tuple(map(float, profiles.CRYSTAL_PALACE))
    base = P2P(41.5, 143.9, 8.5, 314.0, 0.0, 15, 0.005, 0, 77800.0 / 156, z)
    axes = links.AXES
    for name in ('fmhz', 'h1', 'h2', 'en0', 'zsys', 'ground', 'ipol'):
        for v in axes[name]:
            one = links.setting(base, name, v)
            yield one
            if not quick or name in ('h1', 'fmhz'):
                for other in ('h2', 'ipol'):
                    if other != name:
                        for w in axes[other][::1 if not quick else 3]:
                            yield links.setting(one, other, w)
    for km in (5.0, 20.0, 40.0, 60.0, 77.8, 100.0, 150.0, 300.0, 600.0, 900.0):
        yield base._replace(xi=km * 1000.0 / 156)
    for m in range(2, 157, 1 if not quick else 5):
        yield base._replace(xi=500.0, z=z[:m])
        yield base._replace(xi=500.0, z=z[-m:], h1=15.0, h2=4.0)


def sweep(quick):
    """A ridge moved along and grown over level ground: line of sight, one horizon, two horizons"""
    n = 24
    for pos in range(1, n):
        for height in range(0, 400, 10 if not quick else 25):
            z = [20.0] * (n + 1)
            z[pos] = 20.0 + height
            yield P2P(450.0, 12.0, 25.0, 310.0, 0.0, 15, 0.005, 1, 1024.0, tuple(z))
            if pos + 7 < n:
                z[pos + 7] = 20.0 + 0.7 * height
                yield P2P(450.0, 12.0, 25.0, 310.0, 0.0, 15, 0.005, 1, 1024.0, tuple(z))


def grazing(quick):
    """
    Paths that just clear level ground with dips, at and around the length at which the horizons of the
    irregular terrain end short of the path: the effective heights are then raised.
    """
    gme = ref.qlrps(300.0, 0.0, 301.0, 1, 15, 0.005).gme
    for h1, h2 in ((10.0, 3.0), (10.0, 10.0), (3.0, 60.0), (100.0, 100.0)) + (() if quick else ((300.0, 2.0), (1.5, 1.5))):
        reach = (2 * h1 / gme) ** 0.5 + (2 * h2 / gme) ** 0.5
        for depth in (0.0, 0.5, 2.0, 8.0) + (() if quick else (0.1, 1.0, 4.0, 20.0)):
            for n in (9, 40) if quick else (9, 20, 40, 150):
                for every in (4, 8):
                    for base in (0.0, 35.0):
                        z = tuple(base - depth if i % every == every // 2 else base for i in range(n + 1))
                        for t in (0.9, 0.96, 0.975, 0.985, 0.99, 0.995, 0.999, 1.001, 1.02, 1.1):
                            yield P2P(300.0, h1, h2, 301.0, 0.0, 15, 0.005, 1, t * reach / n, z)


def sizes_and_steps(grade):
    """Every number of intervals to 599; and every continuous parameter of three paths through its range"""
    for n in range(1, 600, 3 if grade == 'small' else 1):
        for name, z in profiles.shaped(n):
            if name in ('rolling', 'rough', 'ramp'):
                yield P2P(450.0, 12.0, 25.0, 310.0, 0.0, 15, 0.005, 1, 90.0, z)
                yield P2P(1200.0, 40.0, 4.0, 301.0, 0.0, 15, 0.005, 0, 61234.5 / n, z)
    shapes = dict(profiles.shaped(48))
    count = {'small': 60, 'medium': 250, 'large': 1000, 'huge': 5000}[grade]
    for z in (shapes['rolling'], shapes['twin'], shapes['flat'], shapes['bowl']):
        for base in (P2P(450.0, 12.0, 25.0, 310.0, 0.0, 15, 0.005, 1, 700.0, z), P2P(2400.0, 30.0, 3.0, 301.0, 0.0, 25, 0.02, 0, 2600.0, z)):
            for link in links.sweeps([base], count, ('fmhz', 'h1', 'h2', 'en0', 'zsys', 'eps', 'sgm')):
                yield link
            for i in range(count):
                yield base._replace(xi=30.0 * 700.0 ** (i / count))
            for i in range(count // 2):
                yield base._replace(z=tuple(v * 0.01 * 700.0 ** (2 * i / count) for v in z))
                yield base._replace(z=tuple(v + 12.5 * i for v in z))


WIDE_HEIGHTS = [(0.5, 0.6), (1.0, 1100.0), (2.0, 30.0), (4.1, 4.2), (10.0, 230.0), (64.0, 160.0), (100.0, 31.0), (150.0, 0.6),
                (600.0, 2.3), (2600.0, 2900.0)]
WIDE_GROUNDS = [(15, 0.005, 1), (80, 0.0, 1), (80, 0.0, 0), (20, 0.1, 1), (4, 0.001, 0)]
WIDE_F = [20.0, 30.0, 70.0, 180.0, 900.0, 4500.0, 9000.0, 19000.0]


def wide_chunks(en0=(300.0,), grounds=WIDE_GROUNDS):
    return [(f, h, list(grounds), e) for f in WIDE_F for h in WIDE_HEIGHTS for e in en0]


def wide_paths(chunk):
    """
    Irregular profiles of every small size with every combination of frequency, heights, ground, spacing and relief
    far into the corners: between them they take every branch of the algorithm, rare ones included (tools/branches.py)
    """
    f, (h1, h2), grounds, en0 = chunk
    for (e, g, p), xi, z, r in itertools.product(grounds, (14.0, 40, 200.0, 1500, 15000.0, 90000.0), profiles.IRREGULAR, (0.5, 20.0, 150.0, 900.0)):
        yield P2P(f, h1, h2, en0, 0.0, e, g, p, xi, tuple(v * r for v in z))


def wide(chunk, rec):
    listed(wide_paths(chunk), rec)


def spaces(grade):
    quick = grade == 'small'
    L = (0.0, 35.0, 120.0)
    L4 = (0.0, 15.0, 60.0, 200.0)
    sizes = [(1, L4), (2, L4), (3, L4), (4, L), (5, L), (6, L)]
    if not quick:
        sizes += [(4, L4), (5, L4), (7, L), (8, L)]
    if grade in ('large', 'huge'):
        sizes += [(6, L4), (9, L), (5, (-20.0, 0.0, 5.0, 50.0, 400.0)), (10, (0.0, 60.0))]
    if grade == 'huge':
        sizes += [(7, L4), (10, L), (6, (-20.0, 0.0, 5.0, 50.0, 400.0)), (13, (0.0, 60.0))]
    return [
        core.Space('small profiles', [(n, lv, f, [s]) for n, lv in sizes for f in lv for s in SETUPS], small,
                   'all profiles of 1..%d intervals over the levels, 4 setups, each asked again with 4 distances' % {'small': 6, 'medium': 8, 'large': 10, 'huge': 13}[grade]),
        core.Space('long profiles', core.chunked(long_profiles(quick), 80), listed, 'structured profiles up to %d intervals, lengths and height pairs' % (300 if quick else 599)),
        core.Space('documented path', core.chunked(palace(quick), 48), listed, 'the Crystal Palace path with every parameter over its axis, and every part of it'),
        core.Space('sizes and sweeps', core.chunked(sizes_and_steps(grade), 96), listed, 'every number of intervals; every continuous parameter, spacing, relief and base elevation through its range on 4 terrains x 2 bases'),
        core.Space('grazing paths', core.chunked(grazing(quick), 48), listed, 'level ground with dips, at every length around the reach of the horizons'),
        core.Space('wide paths', wide_chunks() if grade in ('small', 'medium') else wide_chunks((250.0, 300.0, 395.0)), wide,
                   '15 irregular shapes x 6 spacings x 4 reliefs x 8 frequencies x 10 height pairs x 5 grounds: every branch of the algorithm is taken'),
        core.Space('moving ridges', core.chunked(sweep(quick), 48), listed, 'one or two ridges at every position and height'),
    ]


def replay(case):
    return check(links.decode(case['link']), core.Recorder())
