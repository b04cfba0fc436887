"""C02: area-mode geometry, coefficients and attenuation against the reference model."""
import core
import itmref as ref
import links
from links import lrprop

PID = 'C02'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the reference model (mc/itmref.py, written from references/itm_alg.pdf and itm_man.txt) is the '
    'specification',
    'links are taken from the stated lattices; between lattice points the algorithm is piecewise '
    'smooth and no claim is made',
    'values are compared to 1e-7 relative plus an absolute floor; where the reference itself jumps '
    'within 3e-11 relative of the input, either side is accepted (counted as ties)',
]


def names(att):
    spec = links.GEOMETRY + links.REGIONS
    return spec


def check_link(link, rec, fine=False, short=False):
    try:
        _, att = links.reference(link)
        scat, los = att.scat(), att.los()
    except ref.Undefined:
        rec.undefined += 1
        return
    rec.states += 1
    case = dict(link=links.encode(link), d=None)
    rec.current = case

    def full(_, a):
        return links.reference_geometry(a) + links.reference_regions(a) + list(a.los()) + list(a.scat())
    spec = links.GEOMETRY + links.REGIONS + links.LOS + links.SCAT
    scales = [s for _, s in spec]
    try:
        session = links.prepare(link)
        session = lrprop(0, session)
        observed = links.observe_geometry(session) + links.observe_regions(session) + \
            [session[n] for n, _ in links.LOS + links.SCAT]
    except Exception as e:
        rec.violation(case, 'raised %s: %s' % (type(e).__name__, e))
        return
    rec.transitions += 2
    i = links.mismatch(observed, full(None, att), scales)
    if i is not None:
        bounds = links.allowed(link, full)
        if bounds is None or links.within(observed, bounds, scales):
            rec.ties += 1
        else:
            rec.violation(case, '%s is %r, ITM gives %r' % (spec[i][0], observed[i], full(None, att)[i]))
            return
    rec.outcome(round(float(observed[9]), 6), round(float(observed[11]), 6))
    distances = links.ladder(att, fine)
    if short:
        distances = distances[2::3]
    distances += [10000, 150000]
    for d in distances:
        try:
            session = lrprop(d, session)
            a, dist = session['aref'], session['dist']
        except Exception as e:
            rec.violation(dict(case, d=d), 'raised %s: %s' % (type(e).__name__, e))
            return
        rec.transitions += 1
        e = att.aref(d)
        if not core.close(a, e, 1e-6) or dist != d:
            bounds = links.allowed(link, lambda _, x: [x.aref(d)])
            if bounds is None or (links.within([a], bounds, [1e-6]) and dist == d):
                rec.ties += 1
                continue
            rec.violation(dict(case, d=d), 'attenuation at %r m is %r (distance %r), ITM gives %r' % (
                d, a, dist, e))
            return
    rec.traces += 1
    rec.sample(case)


def two(chunk, rec):
    for link in chunk:
        check_link(link, rec)
        if rec.full:
            return


def coarse(chunk, rec):
    axes = dict(links.COARSE)
    axes['fmhz'], axes['h1'], axes['h2'] = [chunk[0]], [chunk[1]], [chunk[2]]
    if len(chunk) > 3:
        axes['zsys'] = [chunk[3]]
    for link in links.product(axes):
        check_link(link, rec, short=True)
        if rec.full:
            return


def swept(chunk, rec):
    for link in chunk:
        check_link(link, rec, short=True)
        if rec.full:
            return


def every(chunk, rec):
    for link in chunk:
        check_link(link, rec, fine='every')
        if rec.full:
            return


def sweeps(grade):
    n = {'small': 60, 'medium': 250, 'large': 1000, 'huge': 5000}[grade]
    return list(links.sweeps(links.BASES, n)) + list(links.mirrored(n))


def distances(chunk, rec):
    for link in chunk:
        check_link(link, rec, fine=True)
        if rec.full:
            return


def all_two():
    seen = set()
    for b in links.BASES:
        for link in links.within_two(b, links.AXES):
            if link not in seen:
                seen.add(link)
                yield link


def spaces(grade):
    C = links.COARSE
    dense = core.chunked(all_two(), 200)
    if grade in ('small', 'medium'):
        heights = [(0.5, 1.5), (1.5, 0.5), (3.3, 10.0), (200.0, 3.3), (1000.0, 10.0), (50.0, 50.0), (10.0, 1000.0)]
        heights += [] if grade == 'small' else [(a, b) for a in C['h1'] for b in C['h2'][::3] if (a, b) not in heights]
        blocks = [(f, a, b) for f in C['fmhz'] for a, b in heights]
    else:
        blocks = [(f, a, b, z) for f in C['fmhz'] for a in C['h1'] for b in C['h2'] for z in (0.0, 1500.0)[:2 if grade == 'huge' else 1]]
    if grade == 'huge':
        blocks += [(f, a, b) for f in (24.0, 39.0, 70, 150.0, 210.0, 500, 700.0, 1500.0, 2100, 5000.0, 7000.0, 14000) for a in (0.75, 1, 2.2, 5.0, 7, 20, 33.0, 90, 143.9, 400.0, 700, 2000.0)
                   for b in (1.0, 2.0, 4.5, 8, 30.0, 120, 500.0, 3000)]
    return [
        core.Space('representatives, fine ladder', core.chunked(links.representatives(), 16), distances,
                   'one link per branch signature of the algorithm, every distance of a fine ladder'),
        core.Space('two deviations', dense, two,
                   'every link that differs from one of 8 bases in at most two parameters, dense axes, '
                   'ladder of distances through all regions and joins'),
        core.Space('parameter sweeps', core.chunked(sweeps(grade), 96), swept,
                   '8 bases, each continuous parameter alone through %d values of its range' % {'small': 60, 'medium': 250, 'large': 1000, 'huge': 5000}[grade]),
        core.Space('distance sweeps', core.chunked(links.BASES + (links.representatives() if grade in ('large', 'huge') else links.representatives()[::4]), 24), every,
                   '1,750 distances from 100 m to 3,400 km for the bases and representatives'),
        core.Space('coarse product', blocks, coarse,
                   'full product of coarse axes (quick: 24 of the 49 height pairs)'),
    ]


def replay(case):
    rec = core.Recorder()
    check_link(links.decode(case['link']), rec, fine=True)
    return rec.violations[0][1] if rec.violations else None
