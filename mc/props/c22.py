"""C22: the three attenuation functions, asked directly, at every distance and in any order."""
import copy
import itertools

import core
import itmref as ref
import links
from props import c13
from links import lrprop
from itmlogic.diffraction_attenuation.adiff import adiff
from itmlogic.los_attenuation.alos import alos
from itmlogic.scatter_attenuation.ascat import ascat

PID = 'C22'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the reference model (mc/itmref.py) is the specification of (4.11), (4.44) and (4.63)',
    'the session handed to the functions is one prepared by qlra or qlrpfl and lrprop; for the scatter function the '
    'terms a caller sets (ad, rr, etq, h0s = -15, ascat1 = 0) are set as the existing caller and tests set them',
    'distances and links from the stated lattices; scatter is asked at decreasing distances, the order the algorithm '
    'defines; values are compared to 1e-6 dB plus 1e-7 relative, and where the reference itself jumps within rounding of the '
    'link, either side is accepted (counted as ties)',
]


def constants(att):
    return [att.wd1, att.xd1, att.afo, att.qk, att.aht, att.xht]


CONSTANTS = [('wd1', 1e-9), ('xd1', 1e-2), ('afo', 1e-7), ('qk', 1e-9), ('aht', 1e-6), ('xht', 1e-5)]


def asked(att):
    """Distances through every region, with both functions' own turning points"""
    d = links.ladder(att, True)
    d += [att.dla * f for f in (0.03, 0.25, 0.5, 0.75, 1.0001, 1.01, 1.1, 1.5, 3.0, 10.0)]
    d0 = 1.908 * att.k.wn * att.k.he[0] * att.k.he[1]
    d += [d0 * f for f in (0.2, 0.63, 0.68, 0.9, 1.0, 1.3, 5.0)]
    d += [att.dla + att.xae * f for f in (0.1, 0.5, 1.3787, 2.0, 4.1361, 9.0)]
    return sorted(set(v for v in d if 10.0 <= v <= 1e7))


def scatter(att, seq):
    """The model of consecutive scatter calls: the frequency gain of the farther distance is kept"""
    h0, values = None, []
    gone = False
    for s in seq:
        r = att.troposcatter(s, h0)
        if r is None:
            gone = True
            values.append(1001.0)
        else:
            values.append(r[0])
            if not gone:
                h0 = r[1]
            gone = False
    return values


def ready(session, att):
    s = copy.deepcopy(session)
    k = att.k
    ad, rr = k.dl[0] - k.dl[1], k.he[1] / k.he[0]
    if ad < 0:
        ad, rr = -ad, 1 / rr
    s.update(ad=ad, rr=rr, etq=(5.67e-6 * k.ens - 2.32e-3) * k.ens + 0.031, h0s=-15, ascat1=0)
    return s


def defined(f, *args):
    try:
        v = f(*args)
        return v if abs(v) < 1e12 else None
    except (ref.Undefined, ZeroDivisionError, ValueError, OverflowError):
        return None


def far_pairs(att, short):
    f = [att.dla + v for v in (5e3, 30e3, 90e3, 200e3, 400e3, 900e3)]
    if short:
        return [(f[5], f[0]), (f[4], f[3], f[1]), (f[2],)]
    return [(a,) for a in f] + [(a, b) for a, b in itertools.combinations(f[::-1], 2)] + \
        [(f[4], f[3], f[1]), (f[5], f[2], f[0]), tuple(f[::-1])]


def agree(got, want, link, model, rec):
    if core.close(got, want, 1e-6):
        return True
    bounds = links.allowed(link, lambda _, a: [model(a)])
    if bounds is None or links.within([got], bounds, [1e-6]):
        rec.ties += 1
        return True
    return False


def check(link, rec, short=False):
    try:
        d, att = links.reference(link)
        att.aref(1e5)
        att.aref(1e3)
    except (ref.Undefined, ZeroDivisionError, ValueError, OverflowError):
        rec.undefined += 1
        return None
    rec.states += 1
    try:
        s = links.prepare(link)
        s = lrprop(0, s)
        first = core.num(s['aref'])
        i = links.mismatch([s[n] for n, _ in CONSTANTS], constants(att), [t for _, t in CONSTANTS])
        if i is not None:
            bounds = links.allowed(link, lambda _, a: constants(a))
            if bounds is not None and not links.within([s[n] for n, _ in CONSTANTS], bounds, [t for _, t in CONSTANTS]):
                return 'constant %s is %r, ITM gives %r' % (CONSTANTS[i][0], s[CONSTANTS[i][0]], constants(att)[i])
            rec.ties += 1
            return None
        distances = asked(att)
        if short:
            distances = distances[1::4]
        for x in distances:
            want = defined(att.diffraction, x)
            if want is not None:
                got, s = adiff(x, s)
                rec.transitions += 1
                if not agree(got, want, link, lambda a: a.diffraction(x), rec):
                    return 'adiff(%r) is %r, (4.11) gives %r' % (x, got, want)
            want = defined(att.two_ray, x)
            if want is not None:
                got = alos(x, s)
                rec.transitions += 1
                if not agree(got, want, link, lambda a: a.two_ray(x), rec):
                    return 'alos(%r) is %r, (4.44) gives %r' % (x, got, want)
        for seq in far_pairs(att, short):
            try:
                want = scatter(att, seq)
            except (ref.Undefined, ZeroDivisionError, ValueError, OverflowError):
                continue
            t = ready(s, att)
            for n, (x, w) in enumerate(zip(seq, want)):
                t = ascat(x, t)
                got = t['ascat1']
                rec.transitions += 1
                if not agree(got, w, link, lambda a: scatter(a, seq[:n + 1])[-1], rec):
                    return 'ascat at %r is %r at the last, (4.63) gives %r' % (seq[:n + 1], got, w)
        s = lrprop(0, s)
        if not core.close(s['aref'], first):
            return 'after asking the functions, attenuation at distance 0 is %r, before %r' % (s['aref'], first)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    rec.traces += 1
    rec.outcome(round(float(first), 6))
    return None


def run(link, rec, short=False):
    case = dict(link=links.encode(link))
    rec.current = case
    m = check(link, rec, short)
    if m:
        rec.violation(case, m)
    else:
        rec.sample(case)


def full(chunk, rec):
    for link in chunk:
        run(link, rec)
        if rec.full:
            return


def brief(chunk, rec):
    for link in chunk:
        run(link, rec, True)
        if rec.full:
            return


def wide(chunk, rec):
    brief(c13.wide_paths(chunk), rec)


# ------------------------------------------------------------------- histories

def steps(att):
    near, far = 0.6 * att.dlsa, 2.0 * att.dlsa + 3 * att.xae
    return [('set up', 0.0), ('adiff', far), ('adiff', 1.2 * far), ('alos', 0.3 * att.dla), ('alos', near),
            ('lrprop', 5e3), ('lrprop', 1.5 * far), ('ascat', att.dla + 300e3)]


def history(link, order, rec):
    d, att = links.reference(link)
    menu = steps(att)
    s = lrprop(0, links.prepare(link))
    for i in order:
        name, x = menu[i]
        if name == 'ascat':
            # on a copy, as the terms it needs are the caller's
            got = ascat(x, ready(s, att))['ascat1']
            want, model = defined(lambda: scatter(att, (x,))[0]), lambda a: scatter(a, (x,))[0]
        elif name == 'lrprop':
            s = lrprop(x, s)
            y = x if d is None else d
            got, want, model = s['aref'], defined(att.aref, y), lambda a: a.aref(y)
        elif name == 'alos':
            got, want, model = alos(x, s), defined(att.two_ray, x), lambda a: a.two_ray(x)
        elif name == 'adiff':
            got, s = adiff(x, s)
            want, model = defined(att.diffraction, x), lambda a: a.diffraction(x)
        else:
            got, s = adiff(0, s)
            want, model = 0.0, lambda a: 0.0
        rec.transitions += 1
        if want is not None and not agree(got, want, link, model, rec):
            return '%s(%r) is %r after %r, by itself it is %r' % (name, x, got, [menu[j] for j in order], want)
    return None


def histories(chunk, rec):
    link, depth = chunk
    try:
        n = len(steps(links.reference(link)[1]))
        links.reference(link)[1].aref(1e3)
    except ref.Undefined:
        rec.undefined += 1
        return
    for order in itertools.product(range(n), repeat=depth):
        case = dict(link=links.encode(link), order=list(order))
        rec.current = case
        rec.states += 1
        try:
            m = history(link, order, rec)
        except Exception as e:
            m = 'raised %s: %s' % (type(e).__name__, e)
        rec.traces += 1
        if m:
            rec.violation(case, m)
            if rec.full:
                return
        elif len(set(order)) == depth:
            rec.sample(case)


def two_deviations(every):
    seen = set()
    for b in links.BASES:
        for link in links.within_two(b, links.AXES):
            if link not in seen:
                seen.add(link)
    return sorted(seen)[::every]


def some_paths():
    return links.path_representatives()


def spaces(grade):
    n = {'small': 20, 'medium': 60, 'large': 200, 'huge': 1000}[grade]
    both = links.representatives() + links.path_representatives()
    depth = {'small': 3, 'medium': 3, 'large': 4, 'huge': 5}[grade]
    return [
        core.Space('representatives', core.chunked(both, 12), full,
                   'one link or path per pair of branches of the algorithm: adiff and alos at every distance of a fine ladder, '
                   'ascat in every pair and some longer sequences of decreasing distances'),
        core.Space('parameter sweeps', core.chunked(list(links.sweeps(links.BASES, n)) + list(links.mirrored(n)), 64), brief,
                   '8 bases, each continuous parameter alone through %d values of its range' % n),
        core.Space('two deviations', core.chunked(two_deviations(4 if grade == 'small' else 1), 200), brief,
                   'every link that differs from one of 8 bases in at most two parameters (small: every fourth)'),
        core.Space('wide paths', c13.wide_chunks()[::4 if grade == 'small' else 1] if grade != 'huge' else c13.wide_chunks((250.0, 300.0, 395.0)), wide,
                   '15 irregular shapes x spacings x reliefs x frequencies x heights x grounds'),
        core.Space('orders of questions', [(l, k) for l in links.BASES + links.path_representatives()[::6] for k in range(1, depth + 1)][::1],
                   histories, 'every sequence of up to %d of 8 questions (set-up, adiff and alos at two distances, lrprop, ascat)' % depth),
    ]


def replay(case):
    link = links.decode(case['link'])
    if 'order' in case:
        return history(link, case['order'], core.Recorder())
    return check(link, core.Recorder())
