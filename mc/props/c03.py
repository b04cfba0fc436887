"""
C03: the published coefficients describe one continuous, non-negative curve.

No reference model: every statement relates values the real code itself publishes.
"""
import math

import core
import itmref as ref
import links
from links import lrprop
from props import c02

PID = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'links and distances are taken from the stated lattices',
    'links for which the algorithm defines no value (reference model raises Undefined) are left out '
    'and counted',
]
KEYS = ['dlsa', 'dx', 'ael', 'ak1', 'ak2', 'aed', 'emd', 'aes', 'ems']


def total(*terms):
    return sum(terms), 1e-6 + 1e-11 * sum(abs(t) for t in terms)


def check_link(link, rec, fine=False):
    try:
        _, att = links.reference(link)
        att.scat(), att.los()
    except ref.Undefined:
        rec.undefined += 1
        return
    case = dict(link=links.encode(link))
    rec.current = case
    rec.states += 1
    try:
        message = curve(link, att, rec, fine)
    except Exception as e:
        message = 'raised %s: %s' % (type(e).__name__, e)
    if message:
        rec.violation(case, message)
    else:
        rec.traces += 1
        rec.sample(case)


def curve(link, att, rec, fine):
    session = lrprop(0, links.prepare(link))
    rec.transitions += 1
    c = {}
    for n in KEYS:
        c[n] = core.num(session[n])
        if c[n] is None:
            return 'coefficient %s is %r after the call with distance 0' % (n, session[n])
    l, x = c['dlsa'], c['dx']
    if not x >= l:
        return 'scatter distance %r precedes line-of-sight distance %r' % (x, l)
    if not (c['ak1'] >= 0 and c['ak2'] >= 0) and not (c['ak1'] == c['emd'] and c['ak2'] >= 0):
        return 'line-of-sight slopes %r, %r' % (c['ak1'], c['ak2'])
    los = lambda d: total(c['ael'], c['ak1'] * d, c['ak2'] * math.log(d))
    dif = lambda d: total(c['aed'], c['emd'] * d)
    sca = lambda d: total(c['aes'], c['ems'] * d)
    for name, f, g, d in (('line-of-sight', los, dif, l), ('scatter', dif, sca, x)):
        (a, ta), (b, tb) = f(d), g(d)
        if abs(a - b) > ta + tb:
            return 'step of %r dB at the %s distance' % (b - a, name)
    rec.outcome(round(l, 3), round(x, 1), round(c['ael'], 6))
    out = {}
    for d in links.ladder(att, fine) + [l, x, l * (1 - 1e-9), l * (1 + 1e-9), x * (1 - 1e-9), x * (1 + 1e-9)]:
        session = lrprop(d, session)
        rec.transitions += 1
        a = core.num(session['aref'])
        if a is None or a < 0:
            return 'attenuation at %r m is %r' % (d, session['aref'])
        e, tol = los(d) if 0 < d < l else sca(d) if d > x else dif(d)
        if abs(a - max(e, 0.0)) > tol:
            return 'attenuation at %r m is %r, the published coefficients give %r' % (d, a, max(e, 0.0))
        out[d] = a
        for n in KEYS:
            if session[n] != c[n]:
                return 'coefficient %s changed from %r to %r at %r m' % (n, c[n], session[n], d)
    for j, name in ((l, 'line-of-sight'), (x, 'scatter')):
        lo, hi = out[j * (1 - 1e-9)], out[j * (1 + 1e-9)]
        if abs(lo - hi) > 1e-4 + 1e-8 * abs(hi):
            return 'attenuation steps from %r to %r at the %s distance' % (lo, hi, name)
    return None


def worker(chunk, rec):
    for link in chunk:
        check_link(link, rec)
        if rec.full:
            return


def fine(chunk, rec):
    for link in chunk:
        check_link(link, rec, True)
        if rec.full:
            return


def every(chunk, rec):
    for link in chunk:
        check_link(link, rec, 'every')
        if rec.full:
            return


def coarse(chunk, rec):
    axes = dict(links.COARSE)
    axes['fmhz'], axes['h1'], axes['h2'] = [chunk[0]], [chunk[1]], [chunk[2]]
    for link in links.product(axes):
        check_link(link, rec)
        if rec.full:
            return


def spaces(grade):
    C = links.COARSE
    out = [core.Space('representatives, fine ladder', core.chunked(links.representatives(), 16), fine,
                      'one link per branch signature, fine ladder of distances'),
           core.Space('two deviations', core.chunked(c02.all_two(), 200), worker,
                      'every link within two dense-axis changes of 8 bases, ladder of distances'),
           core.Space('parameter sweeps', core.chunked(c02.sweeps(grade), 96), worker,
                      '8 bases, each continuous parameter alone through many values of its range'),
           core.Space('distance sweeps', core.chunked(links.BASES + links.representatives()[::1 if grade in ('large', 'huge') else 4], 24), every,
                      '1,750 distances from 100 m to 3,400 km for the bases and representatives')]
    if grade == 'huge':
        out.append(core.Space('second product', [(f, a, b) for f in (24.0, 39.0, 70, 150.0, 210.0, 500, 700.0, 1500.0, 2100, 5000.0, 7000.0, 14000) for a in (0.75, 1, 2.2, 5.0, 7, 20, 33.0, 90, 143.9, 400.0, 700, 2000.0)
                                                 for b in (1.0, 2.0, 4.5, 8, 30.0, 120, 500.0, 3000)], coarse, 'a second full product, between the values of the first'))
    if grade != 'small':
        blocks = [(f, a, b) for f in C['fmhz'] for a in C['h1'] for b in C['h2'][::3 if grade == 'medium' else 1]]
        out.append(core.Space('coarse product', blocks, coarse, 'full product of the coarse axes%s' % (' (every third height of terminal 2)' if grade == 'medium' else '')))
    return out


def replay(case):
    rec = core.Recorder()
    check_link(links.decode(case['link']), rec, True)
    return rec.violations[0][1] if rec.violations else None
