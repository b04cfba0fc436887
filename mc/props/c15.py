"""C15: normal probabilities and deviates on dense grids, and every short list."""
import itertools
import math
import statistics

import core
from itmlogic.misc.qerf import qerf
from itmlogic.misc.qerfi import qerfi

PID = 'C15'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the true values are those of math.erfc and statistics.NormalDist',
    'deviates and probabilities on the stated grids',
]
NORMAL = statistics.NormalDist()
QERF_ERROR = 7.5e-8
QERFI_ERROR = 4.5e-4 + 0.5e-4 + 1e-9


def true_exceedance(z):
    return 0.5 * math.erfc(z / math.sqrt(2))


def true_deviate(q):
    return -NORMAL.inv_cdf(q)


def prob_case(z, step):
    """One deviate: accuracy, range, symmetry, monotonicity to the next grid point, inverse"""
    try:
        p, m, n = core.num(qerf(z)), core.num(qerf(-z)), core.num(qerf(z + step))
        if None in (p, m, n):
            return 'not a number'
        if abs(p - true_exceedance(z)) > QERF_ERROR:
            return 'probability of %r is %r, truly %r' % (z, p, true_exceedance(z))
        if not 0 <= p <= 1:
            return 'probability of %r is %r' % (z, p)
        if z != 0 and abs(p + m - 1) > 1e-12:
            return 'probabilities of %r and %r add to %r' % (z, -z, p + m)
        if n > p + 1e-15:
            return 'probability grows from %r to %r between deviates %r and %r' % (p, n, z, z + step)
        if abs(z) <= 4.6 and 1e-6 <= p <= 1 - 1e-6:
            back = core.num(qerfi([p])[0])
            slack = QERFI_ERROR + QERF_ERROR / max(1e-9, math.exp(-z * z / 2) * 0.3989422804 - QERF_ERROR)
            if back is None or abs(back - z) > slack:
                return 'deviate %r has probability %r, whose deviate is %r' % (z, p, back)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def deviate_case(q, nxt):
    try:
        out = qerfi([q, 1 - q, nxt])
        if len(out) != 3:
            return '%d values for 3 probabilities' % len(out)
        v, w, n = map(core.num, out)
        if None in (v, w, n):
            return 'not a number: %r' % (out,)
        clamped = min(max(q, 1e-6), 1 - 1e-6)
        if abs(v - true_deviate(clamped)) > QERFI_ERROR:
            return 'deviate of %r is %r, truly %r' % (q, v, true_deviate(clamped))
        if abs(v + w) > 1.0001e-4:
            return 'deviates of %r and its complement are %r and %r' % (q, v, w)
        if n > v + 1e-12:
            return 'deviate grows from %r to %r between probabilities %r and %r' % (v, n, q, nxt)
        if abs(round(v, 4) - v) > 1e-12:
            return 'deviate %r of %r is not rounded to four places' % (v, q)
        back = core.num(qerf(v))
        if back is None or abs(back - clamped) > QERF_ERROR + 0.39895 * QERFI_ERROR:
            return 'probability %r has deviate %r, whose probability is %r' % (q, v, back)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def list_case(qs):
    try:
        given = list(qs)
        out = qerfi(given)
        if given != list(qs):
            return 'the list of probabilities was changed to %r' % (given,)
        want = [qerfi([q])[0] for q in qs]
        if len(out) != len(qs) or any(a != b for a, b in zip(out, want)):
            return '%r gives %r, one by one %r' % (list(qs)[:12], list(out)[:12], want[:12])
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def probs(chunk, rec):
    lo, hi, step = chunk
    for i in range(lo, hi):
        z = i * step
        rec.states += 1
        rec.transitions += 4
        m = prob_case(z, step)
        if m:
            rec.violation(dict(kind='z', z=z, step=step), m)
            if rec.full:
                return
        rec.outcome(i, step)
    rec.traces += 1
    rec.sample(dict(kind='z', z=z, step=step))


def special_probs(chunk, rec):
    for z, step in chunk:
        rec.states += 1
        rec.transitions += 4
        m = prob_case(z, step)
        if m:
            rec.violation(dict(kind='z', z=z, step=step), m)
        rec.outcome(z)
    rec.traces += 1
    rec.sample(dict(kind='z', z=z, step=step))


def devs(chunk, rec):
    for q, nxt in chunk:
        rec.states += 1
        rec.transitions += 2
        m = deviate_case(q, nxt)
        if m:
            rec.violation(dict(kind='q', q=q, next=nxt), m)
            if rec.full:
                return
        rec.outcome(q)
    rec.traces += 1
    rec.sample(dict(kind='q', q=q, next=nxt))


def lists(chunk, rec):
    n, first = chunk
    for rest in itertools.product(ALPHABET, repeat=max(0, n - 1)):
        qs = (first,) + rest if n else ()
        rec.states += 1
        rec.transitions += 1 + len(qs)
        m = list_case(qs)
        if m:
            rec.violation(dict(kind='list', q=list(qs)), m)
            if rec.full:
                return
        rec.outcome(qs)
    rec.traces += 1
    rec.sample(dict(kind='list', q=list(qs)))


def long_lists(chunk, rec):
    for n in chunk:
        qs = [((37 * i) % (n + 1) + 0.5) / (n + 2) for i in range(n)]
        rec.states += 1
        rec.transitions += n + 1
        m = list_case(qs)
        if m:
            rec.violation(dict(kind='list', q=qs), m)
        rec.outcome(n)
    rec.traces += 1
    rec.sample(dict(kind='list of length', n=n))


ALPHABET = [0.0, 1e-6, 0.01, 0.3, 0.5, 0.9, 0.99, 1]


def probability_grid(quick):
    q = {0.0, 1e-12, 1e-7, 5e-7, 1e-6, 1.0000001e-6, 2e-6, 0.5, 1 - 1e-6, 1 - 1e-7, 1.0, 0.25, 0.75}
    n = 4000 if quick else 60000
    q |= {i / n for i in range(n + 1)}
    for k in range(240 if quick else 3000):
        v = 10 ** (-k * 6.5 / (240 if quick else 3000))
        q |= {v, 1 - v}
    q |= {i / 100 for i in range(101)}
    q = sorted(q)
    return list(zip(q, q[1:] + [1]))


def spaces(grade):
    quick = grade == 'small'
    step = 1.0 / {'small': 512, 'medium': 8192, 'large': 131072, 'huge': 1048576}[grade]
    top = int(12 / step)
    cuts = list(range(-top, top + 1, top // 16))
    edges = [(s * v, d) for v in (0.0, 1e-12, 1e-9, 1e-6, 5.0, 9.999999, 10.0, 10.000001, 37.0, 38.6, 40.0, 100, 1e3) for s in (1, -1) for d in (1e-9, 1e-4, 0.5)]
    sizes = range(0, {'small': 5, 'medium': 6, 'large': 8, 'huge': 8}[grade])
    return [
        core.Space('probabilities', [(a, b, step) for a, b in zip(cuts, cuts[1:])], probs, 'every deviate from -12 to 12 in steps of 1/%d' % round(1 / step)),
        core.Space('extreme deviates', [edges], special_probs, 'around 0, around the cut-off at 10 and far outside'),
        core.Space('deviates', core.chunked(probability_grid(quick), 24), devs, 'probabilities on a linear grid and a logarithmic one at both ends'),
        core.Space('short lists', [(n, a) for n in sizes for a in (ALPHABET if n else [0])], lists, 'all lists up to length %d over 8 probabilities' % {'small': 4, 'medium': 5, 'large': 7, 'huge': 7}[grade]),
        core.Space('long lists', core.chunked([6, 7, 10, 15, 99, 100, 101, 256, 600], 4), long_lists, 'long lists in mixed order'),
    ]


def replay(case):
    if case['kind'] == 'z':
        return prob_case(case['z'], case['step'])
    if case['kind'] == 'q':
        return deviate_case(case['q'], case['next'])
    return list_case(case['q'])
