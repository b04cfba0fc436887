"""C12: fitted lines, terrain irregularity and order statistics against their definitions."""
import itertools
import math

import core
import itmref as ref
import profiles
from itmlogic.misc.qtile import qtile
from itmlogic.preparatory_subroutines.dlthx import dlthx
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1

PID = 'C12'
QUICK_GRADE = 'medium'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'profiles and windows from the stated complete sets; values compared to 1e-8 of the relief',
    'where a window end falls on a sample and the spacing is not a power of two, either side is accepted',
]
NEAR = 1e-9


def scale_of(z):
    return 1.0 + max(z) - min(z) + 1e-3 * max(abs(v) for v in z)


# ---------------------------------------------------------------------------- fitted lines

def lines_allowed(z, xi, x1, x2):
    """The reference line, and those of the neighbouring truncations when xi is inexact"""
    yield ref.fit_line(z, xi, x1, x2)
    if math.frexp(xi)[0] != 0.5:
        try:
            for ea, eb in itertools.product((-NEAR, NEAR), repeat=2):
                ref.NUDGE[:2] = [ea, eb]
                yield ref.fit_line(z, xi, x1, x2, 0)
        finally:
            ref.NUDGE[:2] = [0.0, 0.0]


def line_case(z, xi, x1, x2):
    n = len(z) - 1
    try:
        a, b = zlsq1([n, xi] + list(z), x1, x2)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    tol = 1e-8 * scale_of(z) * n
    first = None
    for za, zb in lines_allowed(z, xi, x1, x2):
        first = first or (za, zb)
        if core.close(a, za, tol) and core.close(b, zb, tol):
            return None
    return 'line through window %r..%r is %r, %r at the ends; least squares gives %r' % (x1, x2, a, b, first)


def windows(n, xi, per_step):
    grid = [i * xi / per_step for i in range(n * per_step + 1)]
    return [(a, b) for i, a in enumerate(grid) for b in grid[i:]]


def lines(chunk, rec):
    n, levels, first, xi, per_step = chunk
    ws = windows(n, xi, per_step)
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        rec.states += 1
        for x1, x2 in ws:
            case = dict(kind='line', z=list(z), xi=xi, x1=x1, x2=x2)
            m = line_case(z, xi, x1, x2)
            rec.transitions += 1
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
        rec.traces += 1
        rec.outcome(z)
    rec.sample(case)


def long_lines(chunk, rec):
    for n, xi, name, z in chunk:
        rec.states += 1
        marks = sorted({0.0, 0.3, 1.0, 1.5, 2.0, n / 3, n / 2, n / 2 + 0.25, n - 2.2, n - 1.0, n - 0.4, float(n)})
        for a, b in itertools.combinations_with_replacement(marks, 2):
            if a < 0:
                continue
            case = dict(kind='line', z=list(z), xi=xi, x1=a * xi, x2=b * xi)
            m = line_case(z, xi, a * xi, b * xi)
            rec.transitions += 1
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
        rec.traces += 1
        rec.outcome(n, name)
        rec.sample(dict(kind='line', n=n, shape=name))


# ---------------------------------------------------------------------------- irregularity

def delta_allowed(z, xi, x1, x2):
    yield ref.delta_h(z, xi, x1, x2)
    try:
        for e in (-NEAR, NEAR):
            if (x2 - x1) % xi != 0 or math.frexp(xi)[0] != 0.5 or (x2 - x1) / xi != 2:
                ref.NUDGE[4] = e
                yield ref.delta_h(z, xi, x1, x2)
    finally:
        ref.NUDGE[4] = 0.0


def delta_case(z, xi, x1, x2):
    n = len(z) - 1
    tol = 1e-8 * scale_of(z) * 8
    try:
        got = dlthx([n, xi] + list(z), x1, x2)
        up = dlthx([n, xi] + [v + 512.0 for v in z], x1, x2)
        low = dlthx([n, xi] + [v - 1024.0 for v in z], x1, x2)
        tilt = dlthx([n, xi] + [v + 16.0 * i - 8.0 for i, v in enumerate(z)], x1, x2)
        turned = dlthx([n, xi] + [-v for v in z], x1, x2)
        straight = dlthx([n, xi] + [40.0 - 8.0 * i for i in range(n + 1)], x1, x2)
        slightly = dlthx([n, xi] + [0.5 * v for v in z], x1, x2)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    wants = list(delta_allowed(z, xi, x1, x2))
    if not any(core.close(got, w, tol) for w in wants):
        return 'irregularity between %r and %r is %r, by definition %r' % (x1, x2, got, wants[0])
    for what, v in (('raised', up), ('lowered', low), ('tilted', tilt), ('turned upside down', turned)):
        if not core.close(v, float(got), tol + 1e-7 * n):
            return 'irregularity %r becomes %r when the profile is %s' % (got, v, what)
    if not core.close(slightly, 0.5 * float(got), tol):
        return 'irregularity %r becomes %r when the relief is halved' % (got, slightly)
    if not core.close(straight, 0.0, 1e-6):
        return 'irregularity of straight terrain is %r' % straight
    return None


def deltas(chunk, rec):
    n, levels, first, xi, marks = chunk
    ws = [(a * xi, b * xi) for a, b in itertools.combinations(marks, 2) if b <= n]
    for z in profiles.all_small(n, levels):
        if z[0] != first:
            continue
        rec.states += 1
        for x1, x2 in ws:
            case = dict(kind='delta', z=list(z), xi=xi, x1=x1, x2=x2)
            rec.current = case
            m = delta_case(z, xi, x1, x2)
            rec.transitions += 7
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
        rec.traces += 1
        rec.outcome(z)
    rec.sample(case)


def long_deltas(chunk, rec):
    for n, xi, name, z in chunk:
        rec.states += 1
        w = [(0.0, float(n)), (0.7, n - 0.2), (1.3, 0.6 * n), (0.25 * n, 0.9 * n), (n - 1.9, float(n)), (n - 2.0, float(n)),
             (n - 3.1, n - 0.5)]
        w += [(n - 0.0 - m, float(n)) for m in (32.0, 42.0, 52.0, 60.5, 242.0, 252.0, 262.0) if m <= n]
        for a, b in w:
            if a < 0 or b <= a:
                continue
            case = dict(kind='delta', z=list(z), xi=xi, x1=a * xi, x2=b * xi)
            rec.current = case
            m = delta_case(z, xi, a * xi, b * xi)
            rec.transitions += 7
            if m:
                rec.violation(case, m)
                if rec.full:
                    return
        rec.traces += 1
        rec.outcome(n, name)
        rec.sample(dict(kind='delta', n=n, shape=name))


# ---------------------------------------------------------------------------- order statistics

def order_case(values, ir):
    a = list(values)
    try:
        got = qtile(a, ir)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    # the (ir+1)-th largest: at most ir values exceed it and at least ir+1 values reach it
    above, reach = sum(v > got for v in values), sum(v >= got for v in values)
    if got not in values or not above <= ir < reach:
        return 'entry %d of %r in descending order is given as %r' % (ir, values, got)
    if a != list(values):
        return 'the list was changed'
    return None


def order(chunk, rec):
    n, alphabet, first = chunk
    for rest in itertools.product(alphabet, repeat=n - 1):
        v = (first,) + rest
        rec.states += 1
        for ir in range(n):
            rec.transitions += 1
            m = order_case(v, ir)
            if m:
                rec.violation(dict(kind='order', values=list(v), ir=ir), m)
                if rec.full:
                    return
        rec.traces += 1
        rec.outcome(tuple(sorted(v)))
    rec.sample(dict(kind='order', values=list(v), ir=ir))


def long_order(chunk, rec):
    for n, step in chunk:
        v = tuple(float((i * step) % 251) - 100.5 for i in range(n))
        rec.states += 1
        for ir in range(n):
            rec.transitions += 1
            m = order_case(v, ir)
            if m:
                rec.violation(dict(kind='order', values=list(v), ir=ir), m)
                return
        rec.traces += 1
        rec.outcome(n, step)
        rec.sample(dict(kind='order', n=n))


def spaces(grade):
    quick = grade == 'small'
    L = (0.0, 30.0, 100.0)
    line_sets = [(1, L, 4), (2, L, 4), (3, L, 4), (4, L, 4), (5, L, 2)]
    delta_sets = [(n, L, (0.0, 0.25, 1.0, 1.5, 2.0, 2.9, 3.0, 4.0, 4.75, 5.0, 5.9, 6.0, 7.0)) for n in (1, 2, 3, 4, 5)]
    if not quick:
        line_sets += [(5, L, 4), (6, L, 3), (7, L, 1), (4, (-50.0, 0.0, 7.0, 90.0), 5)]
        delta_sets += [(6, L, delta_sets[0][2]), (7, L, delta_sets[0][2][::2])]
    if grade in ('large', 'huge'):
        line_sets += [(6, L, 4), (7, L, 3), (8, L, 1), (5, (-50.0, 0.0, 7.0, 90.0), 4)]
        delta_sets += [(7, L, delta_sets[0][2]), (8, L, delta_sets[0][2][::2]), (5, (-50.0, 0.0, 7.0, 90.0), delta_sets[0][2])]
    if grade == 'huge':
        line_sets += [(7, L, 4), (8, L, 3), (9, L, 1), (6, (-50.0, 0.0, 7.0, 90.0), 3)]
        delta_sets += [(8, L, delta_sets[0][2]), (9, L, delta_sets[0][2][::3]), (6, (-50.0, 0.0, 7.0, 90.0), delta_sets[0][2])]
    sizes = (2, 3, 7, 12, 24, 25, 32, 33, 34, 42, 43, 60, 156, 243, 252, 253, 300, 599) if not quick else (2, 3, 7, 12, 33, 42, 60, 156, 253, 300)
    shapes = [(n, xi, name, z) for n in sizes for xi in (512.0, 500.0, 77.7) for name, z in profiles.shaped(n)]
    alphabet = (-2.5, 0, 1, 4.0, 1e9)
    return [
        core.Space('fitted lines', [(n, lv, f, xi, per) for n, lv, per in line_sets for f in lv for xi in (512.0, 300.0)], lines,
                   'all profiles of 1..%d intervals x all windows on a grid of up to 4 points a step, two spacings' % {'small': 5, 'medium': 7, 'large': 8, 'huge': 9}[grade]),
        core.Space('lines on long profiles', core.chunked(shapes, 48), long_lines,
                   'structured profiles up to 599 intervals, 78 windows each, three spacings'),
        core.Space('irregularity', [(n, lv, f, xi, mk) for n, lv, mk in delta_sets for f in lv for xi in (512.0, 3000.0)], deltas,
                   'all small profiles x windows, with raised, lowered, tilted, inverted, halved and straight companions'),
        core.Space('irregularity of long profiles', core.chunked(shapes, 64), long_deltas,
                   'structured profiles up to 599 intervals, windows on both sides of every sample-count step'),
        core.Space('order statistics', [(n, alphabet, f) for n in range(1, {'small': 6, 'medium': 7, 'large': 9, 'huge': 10}[grade]) for f in alphabet], order,
                   'all lists up to length %d over 5 values, every rank' % {'small': 5, 'medium': 6, 'large': 8, 'huge': 9}[grade]),
        core.Space('long lists', core.chunked([(n, s) for n in (35, 45, 95, 245, 251) for s in (1, 7, 13, 125)], 8), long_order,
                   'long lists in four orders, every rank'),
    ]


def replay(case):
    if case['kind'] == 'line':
        return line_case(tuple(case['z']), case['xi'], case['x1'], case['x2'])
    if case['kind'] == 'delta':
        return delta_case(tuple(case['z']), case['xi'], case['x1'], case['x2'])
    return order_case(tuple(case['values']), case['ir'])
