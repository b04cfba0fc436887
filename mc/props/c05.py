"""
C05: independent sessions never influence each other.

  interleavings   every interleaving of the calls of two sessions' programs;
  preemptions     a call of one session is suspended before every line (thorough: every bytecode
                  instruction) of itmlogic code it executes, a call of the other session runs
                  completely, the first resumes: all single preemptions;
  two preemptions the second call is itself suspended before every one of its lines, the first
                  finishes, the second finishes: all pairs of preemption points, on real threads
                  under a scheduler that owns every switch;
  twins           two sessions whose links differ in one parameter, or whose profiles are
                  permutations of each other, called in turn (an answer remembered for one must not
                  serve the other);
  quantiles       two sessions with any two climates and modes, asked for quantiles in turn;
  inputs          no routine changes the lists it is given.
"""
import copy
import itertools
import os
import sys
import threading

import core
import itmref as ref
import links
import profiles
from links import Area, P2P, lrprop, avar, qlra, qlrpfl
from props import c04

PID = 'C05'
QUICK_GRADE = 'medium'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'preemption points are the lines (thorough: bytecode instructions) of code under /repo/src; C-level '
    'functions are atomic, as they are under the interpreter lock',
    'two sessions; up to two preemptions',
]
SRC = os.path.join(core.REPO, 'src') + os.sep
Z = c04.Z
A1, A2, A3, P1, P2_, P3, P4 = c04.A1, c04.A2, c04.A3, c04.P1, c04.P2, c04.P3, c04.P4
A1b = A1._replace(fmhz=900.0)
A1c = A1._replace(dh=30.0)
P2b = P2_._replace(z=P2_.z[:5] + (P2_.z[5] + 60.0,) + P2_.z[6:])
P1b = P1._replace(h1=60.0)
PAIRS = [(A1, A1), (A1, A2), (A1, A1b), (A1, A1c), (A2, A3), (A1, P2_), (P2_, A3), (P1, P2_), (P2_, P2_), (P2_, P2b), (P1, P1b),
         (P3, P4), (P4, P1), (A3, P3)]
# given the very same lists of heights, siting criteria and elevations
SHARING = [(A1, A1b), (P1, P1._replace(fmhz=900.0)), (P2_, P2_._replace(en0=340.0)), (P3, P3), (P4, P4._replace(ipol=1 - P4.ipol))]


class Program:
    """The calls of one session, each checked against the history-free reference"""

    def __init__(self, link, shared=None):
        self.link = link
        self.var = c04.VAR[1]
        self.session = links.area_inputs(link) if isinstance(link, Area) else links.p2p_inputs(link)
        self.session.update(self.var)
        if shared:
            self.session.update({k: shared[k] for k in ('hg', 'pfl') if k in shared})
        self.kst = [link.k1, link.k2] if isinstance(link, Area) else None
        if shared and shared.get('kst') == self.kst:
            self.kst = shared['kst']
        self.dist = None
        d, a = c04.attenuation(link)
        if d is None:
            self.ops = [('P',), ('L', 0.6 * a.dlsa), ('Q', 1), ('L', 1.6 * a.dlsa), ('Q', 0)]
        else:
            self.ops = [('P',), ('Q', 1), ('L', 0), ('Q', 0)]
        self.value = None

    def call(self, i):
        """Runs operation i on the real code; stores what it returned"""
        op = self.ops[i]
        s = self.session
        if op[0] == 'P':
            self.session = qlra(self.kst, s) if self.kst is not None else qlrpfl(s)
        elif op[0] == 'L':
            s['lvar'] = max(1, s['lvar'])
            self.session = lrprop(op[1], s)
            if isinstance(self.link, Area):
                self.dist = op[1]
        else:
            self.value, self.session = avar(*Z[op[1]], s)

    def verdict(self, i):
        op = self.ops[i]
        if op[0] == 'Q':
            return c04.check_quantile(self.value, self.link, self.dist, Z[op[1]], self.var)
        return self.state(i)

    def state(self, i):
        """Everything the session publishes, as it stands"""
        if isinstance(self.link, Area) and self.dist is None:
            return None
        return c04.compare_session(self.session, self.link, self.dist)


def safely(f, *args):
    try:
        return f(*args)
    except ref.Undefined:
        raise
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def run_interleaving(la, lb, order, share, rec):
    a = Program(la)
    b = Program(lb, dict(a.session, kst=a.kst) if share else None)
    progs, at = [a, b], [0, 0]
    for who in order:
        p, i = progs[who], at[who]
        message = safely(p.call, i) or safely(p.verdict, i)
        rec.transitions += 1
        if message:
            return 'session %d, call %d (%s): %s' % (who + 1, i + 1, p.ops[i], message)
        at[who] += 1
        other = progs[1 - who]
        if at[1 - who]:
            message = safely(other.state, at[1 - who] - 1)
            if message:
                return 'session %d after a call of session %d: %s' % (2 - who, who + 1, message)
    return None


def interleavings(pair, rec):
    la, lb, share = pair
    na, nb = len(Program(la).ops), len(Program(lb).ops)
    for picks in itertools.combinations(range(na + nb), na):
        order = [0 if i in picks else 1 for i in range(na + nb)]
        case = dict(kind='interleaving', a=links.encode(la), b=links.encode(lb), order=order, share=share)
        rec.current = case
        message = run_interleaving(la, lb, order, share, rec)
        rec.states += 1
        if message:
            rec.violation(case, message)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.outcome(pair, picks)
            rec.sample(case)


# ------------------------------------------------------------------- twins

def twin_links():
    """Pairs of links that a carelessly keyed memory would confuse"""
    for base in links.BASES[:3] + [A2]:
        for l in c04.changed(base):
            yield base, l
        for a in ('fmhz', 'h1', 'h2', 'dh', 'en0', 'zsys'):
            v = getattr(base, a)
            for w in (v + 0.004, v + 0.3):
                yield base, base._replace(**{a: w})
    for base in c04.P_BASES:
        n = len(base.z)
        for l in c04.changed(base):
            yield base, l
        for i in range(1, n - 1):
            for j in range(i + 1, n - 1):
                if base.z[i] != base.z[j]:
                    z = list(base.z)
                    z[i], z[j] = z[j], z[i]
                    yield base, base._replace(z=tuple(z))           # same samples in another order
        for i in range(1, n - 2):
            z = list(base.z)
            z[i] += 25.0
            z[i + 1] -= 25.0
            yield base, base._replace(z=tuple(z))                   # same sum
        for a in ('fmhz', 'h1', 'h2', 'en0', 'zsys', 'xi'):
            v = getattr(base, a)
            for w in (v + 0.004, v + 0.3):
                yield base, base._replace(**{a: w})


TURNS = [(0, 0, 1, 1, 0, 1), (0, 1, 0, 1, 0, 1), (1, 0, 0, 1, 1, 0)]


def twin_case(la, lb, turns, rec):
    """Each turn: a session runs its whole program (again)"""
    progs = [Program(la), Program(lb)]
    for n, who in enumerate(turns):
        p = progs[who]
        p.dist = None
        for i in range(len(p.ops)):
            message = safely(p.call, i) or safely(p.verdict, i)
            rec.transitions += 1
            if message:
                return 'turn %d, session %d, call %s: %s' % (n + 1, who + 1, p.ops[i], message)
    return None


def twins(chunk, rec):
    for la, lb in chunk:
        try:
            c04.attenuation(la), c04.attenuation(lb)
        except ref.Undefined:
            rec.undefined += 1
            continue
        for turns in TURNS:
            case = dict(kind='twins', a=links.encode(la), b=links.encode(lb), turns=turns)
            rec.current = case
            message = twin_case(la, lb, turns, rec)
            rec.states += 1
            if message:
                rec.violation(case, message)
                if rec.full:
                    return
            else:
                rec.traces += 1
                rec.outcome(la, lb, turns)
                rec.sample(case)


# ------------------------------------------------------------------- quantiles in turn

WAYS = [(k, m) for k in range(1, 8) for m in (0, 1, 2, 3, 13, 22, 31)]
ASKED = [(0.0, 0.0, 0.0), (1.7, 0.4, -0.5), (2.5, -1.0, 1.0), (-1.3, 0.7, 2.0)]


def turn_case(wa, wb, rec):
    """A asks, B asks, A asks on without any announcement, B too"""
    ways, sessions, spread = (wa, wb), [], []
    for w, link in ((wa, A1), (wb, A2)):
        s = links.prepare(link, klim=w[0], klimx=0, mdvar=w[1], mdvarx=-1)
        _, a = c04.attenuation(link)
        dist = 1.7 * a.dlsa
        sessions.append(lrprop(dist, s))
        sessions[-1]['lvar'] = 5
        spread.append((ref.spread(w[0], w[1], a.k.wn, a.k.he, a.k.dh, dist), a.aref(dist)))
    for who, part in ((0, ASKED[:1]), (1, ASKED), (0, ASKED), (1, ASKED)):
        for z in part:
            q, sessions[who] = avar(*z, sessions[who])
            rec.transitions += 1
            want = ref.quantile(*spread[who], *z)
            if not core.close(q, want):
                return 'session %d, climate and mode %r, deviates %r: %r, alone %r' % (who + 1, ways[who], z, q, want)
    return None


def quantiles(wa, rec):
    for wb in WAYS:
        case = dict(kind='turns', ways=[wa, wb])
        rec.current = case
        rec.states += 1
        message = safely(turn_case, wa, wb, rec)
        if message:
            rec.violation(case, message)
            if rec.full:
                return
        else:
            rec.traces += 1
            rec.outcome(wa, wb)
            rec.sample(case)


# ------------------------------------------------------------------- one preemption

class Tracer:
    """Counts the steps of itmlogic code; runs `action` before step number `at`"""

    def __init__(self, at, action, opcodes):
        self.at, self.action, self.opcodes, self.n = at, action, opcodes, 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            if self.n == self.at:
                self.action()
            self.n += 1
        return self.local


def prefix(p, upto):
    for i in range(upto):
        p.call(i)


def preempt(la, lb, ia, ib, at, opcodes, share=False):
    """Suspends call ia of a before its step `at`, runs call ib of b.  -> (message, steps, happened)"""
    a = Program(la)
    b = Program(lb, dict(a.session, kst=a.kst) if share else None)
    prefix(a, ia)
    prefix(b, ib)
    done = []

    def action():
        done.append(safely(b.call, ib) or safely(b.verdict, ib) or '')
    t = Tracer(at, action, opcodes)
    sys.settrace(t)
    try:
        message = safely(a.call, ia)
    finally:
        sys.settrace(None)
    message = message or safely(a.verdict, ia)
    if message:
        message = 'suspended call: ' + message
    elif done and done[0]:
        message = 'call run meanwhile: ' + done[0]
    elif done:
        m = safely(b.state, ib)
        message = m and 'call run meanwhile, afterwards: ' + m
    return message, t.n, bool(done)


def preemptions(chunk, rec):
    la, lb, ia, ib, opcodes, part, parts, share = chunk
    _, steps, _ = preempt(la, lb, ia, ib, -1, opcodes, share)
    for at in range(part, steps, parts):
        case = dict(kind='preemption', a=links.encode(la), b=links.encode(lb), ia=ia, ib=ib, at=at, opcodes=opcodes, share=share)
        rec.current = case
        message, n, happened = preempt(la, lb, ia, ib, at, opcodes, share)
        rec.transitions += 2
        rec.states += 1
        if message:
            rec.violation(case, message)
            if rec.full:
                return
            continue
        if not happened or n != steps:
            rec.capped += 1      # the call did not take the same steps again: coverage is not complete
            continue
        rec.traces += 1
        rec.outcome(ia, ib, at)
        rec.sample(case)


# ------------------------------------------------------------------- two preemptions

class Switch:
    """Two real threads; exactly one runs; it hands over before its numbered step"""

    def __init__(self, bodies, stops, on):
        self.bodies, self.stops, self.on = bodies, stops, on
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.finished = [False, False]
        self.result = [None, None]
        self.count = [0, 0]

    def tracer(self, who):
        def local(frame, event, arg):
            if event == 'line':
                if self.count[who] == self.stops[who] and not self.finished[1 - who]:
                    self.go[1 - who].release()
                    self.go[who].acquire()
                self.count[who] += 1
            return local

        def top(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        return top

    def body(self, who):
        self.go[who].acquire()
        sys.settrace(self.tracer(who))
        try:
            self.result[who] = safely(self.bodies[who])
        except BaseException as e:
            self.result[who] = repr(e)
        finally:
            sys.settrace(None)
            self.finished[who] = True
            self.go[1 - who].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(w,), daemon=True) for w in (0, 1)]
        for t in threads:
            t.start()
        self.go[0].release()
        for t in threads:
            t.join(30)
            if t.is_alive():
                return 'the two calls block each other'
        return self.result[0] or self.result[1]


def double(la, lb, ia, ib, at_a, at_b):
    a, b = Program(la), Program(lb)
    prefix(a, ia)
    prefix(b, ib)
    sw = Switch([lambda: a.call(ia), lambda: b.call(ib)], [at_a, at_b], None)
    message = sw.run()
    message = message or safely(a.verdict, ia) or safely(b.verdict, ib)
    return message, sw.count


def lines_of(link, i):
    p = Program(link)
    prefix(p, i)
    t = Tracer(-1, None, False)
    sys.settrace(t)
    try:
        p.call(i)
    finally:
        sys.settrace(None)
    return t.n


def doubles(chunk, rec):
    la, lb, ia, ib, part, parts = chunk
    na, nb = lines_of(la, ia), lines_of(lb, ib)
    for at_a in range(part, na, parts):
        for at_b in range(nb):
            case = dict(kind='double', a=links.encode(la), b=links.encode(lb), ia=ia, ib=ib, at=[at_a, at_b])
            rec.current = case
            message, count = double(la, lb, ia, ib, at_a, at_b)
            rec.transitions += 2
            rec.states += 1
            if message:
                rec.violation(case, message)
                if rec.full:
                    return
                continue
            if count != [na, nb]:
                rec.capped += 1
                continue
            rec.traces += 1
            rec.outcome(ia, ib, at_a, at_b)
            rec.sample(case)


# ------------------------------------------------------------------- inputs stay as given

def input_cases():
    from itmlogic.misc.qerfi import qerfi
    from itmlogic.misc.qtile import qtile
    from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
    from itmlogic.preparatory_subroutines.dlthx import dlthx
    from itmlogic.preparatory_subroutines.hzns import hzns
    for n in (1, 2, 3, 7, 30):
        for name, z in profiles.shaped(n):
            pfl = [n, 500.0] + list(z)
            d = n * 500.0
            yield 'least squares %s %d' % (name, n), zlsq1, (pfl, 0.0, d)
            yield 'least squares window %s %d' % (name, n), zlsq1, (pfl, 0.3 * d, 0.7 * d)
            yield 'irregularity %s %d' % (name, n), dlthx, (pfl, 0.05 * d, 0.9 * d)
            yield 'horizons %s %d' % (name, n), hzns, (pfl, d, [10.0, 5.0], 1.2e-7)
            yield 'least squares outside %s %d' % (name, n), zlsq1, (pfl, -200.0, d + 300.0)
            yield 'short window %s %d' % (name, n), zlsq1, (pfl, 0.41 * d, 0.42 * d)
            yield 'integers %s %d' % (name, n), dlthx, ([n, 500] + [int(v) for v in z], 0, d)
            yield 'low terminals %s %d' % (name, n), hzns, (pfl, d, [0, 0.2], 1.2e-7)
            yield 'curvature %s %d' % (name, n), hzns, (pfl, d, [3, 2000.0], 0.0)
    for q in ([0.5], [0.9, 0.1, 0.5], [0.01, 0.99, 0.3, 0.3], [0.0, 1.0, 1e-9], [-0.2, 1.3], [0.3] * 9, [1, 0]):
        yield 'deviates %r' % q, qerfi, (q,)
    for a in ([3, 1, 2], [5.0, -1.0, 5.0, 2.0], [1.0], [1, 2, 3, 4]):
        for r in range(len(a)):
            yield 'order statistic %r %d' % (a, r), qtile, (a, r)


def input_links():
    for link in c04.POOL + links.BASES + links.representatives():
        yield link
    for link in links.path_representatives():
        yield link
    for f, h1, h2, dh, k1, k2 in itertools.product((20.0, 900.0, 15000.0), (0.5, 4.0, 60.0, 2000.0), (1.0, 30.0, 1500.0),
                                                   (0, 30.0, 1000.0, 2000.0), (0, 1, 2), (0, 1, 2)):
        yield A1._replace(fmhz=f, h1=h1, h2=h2, dh=dh, k1=k1, k2=k2)
    for k1, k2 in ((3, 0), (0, 3), (-1, 2), (5, -2), (2, 7)):
        yield A1._replace(k1=k1, k2=k2)
    for h1, h2 in ((0.3, 10.0), (10.0, 0.2), (0.4, 0.4), (4000.0, 2.0), (5, 3500), (7, 7)):
        yield A1._replace(h1=h1, h2=h2)
        yield P1._replace(h1=h1, h2=h2)
        yield P2_._replace(h1=h1, h2=h2)
    for n in (1, 2, 3, 7, 30):
        for xi in (1000.0, 6000.0):
            for _, z in profiles.shaped(n):
                for h in ((10.0, 3.0), (100.0, 200.0)):
                    yield P2P(300.0, h[0], h[1], 301.0, 0.0, 15, 0.005, 1, xi, z)


GIVEN = ('hg', 'pfl')


def check_inputs_of_link(link):
    p = Program(link)
    given = {k: p.session[k] for k in GIVEN if k in p.session}
    if isinstance(link, Area):
        given['siting'] = p.kst
    before = copy.deepcopy(given)
    for i in range(len(p.ops)):
        m = safely(p.call, i)
        if m:
            return m
        for k, v in given.items():
            if v != before[k]:
                return 'call %s changed the %s it was given from %r to %r' % (p.ops[i], k, before[k], v)
            if k in p.session and list(p.session[k]) != before[k]:
                return 'call %s changed the session\'s %s from %r to %r' % (p.ops[i], k, before[k], p.session[k])
    return None


def inputs(chunk, rec):
    if chunk == 'functions':
        for name, f, args in input_cases():
            case = dict(kind='function', name=name)
            rec.current = case
            before = copy.deepcopy(args)
            message = safely(lambda: (f(*args), None)[1])
            rec.transitions += 1
            rec.states += 1
            if not message and args != before:
                message = '%s changed its arguments from %r to %r' % (name, before, args)
            if message:
                rec.violation(case, message)
            else:
                rec.traces += 1
                rec.outcome(name)
                rec.sample(case)
        return
    for link in chunk:
        case = dict(kind='inputs', a=links.encode(link))
        rec.current = case
        message = check_inputs_of_link(link)
        rec.transitions += 1
        rec.states += 1
        if message:
            rec.violation(case, message)
        else:
            rec.traces += 1
            rec.outcome(link)


def spaces(grade):
    quick = grade == 'small'
    deep = grade in ('large', 'huge')
    inter = [(a, b, False) for a, b in PAIRS] + [(a, b, True) for a, b in PAIRS if a == b or
                                                (a.h1, a.h2) == (b.h1, b.h2) and isinstance(a, Area) == isinstance(b, Area) and
                                                getattr(a, 'z', None) == getattr(b, 'z', None)]
    pre = []
    pairs = [(A1, A2), (P2_, P1), (A1, P2_), (P2_, A1), (P3, P3), (A3, A1)] if quick else PAIRS
    for la, lb, share in [(a, b, False) for a, b in pairs] + [(a, b, True) for a, b in SHARING]:
        na, nb = len(Program(la).ops), len(Program(lb).ops)
        for ia in range(na):
            for ib in range(nb if not quick and not share else 1 if share and grade != 'huge' else 3):
                for part in range(2 if quick else 8):
                    pre.append((la, lb, ia, ib, deep, part, 2 if quick else 8, share))
    dbl = []
    small = [(A1, A2, 0, 0), (A1, A2, 0, 2), (A1, A2, 4, 0), (A1, A2, 4, 4)]
    if not quick:
        small += [(P2_, P1, 1, 1), (A1, P2_, 0, 1), (P4, P1, 3, 3), (P4, A1, 0, 0)]
    if deep:
        small += [(A1, A2, 1, 1), (A1, A2, 2, 2), (A1, A2, 3, 3), (A2, A1, 0, 2), (P2_, A1, 2, 1), (P4, A3, 0, 2)]
    for la, lb, ia, ib in small:
        for part in range(4 if quick else 16):
            dbl.append((la, lb, ia, ib, part, 4 if quick else 16))
    return [
        core.Space('call interleavings', inter, interleavings,
                   'all interleavings of the calls of two sessions, %d pairs of links, with own or shared input lists' % len(inter)),
        core.Space('single preemptions', pre, preemptions,
                   'every %s of a call as preemption point, a whole call of the other session, also one given the same lists, run there' % (
                       'bytecode instruction' if deep else 'line')),
        core.Space('double preemptions', dbl, doubles,
                   'every pair of preemption lines of two overlapping calls on two threads'),
        core.Space('twins', core.chunked(twin_links(), 64), twins,
                   'pairs of links differing in one parameter, a few centimetres, or the order of the samples: '
                   'the two sessions run their programs in turn, repeatedly'),
        core.Space('quantiles in turn', WAYS, quantiles,
                   'all pairs of (climate, mode), each session asked on after the other without announcement'),
        core.Space('inputs unchanged', ['functions'] + core.chunked(input_links(), 16), inputs,
                   'argument lists compared before and after every public routine and every session program'),
    ]


def replay(case):
    rec = core.Recorder()
    if case['kind'] == 'function':
        inputs('functions', rec)
        return next((m for c, m in rec.violations if c == case), None)
    if case['kind'] == 'turns':
        return turn_case(*[tuple(w) for w in case['ways']], rec)
    a = links.decode(case['a'])
    if case['kind'] == 'inputs':
        return check_inputs_of_link(a)
    b = links.decode(case['b'])
    if case['kind'] == 'twins':
        return twin_case(a, b, case['turns'], rec)
    if case['kind'] == 'interleaving':
        return run_interleaving(a, b, case['order'], case['share'], rec)
    if case['kind'] == 'double':
        return double(a, b, case['ia'], case['ib'], *case['at'])[0]
    return preempt(a, b, case['ia'], case['ib'], case['at'], case['opcodes'], case.get('share', False))[0]
