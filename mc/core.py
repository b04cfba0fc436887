"""
The exploration engine every check shares.

A property module (props/cNN.py) provides
    PID, LEVEL, ASSUMPTIONS
    spaces(grade)        -> list of Space: named finite spaces, each cut into chunks
    replay(case)         -> None, or a message: re-executes one recorded case on the real code
A Space enumerates *completely*: every chunk is a picklable description, `worker(chunk, rec)`
walks all of it and reports through a Recorder.  Nothing is sampled; a chunk that could not be
finished is an error, never a silent cap.
"""
import copy
import hashlib
import importlib
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')     # another tree only while developing the checks
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
PYTHON = '/opt/venv/bin/python'
CALL_LIMIT_S = 150           # processor time without any progress: this only ends a call that never returns
TICK_S = 25
MAX_VIOLATIONS_PER_CHUNK = 3
AFTER_VIOLATION_S = 15       # once a violation is known, how long to look for others
GRADE = {'smoke': 'small', 'quick': 'large', 'thorough': 'huge'}     # size of the spaces a tier walks

sys.dont_write_bytecode = True
for path in (HERE, os.path.join(REPO, 'src')):
    if path not in sys.path:
        sys.path.insert(0, path)


class NoReturn(BaseException):
    pass


class Space:
    def __init__(self, name, chunks, worker, rule, exhaustive=True):
        self.name, self.chunks, self.worker, self.rule = name, list(chunks), worker, rule
        self.exhaustive = exhaustive


class Recorder:
    """What one worker saw in one chunk."""

    def __init__(self):
        self.states = 0          # distinct states / configurations visited
        self.transitions = 0     # calls of the real code checked against the oracle
        self.traces = 0          # complete executions of the real code
        self.undefined = 0       # inputs for which the algorithm defines no value
        self.ties = 0            # accepted because the reference itself is discontinuous there
        self.capped = 0          # searches that stopped at a state cap before their fixpoint
        self.outcomes = set()    # distinct observed outcomes (hashed, capped)
        self.violations = []
        self.samples = []
        self.current = None

    def outcome(self, *values):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash(values))

    def sample(self, case):
        if len(self.samples) < 1:
            self.samples.append(case)

    def violation(self, case, message):
        if len(self.violations) < MAX_VIOLATIONS_PER_CHUNK:
            self.violations.append((case, message))

    @property
    def full(self):
        return len(self.violations) >= MAX_VIOLATIONS_PER_CHUNK


# ------------------------------------------------------------------------------ workers

_SPACES = None


class Watch:
    """Ends a call that never returns. What counts is processor time spent while the recorder did
    not move, so neither a long chunk nor a slow machine is mistaken for one."""

    def __init__(self, rec):
        self.rec, self.mark = rec, None
        self.cpu, self.wall = time.process_time(), time.monotonic()

    def __call__(self, signum, frame):
        rec = self.rec
        mark = (rec.states, rec.transitions, rec.traces, rec.undefined, rec.ties, rec.current)
        moved = mark[:5] != (self.mark or mark)[:5] or self.mark is None or mark[5] is not self.mark[5]
        if moved:
            self.mark, self.cpu, self.wall = mark, time.process_time(), time.monotonic()
        else:
            cpu, wall = time.process_time() - self.cpu, time.monotonic() - self.wall
            if cpu > CALL_LIMIT_S or wall > 2 * CALL_LIMIT_S and cpu < 4:      # spinning, or asleep
                raise NoReturn()
        signal.alarm(TICK_S)


def _work(job):
    si, ci = job
    space = _SPACES[si]
    rec = Recorder()
    signal.signal(signal.SIGALRM, Watch(rec))
    signal.alarm(TICK_S)
    error = None
    try:
        space.worker(space.chunks[ci], rec)
    except NoReturn:
        rec.violations.append((rec.current, 'a call did not return within %d s' % CALL_LIMIT_S))
    except (Exception, SystemExit) as e:
        # an error raised inside the code under test is a violation, one of ours is a check error
        frames = traceback.extract_tb(e.__traceback__)
        if frames and os.path.realpath(frames[-1].filename).startswith(os.path.realpath(REPO) + os.sep):
            rec.violations.append((rec.current, 'the code raised %s: %s at %s:%s' % (
                type(e).__name__, e, os.path.relpath(frames[-1].filename, REPO), frames[-1].name)))
        else:
            error = traceback.format_exc() + '\nlast case: ' + repr(rec.current)[:500]
    finally:
        signal.alarm(0)
    return si, ci, rec, error


def _serve(conn, parent):
    """A worker process: one job at a time, until told to stop or left alone."""
    while True:
        while not conn.poll(5):
            if os.getppid() != parent:
                os._exit(1)
        job = conn.recv()
        if job is None:
            return
        conn.send(_work(job))


def _results(jobs, n):
    """Hands the jobs to n worker processes and yields the results as they come. Each worker has a pipe
    of its own and nothing else in common with the others, so that ending early can kill them at any
    moment (multiprocessing.Pool.terminate can wait for ever for a lock a killed worker held)."""
    ctx = multiprocessing.get_context('fork')
    workers = {}                                           # pipe -> [process, job it has]
    todo = iter(jobs)
    try:
        for _ in range(n):
            ours, theirs = ctx.Pipe()
            process = ctx.Process(target=_serve, args=(theirs, os.getpid()), daemon=True)
            process.start()
            theirs.close()
            workers[ours] = [process, None]
        for conn, w in workers.items():
            w[1] = next(todo, None)
            conn.send(w[1])
        while any(w[1] is not None for w in workers.values()):
            busy = [c for c, w in workers.items() if w[1] is not None]
            ready = multiprocessing.connection.wait(busy, timeout=5)
            if not ready:
                yield None                                 # time to look at the clock
            for conn in ready:
                w = workers[conn]
                try:
                    result = conn.recv()
                except (EOFError, OSError):
                    job, w[1] = w[1], None
                    w[0].join()
                    yield job + (Recorder(), 'the worker process ended (exit code %s)' % w[0].exitcode)
                    continue
                w[1] = next(todo, None)
                conn.send(w[1])
                yield result
    finally:
        for conn, w in workers.items():
            w[0].kill()
        for conn, w in workers.items():
            w[0].join()
            conn.close()


def explore(spaces, processes=None):
    """Runs every chunk of every space; returns per-space totals and all violations."""
    global _SPACES
    _SPACES = spaces
    jobs = [(si, ci) for si, s in enumerate(spaces) for ci in range(len(s.chunks))]
    n = processes or min(os.cpu_count() or 1, 8, max(1, len(jobs)))
    totals = [dict(space=s.name, rule=s.rule, chunks=len(s.chunks), states=0, transitions=0,
                   traces=0, undefined=0, ties=0, capped=0, outcomes=set(), samples=[]) for s in spaces]
    violations, errors = [], []
    done, first = 0, None
    results = _results(jobs, n)
    for result in results:
        if result is None:
            if first and time.time() - first > AFTER_VIOLATION_S:
                break
            continue
        si, ci, rec, error = result
        done += 1
        t = totals[si]
        for k in ('states', 'transitions', 'traces', 'undefined', 'ties', 'capped'):
            t[k] += getattr(rec, k)
        t['outcomes'] |= rec.outcomes
        if rec.samples and len(t['samples']) < 3:
            t['samples'] += rec.samples
        for case, message in rec.violations:
            violations.append(((si, ci), case, message))
        if error:
            errors.append(((si, ci), error))
        if violations and first is None:
            first = time.time()
        if len(violations) > 40 or len(errors) > 5 or first and time.time() - first > AFTER_VIOLATION_S:
            break
    results.close()
    violations.sort(key=lambda v: v[0])
    complete = done == len(jobs)
    return totals, violations, errors, complete


# ------------------------------------------------------------------------------ reporting

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f).get('findings', []) if e['property'] == pid]


def grade(module, tier):
    return getattr(module, 'QUICK_GRADE', GRADE['quick']) if tier == 'quick' else GRADE[tier]


def main(module, tier, seed):
    start = time.time()
    pid = module.PID
    spaces = module.spaces(grade(module, tier))
    totals, violations, errors, complete = explore(spaces)
    if errors and not violations:
        for where, e in errors:
            print('check error in %s chunk %d:\n%s' % (spaces[where[0]].name, where[1], e),
                  file=sys.stderr)
        return 2

    known = known_findings(pid)
    seen_known, fresh = {}, []
    for where, case, message in violations:
        match = next((k for k in known if k['case'] == json.loads(json.dumps(case))), None)
        if match:
            seen_known[match['what']] = match
        else:
            fresh.append((where, case, message))
    for what in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))

    outcomes = 0
    coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, undefined_inputs=0,
                    accepted_at_discontinuities=0, searches_capped=0,
                    exhaustive=complete and not fresh, samples=[],
                    spaces=[])
    for t in totals:
        coverage['states'] += t['states']
        coverage['transitions'] += t['transitions']
        coverage['traces_validated_against_impl'] += t['traces']
        coverage['undefined_inputs'] += t['undefined']
        coverage['accepted_at_discontinuities'] += t['ties']
        coverage['searches_capped'] += t['capped']
        coverage['exhaustive'] = coverage['exhaustive'] and not t['capped']
        outcomes += len(t['outcomes'])
        coverage['samples'] += t['samples'][:2]
        coverage['spaces'].append(dict(space=t['space'], enumerates=t['rule'], chunks=t['chunks'],
                                       states=t['states'], transitions=t['transitions'],
                                       traces=t['traces'], undefined=t['undefined'],
                                       ties=t['ties'], capped=t['capped'], distinct_outcomes=len(t['outcomes'])))
    coverage['distinct_outcomes'] = outcomes
    coverage['evaluations'] = coverage['transitions']
    coverage['distinct_nontrivial'] = outcomes
    coverage['rule'] = ('every element of the named finite spaces; non-trivial: outcomes that differ '
                        'from each other')
    os.makedirs(EVIDENCE, exist_ok=True)
    path = None
    if fresh:
        where, case, message = fresh[0]
        path = write_replay(pid, spaces[where[0]], where, case, message, tier)
    evidence = dict(property=pid, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
                    assumptions=module.ASSUMPTIONS, wall_s=round(time.time() - start, 3),
                    violations=len(fresh), known_findings=sorted(seen_known))
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')
    for t in coverage['spaces']:
        print('%s %-34s states=%d transitions=%d traces=%d undefined=%d ties=%d outcomes=%d' % (
            pid, t['space'], t['states'], t['transitions'], t['traces'], t['undefined'], t['ties'],
            t['distinct_outcomes']))
    if fresh:
        for where, case, message in fresh[:3]:
            print('%s: %s\n  case %s' % (pid, message, json.dumps(case, default=str)[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not complete or any(t['transitions'] == 0 for t in coverage['spaces']):
        print('check error: a space was not explored completely or was empty', file=sys.stderr)
        return 2
    print('%s holds on everything explored (%d states, %d transitions, %.1f s)' % (
        pid, coverage['states'], coverage['transitions'], time.time() - start))
    return 0


def write_replay(pid, space, where, case, message, tier):
    folder = os.path.join(EVIDENCE, 'replays')
    os.makedirs(folder, exist_ok=True)
    body = dict(property=pid, space=space.name, chunk=where[1], tier=tier, case=case,
                message=message, how='/opt/venv/bin/python /verif/mc/replay.py <this file>')
    text = json.dumps(body, indent=1, default=str)
    name = '%s-%s.json' % (pid, hashlib.sha256(text.encode()).hexdigest()[:12])
    path = os.path.join(folder, name)
    with open(path, 'w') as f:
        f.write(text + '\n')
    alone = 0
    for _ in range(2):
        try:
            r = subprocess.run([PYTHON, os.path.join(HERE, 'replay.py'), path], timeout=60,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            alone += r.returncode == 1
        except subprocess.TimeoutExpired:
            alone += 1
    body['reproduced_alone'] = '%d of 2 fresh processes' % alone
    if not alone:
        body['note'] = ('the case fails only after the earlier cases of its chunk: replay with '
                        '--chunk')
    with open(path, 'w') as f:
        f.write(json.dumps(body, indent=1, default=str) + '\n')
    return path


# ------------------------------------------------------------------------------ comparing numbers

def num(x):
    """A plain float, or None if it is not a real finite number"""
    try:
        if isinstance(x, complex):
            return None
        v = float(x)
    except (TypeError, ValueError):
        return None
    return v if math.isfinite(v) else None


def close(a, b, atol=1e-6, rtol=1e-7):
    """a: observed (anything), b: expected (a finite float)"""
    a = num(a)
    return a is not None and abs(a - b) <= atol + rtol * abs(b)


def chunked(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


_ATOMS = (int, float, complex, str, bool, type(None))


def clone(x):
    """A deep copy of a session"""
    t = type(x)
    if t is dict:
        return {k: clone(v) for k, v in x.items()}
    if t is list:
        return [v if type(v) in _ATOMS else clone(v) for v in x]
    if t in _ATOMS:
        return x
    return copy.deepcopy(x)
