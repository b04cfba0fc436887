"""branches.py TIER ID...: which directions of the code's branches each check's spaces take (a development aid:
a direction that no check takes is a place where a change goes unseen)."""
import dis, glob, os, sys, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'mc'))
import core
TOOL, seen, last = 4, set(), [time.time()]
OUT = '/tmp/branches'
SRC = os.path.join(core.REPO, 'src') + os.sep
SCR = os.path.join(core.REPO, 'scripts') + os.sep
codes = {}

def on_branch(code, offset, dest):
    if not code.co_filename.startswith((SRC, SCR)):
        return sys.monitoring.DISABLE
    seen.add((code.co_filename, code.co_qualname, code.co_firstlineno, offset, dest))

def work(job, inner=core._work):
    mon = sys.monitoring
    if not mon.get_tool(TOOL):
        mon.use_tool_id(TOOL, 'branches')
        mon.register_callback(TOOL, mon.events.BRANCH, on_branch)
        mon.set_events(TOOL, mon.events.BRANCH)
    out = inner(job)
    with open('%s/%d' % (OUT, os.getpid()), 'w') as f:
        f.write('\n'.join(repr(s) for s in seen))
    return out

def all_codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            yield from all_codes(c)

def main():
    tier, ids = sys.argv[1], sys.argv[2:]
    os.makedirs(OUT, exist_ok=True)
    core._work = work
    total = set()
    for pid in ids:
        for f in glob.glob(OUT + '/*'):
            os.remove(f)
        m = importlib.import_module('props.' + pid.lower())
        seen.clear()
        _, violations, errors, _ = core.explore(m.spaces(core.grade(m, tier)))
        got = set()
        for f in glob.glob(OUT + '/*'):
            got |= {eval(l) for l in open(f)}
        total |= got
        print(pid, len(got), 'directions', len(violations), 'violations', len(errors), 'errors', flush=True)
        report(got)
    print('ALL')
    report(total)

def report(got):
    files = {g[0] for g in got}
    for f in sorted(files):
        top = compile(open(f).read(), f, 'exec')
        for c in all_codes(top):
            if not any(g[0] == f and g[1] == c.co_qualname and g[2] == c.co_firstlineno for g in got):
                continue
            lines = {}
            for i in dis.get_instructions(c):
                if i.starts_line: cur = i.starts_line
                lines[i.offset] = cur
                if i.opname.startswith('POP_JUMP_IF'):
                    hit = {g[4] for g in got if g[0] == f and g[1] == c.co_qualname and g[2] == c.co_firstlineno and g[3] == i.offset}
                    jump = i.argval in hit
                    fall = bool(hit - {i.argval})
                    if not (jump and fall):
                        src = open(f).read().splitlines()[cur - 1].strip()
                        print('   %s:%d %s: %s' % (os.path.relpath(f, core.REPO), cur, 'never reached' if not hit else
                              'always ' + ('false' if (jump == ('IF_FALSE' in i.opname)) else 'true'), src[:80]))
main()
