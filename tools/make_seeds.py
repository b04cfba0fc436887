"""make_seeds.py: builds /verif/seeded from tools/seeds/*.seed, validating each in a scratch copy.

A .seed file is a Python file defining: property, needs, breaks, edits=[(file, old, new)], demo (text)
"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
only = sys.argv[1:]
WT = '/tmp/seedwt'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ENV = dict(os.environ, PYTHONPATH=WT + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
bad = []
for path in sorted(glob.glob(HERE + '/seeds/*.seed')):
    sid = os.path.basename(path)[:-5]
    if only and sid not in only:
        continue
    spec = {}
    exec(open(path).read(), spec)
    sh('rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt; git -C /tmp/seedwt checkout -q -- .')
    folder = '/tmp/seedout/' + sid
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    shutil.copy(HERE + '/seeds/helper.py', folder + '/helper.py')
    open(folder + '/demo.py', 'w').write('from helper import *\n' + spec['demo'].lstrip('\n'))
    open(folder + '/demo.sh', 'w').write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'exec /opt/venv/bin/python -B "$here/demo.py"\n')
    os.chmod(folder + '/demo.sh', 0o755)
    json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']),
              open(folder + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % folder, cwd=WT, env=ENV)
    for f, old, new in spec['edits']:
        p = WT + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'EDIT MATCHES', s.count(old), repr(old)); bad.append(sid); break
        open(p, 'w').write(s.replace(old, new))
    else:
        diff = sh('git diff', cwd=WT).stdout
        open(folder + '/patch.diff', 'w').write(diff)
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -5', cwd=WT, env=ENV)
        okt = '20 passed' in t.stdout and '1 failed' in t.stdout or '21 passed' in t.stdout
        r1 = sh('bash %s/demo.sh' % folder, cwd=WT, env=ENV)
        good = r0.returncode == 0 and r1.returncode != 0 and okt
        print(sid, spec['property'], 'clean', r0.returncode, 'patched', r1.returncode, 'tests', okt, '' if good else '<<<<< BAD',
              r1.stdout.strip().splitlines()[-1:] )
        if not good:
            bad.append(sid); print(r0.stdout[-500:], t.stdout[-700:], r1.stdout[-300:])
        else:
            dst = VERIF + '/seeded/' + sid
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(folder, dst)
sh('rm -rf /tmp/seedwt /tmp/seedout')
print('bad:', bad)
