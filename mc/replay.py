"""
python replay.py FILE [--chunk]

Re-executes one recorded violation on the real code, without the explorer: exit 1 and the message
if it still fails, exit 0 if it does not.  --chunk first repeats the cases that preceded it.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
import importlib
import core

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        body = json.load(f)
    module = importlib.import_module('props.' + body['property'].lower())
    if '--chunk' in sys.argv[2:]:
        space = next(s for s in module.spaces(core.grade(module, body['tier'])) if s.name == body['space'])
        rec = core.Recorder()
        space.worker(space.chunks[body['chunk']], rec)
        message = rec.violations[0][1] if rec.violations else None
    else:
        message = module.replay(body['case'])
    print(message or 'holds')
    sys.exit(1 if message else 0)
