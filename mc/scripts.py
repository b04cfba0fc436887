"""Loading the runner scripts of /repo/scripts."""
import contextlib
import importlib
import io
import os
import sys
import warnings

import core

FOLDER = os.path.join(core.REPO, 'scripts')
_LOADED = {}


def load(name):
    if name not in _LOADED:
        if FOLDER not in sys.path:
            sys.path.insert(0, FOLDER)
        warnings.simplefilter('ignore')
        with quiet():
            _LOADED[name] = importlib.import_module(name)
    return _LOADED[name]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
