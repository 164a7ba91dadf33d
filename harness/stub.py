"""Replace a function of the code under test by a stand-in, wherever falco
refers to it, for the duration of one run."""
import contextlib
import sys


@contextlib.contextmanager
def replaced(orig, new):
    done = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'falco' or name.startswith('falco.')):
            continue
        for k, v in list(vars(mod).items()):
            if v is orig:
                done.append((mod, k))
                setattr(mod, k, new)
    try:
        yield
    finally:
        for mod, k in done:
            setattr(mod, k, orig)
