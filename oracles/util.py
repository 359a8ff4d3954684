"""Shared parts of the cross-checks."""
import os


def fresh_constants():
    """the constants are global: start each case from the same state"""
    import importlib
    from oelint_parser import constants
    C = constants.CONSTANTS
    if not hasattr(fresh_constants, "saved"):
        import copy
        fresh_constants.saved = {k: copy.deepcopy(v) for k, v in vars(C).items()}
    import copy
    vars(C).clear()
    vars(C).update(copy.deepcopy(fresh_constants.saved))


def write(tmp, files):
    for n, t in files.items():
        p = os.path.join(tmp, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="") as f:
            f.write(t)


def stash(**kw):
    from oelint_parser.cls_stash import Stash
    fresh_constants()
    return Stash(quiet=True, **kw)


def pick(rng, xs, lo, hi):
    return [rng.choice(xs) for _ in range(rng.randint(lo, hi))]
