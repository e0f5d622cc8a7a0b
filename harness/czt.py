"""Common parts of the conformance harness: coding of the real library's
values on the integer grid of the specification, guarded calls, seeds."""
import os, signal, sys, warnings, random, math
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("CZ_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np
np.seterr(all="ignore")

U = 180                       # grid units per Angstrom
EPS = 1e-3                    # a value this far (in units) from the grid is off it


def A(ints):
    """grid units -> Angstrom"""
    return np.array(ints, dtype=float) / U


def AZ(ints):
    """the same, as whole numbers where they are (about every other time)"""
    a = np.array(ints)
    return a // U if a.size and not np.any(a % U) and np.sum(a // U) % 2 == 0 else A(ints)


def snap(arr, unit=U, eps=EPS):
    """Angstrom -> (nested list of ints, number of entries off the grid)"""
    a = np.asarray(arr, dtype=float) * unit
    bad = ~np.isfinite(a) | (np.abs(np.nan_to_num(a)) > 200000)     # 32-bit arithmetic in TLC
    a = np.where(bad, 0.0, a)
    r = np.rint(a)
    off = int(np.sum((np.abs(a - r) > eps) | bad))
    return r.astype(int).tolist(), off


def code(arr, scale):
    """real -> integer number of 1/scale (used where the spec keeps tolerances)"""
    a = np.asarray(arr, dtype=float) * scale
    a = np.where(np.isfinite(a), np.clip(a, -2**30, 2**30), 2**30)
    return np.rint(a).astype(int).tolist()


class _Alarm(Exception):
    pass


def _handler(signum, frame):
    raise TimeoutError("call took too long")


def guarded(fn, seconds=20):
    """run fn; returns (value, "" or the name of the exception)"""
    old = signal.signal(signal.SIGALRM, _handler)
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = fn()
        return v, ""
    except TimeoutError:
        return None, "TimeoutError"
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:          # noqa: the library's own rejection
        return None, type(e).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def rng_for(seed, *parts):
    return random.Random("/".join(map(str, (seed,) + parts)))
