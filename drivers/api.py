"""Access to the code under test (imported from /repo's working tree) and projection helpers."""
import contextlib, hashlib, io, os, sys, warnings
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
from vlib import check  # noqa: E402


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


with quiet():
    import drdmannturb as D  # noqa: E402
    import torch  # noqa: E402
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator  # noqa: E402,F401
assert os.path.realpath(D.__file__).startswith(os.path.realpath(REPO)), D.__file__
FFG = D.FluctuationFieldGenerator


def call(fn, *a, **k):
    """(outcome, value): outcome is 'ok' or the name of the exception's class (ValueError for its subclasses). A call that does not return ends the check (clause Hang)."""
    try:
        with quiet(), check.deadline():
            return "ok", fn(*a, **k)
    except ValueError as e:
        return "ValueError", e
    except AssertionError as e:
        return "AssertionError", e
    except RuntimeError as e:
        return "RuntimeError", e
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, e


def r(x):
    """A real as the specification reads it."""
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def rs(xs):
    return [r(x) for x in np.asarray(xs, dtype=float).ravel()]


def rows(a):
    """Nested list of reals of an array."""
    a = np.asarray(a, dtype=float)
    return r(a) if a.ndim == 0 else [rows(x) for x in a]


def digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()).hexdigest()[:12]


def np_rng():
    s = np.random.get_state()
    return hashlib.sha1(s[1].tobytes() + repr(s[2:]).encode()).hexdigest()[:12]


def torch_rng():
    return hashlib.sha1(torch.get_rng_state().numpy().tobytes()).hexdigest()[:12]


def in_child(fn, *a):
    """Run fn in a forked child (pristine process state) and return its result."""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            try:
                res = ("ok", fn(*a))
            except BaseException as e:  # noqa: BLE001
                res = ("err", type(e).__name__ + ": " + str(e)[:200])
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f, protocol=4)
        except BaseException:  # noqa: BLE001
            code = 1
        os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return "err", "child died"
    return pickle.loads(data)
