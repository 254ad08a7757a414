"""Small assertion helpers which raise Violation(mechanism)."""
import numpy as np
from numpy import linalg as LA

from .core import Violation


def require(cond, mechanism, **detail):
    if not bool(cond):
        raise Violation(mechanism, **detail)


def finite(value, mechanism, **detail):
    arr = np.asarray(value, dtype=float)
    if not np.all(np.isfinite(arr)):
        raise Violation(mechanism, value=arr, **detail)


def close(actual, expected, tol, mechanism, **detail):
    actual = np.asarray(actual, dtype=float)
    expected = np.asarray(expected, dtype=float)
    if actual.shape != expected.shape:
        raise Violation(mechanism, actual_shape=actual.shape, expected_shape=expected.shape, **detail)
    if not np.all(np.abs(actual - expected) <= tol):  # NaN fails, too
        raise Violation(mechanism, actual=actual, expected=expected, tol=tol, **detail)


def fingerprint(obj, _depth=0, _seen=None):
    """Recursive value-snapshot of an object, to observe that evaluation has no side-effects."""
    if _seen is None:
        _seen = set()
    if isinstance(obj, np.ndarray):
        return ("a", obj.shape, obj.tobytes())
    if isinstance(obj, (int, float, str, bool, type(None), np.generic)):
        return repr(obj)
    if id(obj) in _seen or _depth > 8:
        return "..."
    _seen = _seen | {id(obj)}
    if isinstance(obj, (list, tuple)):
        return tuple(fingerprint(o, _depth + 1, _seen) for o in obj)
    if isinstance(obj, dict):
        return tuple(
            (repr(k), fingerprint(v, _depth + 1, _seen)) for k, v in sorted(obj.items(), key=lambda kv: repr(kv[0]))
        )
    if callable(obj) and not hasattr(obj, "__dict__"):
        return "callable"
    if hasattr(obj, "__dict__"):
        return (type(obj).__name__, fingerprint(vars(obj), _depth + 1, _seen))
    return type(obj).__name__
