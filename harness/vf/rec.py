"""Turning arrays into what TLC can read: quantised integers and interned identities."""
import hashlib
import numpy as np

ONE = 1 << 20
NANV = 1 << 29          # stands for NaN: far from every legal value
CLIP = 1 << 28


def q(arr, scale, one=ONE):
    """Quantise an output for comparison: x / scale in units of 1/one, clipped, NaN made visible."""
    a = np.asarray(arr, dtype=float)
    s = np.asarray(scale, dtype=float)
    with np.errstate(all="ignore"):
        x = a / np.where(s == 0, 1.0, s) * one
    bad = np.isnan(x)
    x = np.clip(np.rint(np.where(bad, 0, x)), -CLIP, CLIP)
    x = np.where(bad, NANV, x).astype(np.int64)
    return x.tolist()


def qf(arr, scale):
    """Quantise a factor for products: clipped to 0.9 so that Mul cannot overflow."""
    a = np.asarray(arr, dtype=float)
    with np.errstate(all="ignore"):
        x = a / scale * ONE
    x = np.nan_to_num(x, nan=0.9 * ONE, posinf=0.9 * ONE, neginf=-0.9 * ONE)
    return np.clip(np.rint(x), -0.9 * ONE, 0.9 * ONE).astype(np.int64).tolist()


def amax(*arrs, default=1.0):
    m = 0.0
    for a in arrs:
        a = np.asarray(a, dtype=float)
        f = a[np.isfinite(a)]
        if f.size:
            m = max(m, float(np.max(np.abs(f))))
    return m if m > 0 else default


def digest(a):
    """Identity of a value: shape, dtype kind and bytes (-0.0 and 0.0 identified)."""
    if a is None:
        return "None"
    if isinstance(a, (tuple, list)):
        return "(" + ",".join(digest(x) for x in a) + ")"
    x = np.ascontiguousarray(np.asarray(a))
    if x.dtype.kind == "f":
        x = x.astype(np.float64) + 0.0
    if x.dtype.kind == "O":                                          # dates of other calendars: by what they say
        x = np.array([repr(e) for e in x.ravel()]).reshape(x.shape)
    return f"{x.shape}:{hashlib.md5(x.tobytes()).hexdigest()[:16]}"


class Intern:
    """Digests to small integers (0 is never used)."""
    def __init__(self):
        self.d = {}

    def __call__(self, a):
        return self.d.setdefault(digest(a), len(self.d) + 1)
