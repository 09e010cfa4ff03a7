"""Generic machinery: exact/approximate structural comparison, snapshots, recorders, explorers.

Nothing in here knows about lenstronomy.
"""
import copy
import hashlib
import json

import numpy as np


# --------------------------------------------------------------------------- comparison
def _is_num(a):
    return isinstance(a, (int, float, complex, np.number, np.bool_)) and not isinstance(a, bool)


def diff(a, b, rtol=1e-8, atol=1e-10, path=""):
    """None when the nested structures agree, else a short description of the first difference.

    Lists, tuples and arrays of equal shape are interchangeable (a caller cannot rely on which of
    them is returned), numbers are compared with tolerance, NaN equals NaN.
    """
    if a is b:
        return None
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return "%s: %s vs %s" % (path, type(a).__name__, type(b).__name__)
        if set(a) != set(b):
            return "%s: keys %s vs %s" % (path, sorted(map(str, set(a) - set(b))), sorted(map(str, set(b) - set(a))))
        for k in a:
            d = diff(a[k], b[k], rtol, atol, "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if a is None or b is None:
        return "%s: %s vs %s" % (path, short(a), short(b))
    if isinstance(a, str) or isinstance(b, str):
        return None if (isinstance(a, str) and isinstance(b, str) and a == b) else "%s: %s vs %s" % (path, short(a), short(b))
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        fa, fb = _as_float_array(a), _as_float_array(b)
        if fa is not None and fb is not None:
            if fa.shape != fb.shape:
                return "%s: shape %s vs %s" % (path, fa.shape, fb.shape)
            return _num_diff(fa, fb, rtol, atol, path)
        if _is_num(a) or _is_num(b) or isinstance(a, bool) or isinstance(b, bool):
            return "%s: %s vs %s" % (path, short(a), short(b))
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return None if bool(a) == bool(b) else "%s: %s vs %s" % (path, a, b)
    if _is_num(a) and _is_num(b) or isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return _num_diff(np.asarray(a, dtype=complex if np.iscomplexobj(a) else float),
                         np.asarray(b, dtype=complex if np.iscomplexobj(b) else float), rtol, atol, path)
    try:
        if a == b:
            return None
    except Exception:
        pass
    return "%s: %s vs %s" % (path, short(a), short(b))


def _as_float_array(a):
    if _is_num(a):
        return np.asarray(a)
    try:
        arr = np.asarray(a)
    except Exception:
        return None
    if arr.dtype == bool or np.issubdtype(arr.dtype, np.number):
        return arr
    return None


def _num_diff(fa, fb, rtol, atol, path):
    ca = fa.astype(complex if np.iscomplexobj(fa) or np.iscomplexobj(fb) else float)
    cb = fb.astype(ca.dtype)
    both_nan = np.isnan(ca) & np.isnan(cb)
    with np.errstate(all="ignore"):
        near = np.abs(ca - cb) <= atol + rtol * np.maximum(np.abs(ca), np.abs(cb))
        # an infinite number is equal only to itself (the tolerance would be infinite, too)
        ok = both_nan | (ca == cb) | (np.isfinite(ca) & np.isfinite(cb) & near)
    if np.all(ok):
        return None
    bad = np.argwhere(~ok)
    i = tuple(bad[0]) if bad.size else ()
    return "%s%s: %r vs %r (%d of %d entries differ)" % (
        path, list(map(int, i)) if i else "", complex(ca[i]) if np.iscomplexobj(ca) else float(ca[i]),
        complex(cb[i]) if np.iscomplexobj(cb) else float(cb[i]), int(np.sum(~ok)), ca.size)


def exact_diff(a, b):
    return diff(a, b, rtol=0.0, atol=0.0)


def short(a, n=160):
    s = repr(a).replace("\n", " ")
    return s if len(s) <= n else s[: n - 3] + "..."


def snap(x):
    return copy.deepcopy(x)


def digest(x, nd=9):
    """Canonical digest of a nested result, insensitive to rounding noise (used to count distinct
    observed outcomes / states, never to decide a property)."""
    h = hashlib.sha1()
    _feed(h, x, nd)
    return h.hexdigest()[:16]


def _feed(h, x, nd):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            _feed(h, x[k], nd)
    elif isinstance(x, (list, tuple)) and not _all_numbers(x):
        h.update(b"L%d" % len(x))
        for y in x:
            _feed(h, y, nd)
    elif isinstance(x, (np.ndarray, list, tuple)) or _is_num(x):
        arr = np.asarray(x)
        if arr.dtype == object:
            for y in arr.ravel():
                _feed(h, y, nd)
            return
        if np.issubdtype(arr.dtype, np.complexfloating):
            arr = np.stack([arr.real, arr.imag])
        arr = arr.astype(float)
        with np.errstate(all="ignore"):
            mag = np.where((arr == 0) | ~np.isfinite(arr), 1.0, 10.0 ** np.floor(np.log10(np.abs(np.where(arr == 0, 1, arr)))))
            r = np.round(arr / mag, nd) * mag + 0.0
        h.update(str(arr.shape).encode())
        h.update(np.array2string(r, precision=nd, threshold=10 ** 7).encode() if r.size < 40 else r.round(nd).tobytes())
    else:
        h.update(repr(x).encode())


def _all_numbers(x):
    return all(_is_num(y) for y in x)


# --------------------------------------------------------------------------- recorder
class Violation(Exception):
    """Raised by a case to stop it after a recorded violation."""


class Rec:
    """Collects what one case explored.  ``key`` of a violation is stable (no floats, no addresses),
    so that a known finding can be listed by it."""

    MAX_PER_CASE = 5

    def __init__(self, case_id):
        self.case = case_id
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.violations = []
        self.samples = []
        self.muted = 0

    def state(self, key):
        self.states.add(key if isinstance(key, str) else digest(key))

    def outcome(self, value):
        self.outcomes.add(digest(value))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v, 300) for k, v in kw.items()})

    def viol(self, key, detail):
        key = "%s|%s" % (self.case, key)
        if any(v["key"] == key for v in self.violations):
            return
        if len(self.violations) >= self.MAX_PER_CASE:
            self.muted += 1
            return
        self.violations.append({"key": key, "case": self.case, "detail": str(detail)[:2000]})

    def same(self, key, a, b, rtol=1e-8, atol=1e-10, what=""):
        """Record one evaluation that ``a`` (observed) equals ``b`` (expected)."""
        self.evals += 1
        d = diff(a, b, rtol, atol)
        if d:
            self.viol(key, "%s observed vs expected differ: %s" % (what, d))
            return False
        return True

    def true(self, key, cond, detail=""):
        self.evals += 1
        if not cond:
            self.viol(key, detail)
            return False
        return True

    def unchanged(self, key, before, after, what="argument"):
        self.evals += 1
        d = exact_diff(before, after)
        if d:
            self.viol(key, "%s was modified by the call: %s" % (what, d))
            return False
        return True

    def raises(self, key, fn, exc=Exception, detail=""):
        self.evals += 1
        try:
            fn()
        except exc:
            return True
        self.viol(key, detail or "expected an error, none was raised")
        return False

    def dump(self):
        return dict(case=self.case, states=self.states, outcomes=self.outcomes, transitions=self.transitions,
                    traces=self.traces, evals=self.evals, violations=self.violations, samples=self.samples,
                    muted=self.muted)


# --------------------------------------------------------------------------- explorers
def explore_histories(rec, build, ops, observe, expected, depth, canon=None, dedup=False, key=None,
                      rtol=1e-8, atol=1e-10, include_empty=True):
    """Enumerate every operation sequence over ``ops`` up to ``depth`` on the real object.

    build() -> (real, model): a fresh real object and a fresh reference state
    ops: list of (name, apply(real, model) -> None) ; apply performs the operation on both
    observe(real) -> nested structure of observations
    expected(model) -> the same structure computed from the reference
    canon(model): canonical reference state, counted as the model state (and used for pruning
        when dedup is True -- only sound where the caller argues so)
    """
    import itertools

    seen = set()
    start = 0 if include_empty else 1
    for d in range(start, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            real, model = build()
            for i in seq:
                ops[i][1](real, model)
                rec.trans()
            names = ">".join(ops[i][0] for i in seq) or "init"
            obs = observe(real)
            exp = expected(model)
            rec.trace()
            if canon is not None:
                k = digest(canon(model))
                rec.states.add(k)
                seen.add(k)
            rec.outcome(exp)
            rec.same(key or "history", obs, exp, rtol, atol, what="after history [%s]" % names)
    return seen


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return short(x)
