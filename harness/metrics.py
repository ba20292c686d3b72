"""What the checks of single metrics have in common: values as exact fractions, visits, running a
metric on shuffled copies and on untouched visits."""
import random
import warnings
from fractions import Fraction

import numpy as np


def frac(x, limit=20000, tol=1e-9):
    """[n, d] in lowest terms of the fraction a floating point result stands for, or None."""
    if not np.isfinite(x):
        return None
    # the largest denominator for which the fraction nearest to a rounded value is the right one
    limit = max(1, min(limit, int((1.0 / (1e-14 * max(1e-6, abs(float(x))))) ** 0.5)))
    f = Fraction(float(x)).limit_denominator(limit)
    if abs(f.numerator) < 2**30 and abs(float(f) - float(x)) <= tol * max(1.0, abs(float(x))):
        return [f.numerator, f.denominator]
    return None


def num(x, bad=None, sq=False, limit=20000, tol=1e-9):
    """A result as the specifications take it (Rat!IsNum)."""
    if isinstance(x, (np.ndarray, list, tuple)) and np.size(x) == 1:
        x = np.asarray(x).reshape(-1)[0]
    if isinstance(x, np.ma.core.MaskedConstant):
        return dict(k="masked")
    if x is None or isinstance(x, (str, bytes, np.ndarray, dict, list, tuple)):
        return dict(k="?", r=repr(x)[:80])
    try:
        x = float(x)
    except (TypeError, ValueError):
        return dict(k="?", r=repr(x)[:80])
    if bad is not None and (x == bad or (np.isnan(x) and np.isnan(bad))):
        return dict(k="bad")
    if np.isnan(x):
        return dict(k="nan")
    if np.isinf(x):
        return dict(k="inf")
    f = frac(x, limit, tol)
    out = dict(k="n", n=f[0], d=f[1]) if f else dict(k="x", r="%.9g" % x)
    if sq:
        out["sq"] = frac(x * x, 10**6, tol) or [0, 0]
        out["sgn"] = 0 if abs(x) < 1e-9 else 1 if x > 0 else -1
    return out


def table(**cols):
    """A structured array of visits."""
    n = len(next(iter(cols.values())))
    dt = []
    # (in any order: sorting by one column is decided by the others, in order, where it ties)
    names = list(cols)
    random.Random(str([n] + [str(v)[:40] for v in cols.values()])).shuffle(names)
    cols = {c: cols[c] for c in names}
    for c, v in cols.items():
        a = np.asarray(v)
        dt.append((c, a.dtype if a.dtype.kind in "iufb" else "O" if a.dtype.kind == "O" else "U40"))
    out = np.zeros(n, dtype=dt)
    for c, v in cols.items():
        out[c] = v
    return out


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def same_visits(a, b):
    return a.dtype == b.dtype and len(a) == len(b) and all(
        np.array_equal(a[c], b[c], equal_nan=a[c].dtype.kind == "f") for c in a.dtype.names)


def run(metric, data, point=None):
    """The result of a metric and whether it left the visits as they were."""
    keep = data.copy()
    r = quiet(metric.run, data, point)
    return r, same_visits(keep, data)


def close(a, b):
    """The same numbers up to rounding."""
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def runs(rng, make, data, enc, point=None, order=True):
    """The encoded result, whether a shuffled copy gives the same, whether the visits were kept.

    `make` gives a fresh metric for every run."""
    try:
        r, kept = run(make(), data.copy(), point)
    except Exception as ex:
        return dict(k="raised", r=repr(ex)[:200]), True, True
    g = enc(r)
    same = True
    if order and len(data) > 1:
        p = list(range(len(data)))
        rng.shuffle(p)
        r2, kept2 = run(make(), data[p], point)
        same = enc(r2) == g or close(r, r2)
        kept = kept and kept2
    return g, same, kept


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def throughputs(root):
    """A data directory with simple bandpasses (the real ones are not installed), for metrics with dust."""
    import os

    d = root / "data" / "throughputs" / "baseline"
    d.mkdir(parents=True, exist_ok=True)
    for f, (a, b) in dict(u=(325, 400), g=(400, 550), r=(550, 690), i=(690, 820), z=(820, 920), y=(920, 1060)).items():
        (d / f"total_{f}.dat").write_text("".join(f"{w} {0.5 if a <= w <= b else 0.0}\n" for w in range(300, 1151)))
    os.environ["RUBIN_SIM_DATA_DIR"] = str(root / "data")
