"""C29: gap filling and frame joining keep all existing data."""

import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import real
from ..engine import Mismatch

PROP = "C29"
TECHNIQUE = "exhaustive enumeration of all presence patterns up to length n x maximum gap x value pattern x index, of all pairs and triples of column depths, and of all pairs of units, on the real functions against a first-principles model"
EXPLANATION = (
    "For every pattern of present and missing values up to length 8 (thorough: 10), every maximum gap, several value patterns"
    " (incl. infinite values and values of distinct magnitude) and indices (incl. clock changes, months, numbers, unevenly spaced),"
    " the result is compared with exact rational interpolation over elapsed time.  Frames of all pairs and triples of depths are"
    " joined along both axes, and every value must be found under its padded original label.  Series with all pairs of units are"
    " compared."
)
ASSUMPTIONS = ["interpolation is linear in elapsed time"]
NAN = float("nan")


def indices(n):
    return {
        "D": pd.date_range("2020-01-01", periods=n, freq="D"),
        "h-dst": pd.date_range("2020-10-25 00:00", periods=n, freq="h", tz="Europe/Berlin"),
        "D-dst": pd.date_range("2020-03-26", periods=n, freq="D", tz="Europe/Berlin"),
        "MS": pd.date_range("2020-01-01", periods=n, freq="MS", tz="America/New_York"),
        "ME": pd.date_range("2020-01-31", periods=n, freq="ME", tz="Europe/Berlin"),
        "range": pd.RangeIndex(n),
        "float": pd.Index([k * k / 2 + 1 for k in range(n)]),
    }


VALUES = {
    "lin": lambda k: 2.0 * k - 3.0,
    "zig": lambda k: [0.1, 0.3, -7.7, 1e3 / 3, 0.0][k % 5],
    "mag": lambda k: [1e17, 1.0, -3e16, 0.7][k % 4],
    "const": lambda k: 4.2,
    "inf": lambda k: [1.0, math.inf, 2.0, 5.0, -math.inf][k % 5],
}


def groups(tier):
    n = 8 if tier == "quick" else 10
    out = [{"part": "gaps", "n": k, "i": i, "v": v} for k in range(1, n + 1) for i in indices(2) for v in VALUES]
    out += [{"part": "concat", "axis": a, "d": d} for a in (0, 1) for d in range(1, 5)]
    out += [{"part": "header", "axis": a} for a in (0, 1)] + [{"part": "close"}]
    return out


def model(xs, vals, maxgap):
    out = list(vals)
    n = len(vals)
    k = 0
    while k < n:
        if not math.isnan(vals[k]):
            k += 1
            continue
        j = k
        while j < n and math.isnan(vals[j]):
            j += 1
        if k > 0 and j < n and j - k <= maxgap:
            y0, y1 = vals[k - 1], vals[j]
            for t in range(k, j):
                if math.isinf(y0) or math.isinf(y1):
                    out[t] = None  # not defined
                    continue
                f = Fraction(xs[t] - xs[k - 1], xs[j] - xs[k - 1])
                out[t] = float(Fraction(y0) + f * (Fraction(y1) - Fraction(y0)))
        k = j
    return out


def run_gaps(tools, rec, group, tier):
    n = group["n"]
    i = indices(n)[group["i"]]
    if isinstance(i, pd.DatetimeIndex):
        xs = [int(v) for v in i.asi8]
    else:
        xs = [Fraction(float(v)) for v in i]
    full = [VALUES[group["v"]](k) for k in range(n)]
    tol = 1e-9 * max([1.0] + [abs(v) for v in full if not math.isinf(v)])
    for keep in itertools.product((True, False), repeat=n):
        vals = [v if yes else NAN for v, yes in zip(full, keep)]
        s = pd.Series(vals, i, name="s", dtype=float)
        df = pd.DataFrame({("a", "x"): vals, ("a", "y"): full, ("b", "x"): vals[::-1]}, i)
        gaps = sorted({0, 1, 2, 3, n - 2, n}) if tier == "quick" else range(n + 1)
        for maxgap in (None, *gaps):
            if maxgap is not None and maxgap < 0:
                continue
            with rec.case(keep=keep, maxgap=maxgap):
                kw = {} if maxgap is None else {"maxgap": maxgap}
                mg = 2 if maxgap is None else maxgap
                got = tools.frame.fill_gaps(s, **kw)
                rec.step()
                check(got, s, vals, model(xs, vals, mg), tol)
                if not np.array_equal(s.values, vals, equal_nan=True):
                    raise Mismatch("input changed")
                if maxgap in (1, n) and sum(keep) % 2:
                    res = tools.frame.fill_gaps(df, mg)
                    if list(res.columns) != list(df.columns):
                        raise Mismatch("columns changed")
                    for c in df.columns:
                        check(res[c], df[c], list(df[c]), model(xs, list(df[c]), mg), tol)
                rec.state(group, keep, maxgap)


def check(got, s, vals, exp, tol):
    if not isinstance(got, pd.Series) or not got.index.equals(s.index) or got.name != s.name or real.freqname(got.index) != real.freqname(s.index) if isinstance(s.index, pd.DatetimeIndex) else False:
        raise Mismatch("index or name changed")
    g = [float(v) for v in got.values]
    for k, (a, v, e) in enumerate(zip(g, vals, exp)):
        if not math.isnan(v):
            if a != v:
                raise Mismatch(f"existing value {v!r} at {k} changed to {a!r}")
        elif e is None:
            continue
        elif math.isnan(e):
            if not math.isnan(a):
                raise Mismatch(f"missing value at {k} set to {a}, but gap may not be filled")
        elif not abs(a - e) <= tol:
            raise Mismatch(f"missing value at {k}: {a!r}, expected {e!r}")


# ---- joining


def frame(depth, width, seed, rows, swap):
    """-> frame with this many column levels, {label: values}"""
    base = ["w", "q", "a", ""]
    labels = []
    for k in range(width):
        lab = tuple(f"{base[(seed + lev) % 3]}{seed}{k if lev == depth - 1 else k % 2}" for lev in range(depth))
        labels.append(lab)
    vals = {lab: [seed * 100.0 + k * 10 + r for r in range(rows)] for k, lab in enumerate(labels)}
    cols = pd.MultiIndex.from_tuples(labels) if depth > 1 else [lab[0] for lab in labels]
    i = pd.date_range("2020-01-01", periods=rows, freq="D", tz="Europe/Berlin")
    df = pd.DataFrame(np.array(list(vals.values())).T, i, cols)
    return (df.T if swap else df), vals


def run_concat(tools, rec, axis, d0, tier):
    swap = axis == 0
    for rest in [(d,) for d in range(1, 5)] + [()] + list(itertools.product(range(1, 5), repeat=2)) + ([t for t in itertools.product(range(1, 4), repeat=3)] if tier == "thorough" else []):
        depths = (d0, *rest)
        for widths in itertools.product((1, 3), repeat=len(depths)) if len(depths) < 3 or tier == "thorough" else ((1, 2, 3), (3, 1, 1)):
            for short in (False, True):
                with rec.case(depths=depths, widths=widths, short=short):
                    made = [frame(d, w, k + 1, 3 - (short and k == 0), swap) for k, (d, w) in enumerate(zip(depths, widths))]
                    dfs = [m[0] for m in made]
                    copies = [df.copy() for df in dfs]
                    arg = dfs if len(depths) % 2 else (df for df in dfs)
                    got = tools.frame.concat(arg, axis, **({"join": "inner"} if short else {}))
                    rec.step()
                    for a, b in zip(dfs, copies):
                        pd.testing.assert_frame_equal(a, b)
                    if swap:
                        got = got.T
                    want = max(depths)
                    if got.columns.nlevels != want:
                        raise Mismatch(f"{got.columns.nlevels} levels, expected {want}")
                    exp = {}
                    for _, vals in made:
                        for lab, v in vals.items():
                            full = (*lab, *[""] * (want - len(lab)))
                            exp[full] = v[:2] if short else v
                    have = [c if isinstance(c, tuple) else (c,) for c in got.columns]
                    if have != list(exp):
                        raise Mismatch(f"labels {have}, expected {list(exp)}")
                    for k, lab in enumerate(have):
                        if [float(v) for v in got.iloc[:, k]] != exp[lab]:
                            raise Mismatch(f"{lab}: {list(got.iloc[:, k])}, expected {exp[lab]}")
                    if not got.index.equals(dfs[0].T.index if swap else dfs[0].index):
                        raise Mismatch("other axis changed")
                    rec.state(axis, depths, widths, short)


def run_header(tools, rec, axis):
    swap = axis == 0
    for depth in range(1, 5):
        for width in range(1, 5):
            for header in ("head", "", 5, ("a", "b")):
                with rec.case(depth=depth, width=width, header=header):
                    df, vals = frame(depth, width, 1, 3, swap)
                    got = tools.frame.add_header(df, header, axis) if swap or width % 2 else tools.frame.add_header(df, header)
                    rec.step()
                    got = got.T if swap else got
                    h = header if isinstance(header, tuple) else (header,)
                    exp = {(*h, *lab): v for lab, v in vals.items()}
                    if list(got.columns) != list(exp):
                        raise Mismatch(f"labels {list(got.columns)}, expected {list(exp)}")
                    for k, lab in enumerate(exp):
                        if [float(v) for v in got.iloc[:, k]] != exp[lab]:
                            raise Mismatch(f"{lab} has other values")
                    rec.state(axis, depth, width, header)
    with rec.case(pint=True):
        i = pd.date_range("2020", periods=2, freq="D")
        df = pd.DataFrame({"w": pd.Series([1.0, 2], i, dtype="pint[MW]"), "x": pd.Series([1.0, 2], i)})
        got = tools.frame.concat([tools.frame.add_header(df, "h"), df], 1)
        if list(got.columns) != [("h", "w"), ("h", "x"), ("w", ""), ("x", "")] or got.index.freq != i.freq:
            raise Mismatch(f"{list(got.columns)}")
        for k, c in enumerate(got.columns):
            if got.dtypes.iloc[k] != df.dtypes.iloc[k % 2]:
                raise Mismatch(f"{c}: dtype {got.dtypes.iloc[k]}")


UNITS = {None: (None, 1), "MW": ("w", 1), "kW": ("w", 1e-3), "GW": ("w", 1e3), "MWh": ("q", 1), "kWh": ("q", 1e-3), "Eur/MWh": ("p", 1), "ctEur/kWh": ("p", 10), "Eur": ("r", 1), "dimensionless": ("1", 1)}


def run_close(tools, rec):
    lists = [[1.0, 2.0, -4.5], [1.0, 2.0, -4.5 - 1e-9], [1.0, 2.0, -4.501], [1000.0, 2000.0, -4500.0], [0.001, 0.002, -0.0045], [0.0, 0.0, 0.0], [1.0, NAN, -4.5]]
    for (u1, (d1, f1)), (u2, (d2, f2)) in itertools.product(UNITS.items(), repeat=2):
        for a, b in itertools.product(lists, repeat=2):
            for kw in ({}, {"rtol": 0.01}, {"rtol": 0, "atol": 0}, {"equal_nan": True}):
                with rec.case(u1=u1, u2=u2, a=a, b=b, kw=kw):
                    mk = lambda v, u: pd.Series(v, dtype=float if u is None else f"pint[{u}]")
                    got = tools.frame.series_allclose(mk(a, u1), mk(b, u2), **kw)
                    rec.step()
                    rtol, atol = kw.get("rtol", 1e-5), kw.get("atol", 1e-8)
                    close, skip = d1 == d2, False
                    for x, y in zip(a, b):
                        y = y * f2 / f1
                        if math.isnan(x) or math.isnan(y):
                            close = close and kw.get("equal_nan", False) and math.isnan(x) and math.isnan(y)
                            continue
                        lim = atol + rtol * abs(y)
                        skip = skip or abs(abs(x - y) - lim) < 1e-12 * max(abs(x), abs(y), 1e-9) and f1 != f2
                        close = close and abs(x - y) <= lim
                    if bool(got) != close and not skip:
                        raise Mismatch(f"{got}, expected {close}")
                    rec.state(u1, u2, a, b, kw)


def run(group, rec, tier):
    from portfolyo import tools

    p = group["part"]
    if p == "gaps":
        run_gaps(tools, rec, group, tier)
    elif p == "concat":
        run_concat(tools, rec, group["axis"], group["d"], tier)
    elif p == "header":
        run_header(tools, rec, group["axis"])
    else:
        run_close(tools, rec)
