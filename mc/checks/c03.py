"""C03: portfolio-line arithmetic - kind table and exact values on the overlap."""

import datetime as dt
import operator

import numpy as np
import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch

PROP = "C03"
TECHNIQUE = "exhaustive enumeration of all operator/operand combinations on the real code against a reference model of portfolio lines"
EXPLANATION = (
    "Cross product operator x left (kind, structure) x right (kind, structure incl. equal/overlapping/distinct child"
    " names) x index relation (equal, shifted, contained, containing, disjoint, other freq/tz/start-of-day), plus every"
    " non-portfolio-line operand (numbers, quantities, series, dictionaries, None) on both sides."
)
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "|": operator.or_}
# (tz, freq, sod, start, n, other-sod)
CONF = [
    ("Europe/Berlin", "D", "00:00", "2020-03-27", 5),
    (None, "MS", "00:00", "2020-01-01", 4),
    ("Europe/Berlin", "MS", "06:00", "2020-02-01", 4),
    ("America/New_York", "h", "00:00", "2020-11-01", 2),
    (None, "15min", "06:00", "2020-11-01", 2),
    ("Asia/Kolkata", "QS", "06:00", "2019-10-01", 3),
    ("Europe/Berlin", "YS", "00:00", "2019-01-01", 3),
]
RELS = ["eq", "shift", "inner", "outer", "touch", "disjoint", "freq", "tz", "sod"]
RELS_Q = {0: RELS, 1: ["eq", "shift", "outer", "freq"], 2: ["eq", "shift", "sod"], 3: ["eq", "inner", "tz"], 4: ["shift", "touch", "sod"], 5: ["eq", "outer"], 6: ["shift", "freq"]}


def daysix(tz, freq, sod, d0, ndays):
    """(quarter)hourly index of whole days"""
    s = cal.combine(d0, sod, tz)
    e = cal.combine(d0 + dt.timedelta(days=ndays), sod, tz)
    return pfm.Ix(tz, freq, sod, list(range(s, e + 1, cal.FIXED[freq])))


def window(c, i, j):
    """index of configuration c, from i periods (days, if shorter than daily) after start until j after start."""
    tz, freq, sod, start, n = CONF[c]
    d = dt.date.fromisoformat(start)
    if freq in cal.FIXED:
        return daysix(tz, freq, sod, d + dt.timedelta(days=i), j - i)
    return pfm.ix(tz, freq, sod, cal.add_date(d, freq, i).isoformat(), j - i)


def base(c):
    return window(c, 0, CONF[c][4])


def related(c, rel):
    tz, freq, sod, start, n = CONF[c]
    d = dt.date.fromisoformat(start)
    if rel in ("eq", "shift", "inner", "outer", "touch", "disjoint"):
        i, j = {"eq": (0, n), "shift": (-1, n - 1), "inner": (1, n - 1 if n > 2 else n), "outer": (-1, n + 2), "touch": (-1, 0), "disjoint": (-3, -1)}[rel]
        return window(c, i, j)
    if rel == "freq":
        other = {"D": "h", "MS": "QS", "h": "15min", "15min": "h", "QS": "MS", "YS": "QS"}[freq]
        if other in cal.FIXED:
            return daysix(tz, other, sod, d, n)
        return pfm.ix(tz, other, sod, cal.floor_date(d, other).isoformat(), 3)
    sod2 = ("06:00" if sod == "00:00" else "00:00") if rel == "sod" else sod
    tz2 = {None: "Europe/Berlin", "Europe/Berlin": None}.get(tz, "Europe/Berlin") if rel == "tz" else tz
    if freq in cal.FIXED:
        return daysix(tz2, freq, sod2, d, n)
    return pfm.ix(tz2, freq, sod2, start, n)


def rights(kind, x, seed):
    """model right operands: flat, nested with same / overlapping / other names"""
    z = kind == "all"
    yield "flat", pfm.make(kind, x, seed, zero_q=z)
    yield "same", pfm.nest({"a": pfm.make(kind, x, seed + 1), "b": pfm.make(kind, x, seed + 2, zero_q=z)})
    yield "part", pfm.nest({"b": pfm.make(kind, x, seed + 1), "c": pfm.make(kind, x, seed + 3)})
    yield "other", pfm.nest({"x": pfm.make(kind, x, seed + 2, zero_q=z)})


def lefts(kind, x):
    yield "flat", pfm.make(kind, x, 1)
    yield "nested", pfm.nest({"a": pfm.make(kind, x, 2, zero_q=kind == "all"), "b": pfm.make(kind, x, 0)})
    yield "deep", pfm.nest({"a": pfm.nest({"k": pfm.make(kind, x, 2), "l": pfm.make(kind, x, 1)}), "c": pfm.make(kind, x, 3)})


ERR = "error"


def common(a, b):
    cs = sorted(set(a.ix.starts) & set(b.ix.starts))
    return (a.restrict(cs), b.restrict(cs)) if cs else None


def predict(op, a, b):
    """model: -> MP | ('ratio', ix, values) | ERR"""
    if not a.ix.compatible(b.ix):
        return ERR
    if op in "+-":
        if a.kind != b.kind:
            return ERR
        r = pfm.add(a, b.scale(-1.0) if op == "-" else b)
        return ERR if r is None else r
    ab = common(a, b)
    if ab is None:
        return ERR
    a, b = ab[0].flat(), ab[1].flat()
    if op == "*":
        if {a.kind, b.kind} != {"vol", "pri"}:
            return ERR
        q, p = (a.data["q"], b.data["p"]) if a.kind == "vol" else (b.data["q"], a.data["p"])
        return pfm.MP("rev", a.ix, {"r": [x * y for x, y in zip(q, p)]})
    if op == "/":
        if a.kind == "all" or b.kind == "all":
            return ERR
        c = pfm.BASE[a.kind][0]
        if a.kind == b.kind:
            return ("ratio", a.ix, [pfm.div(x, y) for x, y in zip(a.data[c], b.data[c])])
        if a.kind == "rev":
            o = {"pri": ("p", "vol", "q"), "vol": ("q", "pri", "p")}[b.kind]
            return pfm.MP(o[1], a.ix, {o[2]: [pfm.div(x, y) for x, y in zip(a.data["r"], b.data[o[0]])]})
        return ERR
    # |
    if a.kind == b.kind or "all" in (a.kind, b.kind):
        return ERR
    d = {**a.data, **b.data}
    if "q" not in d:
        d["q"] = [pfm.div(r, p) for r, p in zip(d["r"], d["p"])]
    if "r" not in d:
        d["r"] = [q * p for q, p in zip(d["q"], d["p"])]
    return pfm.MP("all", a.ix, {"q": d["q"], "r": d["r"]})


def check(rec, fn, exp, what):
    if isinstance(exp, str):
        rec.raises(fn, what)
        rec.outcome("error")
        return
    res = fn()
    rec.step()
    if isinstance(exp, tuple):
        _, x, vals = exp
        if not isinstance(res, pd.Series):
            raise Mismatch(f"{what}: {type(res)} instead of series")
        pfm.cmp_index(res.index, x, what)
        if not real.same_unit(res, "dimensionless"):
            raise Mismatch(f"{what}: dtype {res.dtype}")
        if not real.allclose(real.mags(res), vals):
            raise Mismatch(f"{what}: {real.fmt(real.mags(res))} != {real.fmt(vals)}")
        rec.outcome("ratio")
        rec.state("ratio", x.key(), [real.r12(v) for v in vals])
    else:
        pfm.compare(res, exp, what)
        rec.outcome(f"{exp.kind}{'/n' if exp.nested else ''}")
        rec.state(exp.key())
    return res


def groups(tier):
    out = []
    for c in range(len(CONF)):
        for rel in RELS if tier == "thorough" else RELS_Q[c]:
            if rel in ("touch", "disjoint") and CONF[c][0] is None and False:
                continue
            for lk in pfm.KINDS:
                out.append({"t": "pfl", "c": c, "rel": rel, "lk": lk})
    for c in range(len(CONF)) if tier == "thorough" else (0, 2, 3):
        for lk in pfm.KINDS:
            out.append({"t": "other", "c": c, "lk": lk})
    return out


def others(x, y, z, full):
    """(name, make real operand, effect) with effect: None | 'zero' | ('num', ix or None, factors) | MP"""
    f = [2.0, -0.5, 4.0, 1.25, 3.0]

    def fac(ixm):
        return [f[k % 5] for k in range(ixm.n)]

    from portfolyo import Q_

    yield "None", lambda: None, None
    yield "0", lambda: 0, "zero"
    yield "0.0", lambda: 0.0, "zero"
    for v in (2, -3, 0.5):
        yield f"{v}", lambda v=v: v, ("num", None, float(v))
    yield "np int", lambda: np.int64(2), ("num", None, 2.0)
    yield "np float", lambda: np.float32(0.5), ("num", None, 0.5)
    for typ in ("int32", "float32", "Int64", "Float64"):
        yield f"s_{typ}", lambda typ=typ: pd.Series([k % 3 + 1 for k in range(y.n)], y.real()).astype(typ), ("num", y, [float(k % 3 + 1) for k in range(y.n)])
    yield "Q1", lambda: Q_(2.5, ""), ("num", None, 2.5)
    yield "s", lambda: pd.Series(fac(x), x.real()), ("num", x, fac(x))
    yield "s_int", lambda: pd.Series([k % 3 + 1 for k in range(x.n)], x.real()), ("num", x, [float(k % 3 + 1) for k in range(x.n)])
    yield "s_part", lambda: pd.Series(fac(y), y.real()), ("num", y, fac(y))
    yield "s_disj", lambda: pd.Series(fac(z), z.real()), ("num", z, fac(z))
    yield "s_nodim", lambda: pd.Series(fac(y), y.real(), dtype="pint[dimensionless]"), ("num", y, fac(y))
    bal = [1.5, -1.5] * (x.n // 2) if x.n % 2 == 0 else [2.0, -0.5, -1.5] + [1.5, -1.5] * (x.n // 2 - 1)
    if x.n > 1:  # not zero, but adds up to zero
        yield "s_bal", lambda: pd.Series(bal, x.real()), ("num", x, bal)
        yield "s_bal_nodim", lambda: pd.Series(bal, x.real(), dtype="pint[dimensionless]"), ("num", x, bal)
    for dtype in (float, int, "pint[dimensionless]"):
        yield f"s_zero {dtype}", lambda dtype=dtype: pd.Series([0] * x.n, x.real(), dtype=float).astype(dtype), "zero"
    alt = pfm.Ix("Asia/Kolkata" if x.tz != "Asia/Kolkata" else None, x.freq, x.sod, x.bounds)
    yield "s_tz", lambda: pd.Series(fac(x), x.real().tz_localize(None) if x.tz else x.real()), ERR if x.tz else ("num", x, fac(x))
    for col, unit, factor in [("w", "MW", 1.0), ("w", "GW", 1000.0), ("q", "MWh", 1.0), ("q", "kWh", 0.001), ("p", "Eur/MWh", 1.0), ("p", "ctEur/kWh", 10.0), ("r", "Eur", 1.0), ("r", "kEur", 1000.0)]:
        if not full and unit in ("kWh",):
            continue
        kind = {"w": "vol", "q": "vol", "p": "pri", "r": "rev"}[col]

        def mk(ixm, vals, col=col, kind=kind, factor=factor):
            vals = [v * factor for v in vals]
            if col == "w":
                return pfm.MP(kind, ixm, {"q": [v * d for v, d in zip(vals, ixm.dur)]})
            return pfm.MP(kind, ixm, {col: vals})

        yield f"Q[{unit}]", lambda unit=unit: Q_(3.0, unit), mk(x, [3.0] * x.n)
        yield f"s[{unit}]", lambda unit=unit: pd.Series(fac(y), y.real(), dtype=f"pint[{unit}]"), mk(y, fac(y))
        if factor == 1.0:
            yield f"dict[{col}]", lambda col=col: {col: 3.0}, mk(x, [3.0] * x.n)
            yield f"dicts[{col}]", lambda col=col: {col: pd.Series(fac(y), y.real())}, mk(y, fac(y))
            yield f"Q0[{unit}]", lambda unit=unit: Q_(0.0, unit), mk(x, [0.0] * x.n)


def run(group, rec, tier):
    c, lk = group["c"], group["lk"]
    x = base(c)
    L = [(n, m, pfm.build(m)) for n, m in lefts(lk, x)]
    if group["t"] == "pfl":
        y = related(c, group["rel"])
        for rk in pfm.KINDS:
            for rn, rm in rights(rk, y, 1):
                rp = pfm.build(rm)
                for ln, lm, lp in L:
                    if tier != "thorough" and (ln == "deep") and rn in ("part", "other"):
                        continue
                    for op, f in OPS.items():
                        with rec.case(l=ln, rk=rk, r=rn, op=op):
                            exp = predict(op, lm, rm)
                            check(rec, lambda: f(lp, rp), exp, f"{lk}:{ln} {op} {rk}:{rn}")
                            if op == "+" and rk == lk:
                                rec.sample({"group": group, "l": ln, "r": rn, "op": op})
        return
    # unary and non-portfolio-line operands
    y = related(c, "shift")
    z = related(c, "disjoint")
    for ln, lm, lp in L:
        with rec.case(l=ln, op="neg"):
            check(rec, lambda: -lp, lm.scale(-1.0), "-pfl")
        for on, mkreal, eff in others(x, y, z, tier == "thorough"):
            for op, f in OPS.items():
                for side in ("l", "r"):
                    if side == "r" and not (on in ("None", "0", "0.0", "2", "-3", "0.5") or on.startswith("dict")):
                        continue  # pint / pandas own the left operand
                    if side == "l":
                        exp = effect(op, lm, eff)
                    else:
                        exp = reflected(op, lm, eff)
                    if exp is None:
                        continue
                    with rec.case(l=ln, other=on, op=op, side=side):
                        o = mkreal()
                        check(rec, (lambda: f(lp, o)) if side == "l" else (lambda: f(o, lp)), exp, f"{lk}:{ln} {op} {on} ({side})")


def effect(op, m, eff):
    """pfl op other"""
    if eff is None:
        return m if op in "+-|" else ERR
    if eff == "zero":
        if op in "+-":
            return m
        if op == "*":
            return m.scale(0.0)
        if op == "/":
            return None  # not specified
        return ERR
    if eff == ERR:
        return ERR
    if isinstance(eff, tuple):
        if op in "+-|":
            return ERR
        _, ixm, fs = eff
        if ixm is None:
            return m.scale(fs if op == "*" else 1 / fs)
        fs = fs if op == "*" else [1 / v for v in fs]
        com = sorted(set(ixm.starts) & set(m.ix.starts))
        if not com:
            return ERR
        d = dict(zip(ixm.starts, fs))
        return m.restrict(com).scale([d[s] for s in com])
    if op == "/" and eff.kind == m.kind != "all" and all(v == 0 for vs in eff.data.values() for v in vs):
        return None  # division by zero: not specified
    if op == "/" and all(v == 0 for vs in eff.data.values() for v in vs) and predict(op, m, eff) != ERR:
        return None
    if op == "|" and all(v == 0 for vs in eff.data.values() for v in vs):
        if predict(op, m, eff) != ERR and {m.kind, eff.kind} != {"vol", "pri"}:
            return None  # 0 revenue with volume etc.: price or volume follow by division, may be undefined
    return predict(op, m, eff)


def reflected(op, m, eff):
    """other op pfl"""
    if op in "+*|":
        return effect(op, m, eff)
    if op == "-":
        return effect("+", m.scale(-1.0), eff)
    if eff is None or eff == "zero" or eff == ERR or isinstance(eff, tuple):
        return ERR
    return predict("/", eff, m)
