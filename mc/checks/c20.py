"""C20: arithmetic with portfolio states."""

import itertools
import math

import numpy as np
import pandas as pd

from .. import pfm, pfsm, real
from ..engine import Mismatch
from ..pfm import MP
from ..pfsm import MS
from .c03 import CONF, RELS, related, window
from .c19 import cmp_parts

PROP = "C20"
TECHNIQUE = "exhaustive enumeration of all operator/operand combinations, and exploration of all operation sequences up to a depth, on the real code against a reference model of portfolio states"
EXPLANATION = (
    "Cross product of operator x left state (offtake / sourced flat or nested, nothing sourced, zero volumes) x right state x"
    " index relation (equal, shifted, contained, containing, touching, disjoint, other frequency, timezone or start-of-day),"
    " plus every operand that is not a portfolio state (numbers, quantities, series with and without unit, portfolio lines,"
    " None, other objects) on both sides; all parts and everything derived from them is compared with the model. Then all"
    " sequences of operations up to a depth bound with state deduplication."
)
SHAPES = [("flat", "none", False), ("flat", "flat", False), ("nested", "flat", True), ("nested", "nested", False)]


def groups(tier):
    out = []
    for c in range(len(CONF)):
        rels = RELS if tier == "thorough" or c in (0, 2) else {1: ["eq", "shift", "freq"], 3: ["eq", "inner", "tz"], 4: ["shift", "sod"], 5: ["eq", "outer"], 6: ["shift", "touch"]}[c]
        for rel in rels:
            for left in range(len(SHAPES)):
                out.append({"t": "pair", "c": c, "rel": rel, "l": left})
        if tier == "thorough" or c in (0, 2, 3, 6):
            out += [{"t": "other", "c": c, "l": left} for left in range(len(SHAPES))]
    for c in (1, 0, 6) if tier == "thorough" else (1,):
        out += [{"t": "seq", "c": c, "first": f, "d": 3 if tier == "thorough" else 2} for f in range(NOPS)]
    return out


def state(x, seed, shape):
    off, src, zero = SHAPES[shape]
    return pfsm.make(x, seed, off, src, zero)


def opposite(m):
    """state with the opposite unsourced volume, so that the sum is fully hedged"""
    o = m.off.flat().scale(-1.0)
    s = MP("all", m.ix, {"q": [-v for v in m.src.data["q"]], "r": [2.0 * v for v in m.src.data["r"]]})
    return MS(o, [v + 3.0 for v in m.up], s)


def closed(m):
    """state without unsourced volume in some timestamps"""
    q = [-v if k % 2 == 0 else v for k, v in enumerate(m.off.data["q"])]
    return MS(m.off, [v + 1.0 for v in m.up], MP("all", m.ix, {"q": q, "r": [v * 11.0 for v in q]}))


def kinds_ok(a, b):
    return a.ix.compatible(b.ix)


def run(group, rec, tier):
    {"pair": run_pair, "other": run_other, "seq": run_seq}[group["t"]](group, rec, tier)


def same_or_error(rec, fn, exp, what, full=True):
    if exp is None:
        rec.raises(fn, what)
        rec.outcome("error")
        return None
    got = fn()
    rec.step()
    if full:
        pfsm.compare(got, exp, what, rel=1e-8)
    else:
        cmp_parts(got, exp, what)
    rec.state(exp.key())
    rec.outcome("state")
    return got


def run_pair(group, rec, tier):
    c = group["c"]
    x = window(c, 0, CONF[c][4])
    y = related(c, group["rel"])
    a = state(x, 1, group["l"])
    A = pfsm.build(a)
    rights = [(f"s{k}", state(y, 2 + k, k)) for k in range(len(SHAPES))]
    rights.append(("closed", closed(pfsm.make(y, 1, "flat", "none"))))
    rights.append(("oppo", opposite(pfsm.make(y, 1, "flat", "flat"))))
    fa = pfsm.fingerprint(A)
    for j, (nm, b) in enumerate(rights):
        if tier == "quick" and (j + group["l"] + RELS.index(group["rel"])) % (2 if c == 0 else 3):
            continue
        B = pfsm.build(b)
        fb = pfsm.fingerprint(B)
        ok = kinds_ok(a, b)
        com = ok and set(a.ix.starts) & set(b.ix.starts)
        with rec.case(right=nm, op="+"):
            got = same_or_error(rec, lambda: A + B, pfsm.add(a, b) if com else None, f"+ {nm}")
            if got is not None:
                swapped = B + A
                rec.step()
                cmp_parts(swapped, pfsm.add(b, a), f"{nm} +")
                if not (swapped == got) and not any(math.isnan(p) for p in pfsm.add(a, b).up):
                    raise Mismatch("addition is not commutative")
        with rec.case(right=nm, op="-"):
            same_or_error(rec, lambda: A - B, pfsm.add(a, b.scale(-1.0)) if com else None, f"- {nm}")
            same_or_error(rec, lambda: B - A, pfsm.add(b, a.scale(-1.0)) if com else None, f"{nm} -", False)
        with rec.case(right=nm, op="/"):
            if not com:
                rec.raises(lambda: A / B, f"/ {nm}")
                rec.raises(lambda: B / A, f"{nm} /")
            else:
                ratio(rec, A / B, a, b, f"/ {nm}")
                ratio(rec, B / A, b, a, f"{nm} /")
        for op, fn in {"*": lambda: A * B, "|": lambda: A | B, "**": lambda: A**B, "r*": lambda: B * A}.items():
            with rec.case(right=nm, op=op):
                rec.raises(fn, f"{op} {nm}")
        with rec.case(right=nm, immut=True):
            rec.step()
            if pfsm.fingerprint(A) != fa or pfsm.fingerprint(B) != fb:
                raise Mismatch("operand changed")
        rec.sample({"group": group, "right": nm})


def ratio(rec, got, a, b, what):
    com = sorted(set(a.ix.starts) & set(b.ix.starts))
    a, b = a.restrict(com), b.restrict(com)
    if not isinstance(got, pd.DataFrame):
        raise Mismatch(f"{what}: {type(got)}")
    rec.step()

    def parts(m):
        cq = [-v for v in m.off.data["q"]]
        u = m.uq()
        cr = [r + q * p for r, q, p in zip(m.src.data["r"], u, m.up)]
        return {
            ("offtake", "volume"): m.off.data["q"],
            ("sourced", "volume"): m.src.data["q"],
            ("sourced", "price"): m.src.col("p"),
            ("unsourced", "volume"): u,
            ("unsourced", "price"): m.up,
            ("pnl_cost", "price"): [pfm.div(r, q) for r, q in zip(cr, cq)],
        }

    pa, pb = parts(a), parts(b)
    if set(got.columns) != set(pa):
        raise Mismatch(f"{what}: columns {list(got.columns)}")
    pfm.cmp_index(got.index, a.ix, what)
    for col in pa:
        s = got[col]
        if not real.same_unit(s, "dimensionless"):
            raise Mismatch(f"{what}: {col} has dtype {s.dtype}")
        for k, (g, n, d) in enumerate(zip(real.mags(s), pa[col], pb[col])):
            if abs(d) < 1e-9 or math.isnan(n) or math.isnan(d):
                continue
            if not real.close(g, n / d, rel=1e-8, abs_=1e-9):
                raise Mismatch(f"{what}: {col}[{k}] {g} != {n / d}")
    rec.outcome("ratio")


def run_other(group, rec, tier):
    import portfolyo as pf

    c = group["c"]
    n = CONF[c][4]
    x = window(c, 0, n)
    a = state(x, 1, group["l"])
    A = pfsm.build(a)
    y, z, dj = related(c, "shift"), related(c, "freq"), related(c, "disjoint")

    def fac(ix):
        return [[2.0, -0.5, 4.0, 1.25][k % 4] for k in range(ix.n)]

    def s(ix, unit=None, f=fac):
        v = pd.Series(f(ix), ix.real())
        return v.astype(f"pint[{unit}]") if unit else v

    with rec.case(op="neg"):
        same_or_error(rec, lambda: -A, a.scale(-1.0), "-state")
        same_or_error(rec, lambda: -(-A), a, "--state")
    with rec.case(op="None"):
        same_or_error(rec, lambda: A + None, a, "+ None")
        same_or_error(rec, lambda: A - None, a, "- None")
        same_or_error(rec, lambda: None + A, a, "None +")
        same_or_error(rec, lambda: None - A, a.scale(-1.0), "None -")
        rec.raises(lambda: A * None, "* None")
        rec.raises(lambda: A / None, "/ None")
        rec.raises(lambda: None / A, "None /")
    # numbers
    nums = [("2", 2, 2.0), ("-3", -3, -3.0), ("0.5", 0.5, 0.5), ("0", 0, 0.0), ("Q", pf.Q_(2.5, ""), 2.5)]
    nums.append(("Q%", pf.Q_(0.25, "kW/MW"), 0.25e-3))
    nums += [("np int", np.int64(2), 2.0), ("np float", np.float32(0.5), 0.5)]
    for nm, v, f in nums:
        with rec.case(num=nm):
            same_or_error(rec, lambda: A * v, a.scale(f), f"* {nm}")
            if nm[0] not in "Qn":
                same_or_error(rec, lambda: v * A, a.scale(f), f"{nm} *")
                rec.raises(lambda: v / A, f"{nm} /")
            if f:
                same_or_error(rec, lambda: A / v, a.scale(1 / f), f"/ {nm}")
            for op, fn in {"+": lambda: A + v, "-": lambda: A - v, "r+": lambda: v + A, "r-": lambda: v - A, "|": lambda: A | v}.items():
                if nm[0] in "Qn" and op[0] == "r":
                    continue
                rec.raises(fn, f"{op} {nm}")
    # factor series
    for nm, ix, unit in [("eq", x, None), ("shift", y, None), ("outer", related(c, "outer"), None), ("eq", x, "dimensionless"), ("shift", y, "dimensionless")]:
        com = sorted(set(x.starts) & set(ix.starts))
        f = dict(zip(ix.starts, fac(ix)))
        with rec.case(series=nm, unit=unit):
            r = a.restrict(com)
            fs = [f[t] for t in com]
            same_or_error(rec, lambda: A * s(ix, unit), r.scale(fs), f"* series {nm}")
            same_or_error(rec, lambda: A / s(ix, unit), r.scale([1 / v for v in fs]), f"/ series {nm}")
            rec.raises(lambda: A + s(ix, unit), f"+ series {nm}")
            rec.raises(lambda: A - s(ix, unit), f"- series {nm}")
    for nm, ix in [("freq", z), ("disjoint", dj), ("tz", related(c, "tz")), ("sod", related(c, "sod"))]:
        with rec.case(series=nm):
            for op, fn in {"*": lambda: A * s(ix), "/": lambda: A / s(ix), "+": lambda: A + s(ix), "-": lambda: A - s(ix)}.items():
                rec.raises(fn, f"{op} series {nm}")
    # values with unit, portfolio lines, other objects
    alien = [(f"Q {u}", pf.Q_(2.0, u)) for u in ("MW", "MWh", "Eur/MWh", "Eur", "h", "degC")]
    alien += [(f"s {u}", s(x, u)) for u in ("MW", "MWh", "Eur/MWh", "Eur", "h")]
    alien += [(f"line {k}", pfm.build(pfm.make(k, x, 1))) for k in pfm.KINDS]
    alien += [("nested", pfm.build(pfm.nest({"a": pfm.make("vol", x, 1)}))), ("dict", {"w": 3.0}), ("str", "abc"), ("list", [1.0] * x.n), ("df", A.sourced.df)]
    for nm, o in alien:
        with rec.case(alien=nm):
            ops = {"+": lambda: A + o, "-": lambda: A - o, "*": lambda: A * o, "/": lambda: A / o}
            if nm.startswith(("line", "nested", "dict", "str")):
                ops |= {"r+": lambda: o + A, "r-": lambda: o - A, "r/": lambda: o / A, "r*": lambda: o * A}
            for op, fn in ops.items():
                rec.raises(fn, f"{op} {nm}")
            rec.state("alien", c, nm)


NOPS = 10


def seq_ops(c):
    n = CONF[c][4]
    x, sh, inner = window(c, 0, n), related(c, "shift"), related(c, "inner")
    b = [pfsm.make(x, 2, "nested", "flat"), pfsm.make(sh, 3, "flat", "nested"), pfsm.make(inner, 4, "flat", "none"), closed(pfsm.make(x, 5, "flat", "none"))]
    B = [pfsm.build(m) for m in b]

    def plus(k, sign=1.0):
        return lambda m: pfsm.add(m, b[k].scale(sign)), (lambda s: s + B[k]) if sign > 0 else (lambda s: s - B[k])

    f = [[2.0, -0.5, 4.0, 1.25][k % 4] for k in range(x.n)]
    look = dict(zip(x.starts, f))
    fs = pd.Series(f, x.real())
    ops = [
        ("+0", *plus(0)),
        ("+shift", *plus(1)),
        ("+inner", *plus(2)),
        ("+closed", *plus(3)),
        ("-0", *plus(0, -1.0)),
        ("-shift", *plus(1, -1.0)),
        ("neg", lambda m: m.scale(-1.0), lambda s: -s),
        ("*2.5", lambda m: m.scale(2.5), lambda s: s * 2.5),
        ("/-4", lambda m: m.scale(-0.25), lambda s: s / -4),
        ("*series", lambda m: m.scale([look[t] for t in m.ix.starts]) if set(m.ix.starts) <= set(look) else None, lambda s: s * fs),
    ]
    assert len(ops) == NOPS
    return ops


def run_seq(group, rec, tier):
    c = group["c"]
    init = pfsm.make(window(c, 0, CONF[c][4]), 1, "nested", "flat")
    ops = seq_ops(c)
    frontier = [(init, pfsm.build(init), [])]
    for depth in range(group["d"]):
        nxt = []
        for m, S, path in frontier:
            for k, (name, mf, rf) in enumerate(ops):
                if depth == 0 and k != group["first"]:
                    continue
                p = path + [name]
                with rec.case(path=p):
                    exp = mf(m)
                    if exp is None or any(math.isnan(v) for v in exp.up):
                        continue
                    got = rf(S)
                    rec.step()
                    pfsm.compare(got, exp, "/".join(p), rel=1e-7)
                    if rec.state(exp.key()):
                        nxt.append((exp, got, p))
                    rec.outcome("sequence")
                    rec.sample({"group": group, "path": p})
        frontier = nxt
