"""C19: portfolio states balance, however they are built and whichever parts are replaced."""

import itertools
import math

import pandas as pd

from .. import pfm, pfsm, real
from ..engine import Mismatch
from ..pfm import MP
from ..pfsm import MS
from .c03 import CONF, related, window

PROP = "C19"
TECHNIQUE = (
    "exhaustive enumeration of part representations, plus breadth-first exploration of all sequences of part replacements"
    " up to a depth bound with state deduplication, on the real code against a reference model"
)
EXPLANATION = (
    "Every combination of offtake / unsourced price / sourced representation (portfolio line of suitable or unsuitable"
    " kind, flat or nested, mapping, unit-aware series, power or energy; exactly fitting, overhanging on either side, too"
    " short, or with other frequency, timezone or start-of-day) is passed to the constructor; every subset of the"
    " from_series parameters likewise.  Then all sequences of set_offtakevolume / set_unsourcedprice / set_sourced /"
    " add_sourced (and negation, scaling, selection) are applied; after each step all parts and all derived quantities are"
    " compared with the model, and the states before the step are compared with their earlier observation."
)
SHORT = [1, 2, 4, 7, 9, 10, 12]


def groups(tier):
    confs = range(len(CONF)) if tier == "thorough" else (0, 2)
    out = []
    for c in range(len(CONF)):
        out += [{"t": "rep", "c": c, "o": o} for o in range(len(OFF)) if tier == "thorough" or c == 0 or o % 5 == c % 5]
        out += [{"t": "bad", "c": c}]
    out += [{"t": "fs", "c": c} for c in confs]
    if tier == "quick":
        out += [{"t": "seq", "c": c, "s": s, "first": f, "d": 2} for c, s in ((0, 0), (2, 1), (0, 2)) for f in range(NOPS)]
        out += [{"t": "seq", "c": 1, "s": 1, "first": f, "d": 3, "ops": SHORT} for f in SHORT]
    else:
        out += [{"t": "seq", "c": c, "s": s, "first": f, "d": 3} for c in range(len(CONF)) for s in range(3) for f in range(NOPS)]
        out += [{"t": "seq", "c": 1, "s": s, "first": f, "d": 4, "ops": SHORT} for s in range(3) for f in SHORT]
    return out


# ---- representations; each is (name, nested?, function(model) -> real input)


def wide(c, e0, e1):
    n = CONF[c][4]
    return window(c, -e0, n + e1)


def vol(ixm, s, z=False):
    m = pfm.make("vol", ixm, s).scale(-4.0)
    if z:
        m = m.map(lambda f: MP("vol", f.ix, {"q": [0.0 if k % 3 == 0 else v for k, v in enumerate(f.data["q"])]}))
    return m


def series(m, c, unit=None, factor=1.0):
    i = m.ix.real()
    vals = [float(v) * factor for v in m.col(c)]
    return pd.Series(vals, i, dtype=f"pint[{unit}]") if unit else pd.Series(vals, i)


def offcomplete(m):
    i = m.ix.real()
    import portfolyo as pf

    return pf.PfLine({"q": pd.Series(m.data["q"], i), "p": pd.Series([7.5] * len(i), i)})


OFF = [
    ("pfline", "flat", pfm.build),
    ("pfline", "nested", pfm.build),
    ("q", "flat", lambda m: {"q": series(m, "q")}),
    ("w", "flat", lambda m: {"w": series(m, "w")}),
    ("pint_kWh", "flat", lambda m: series(m, "q", "kWh", 1000.0)),
    ("pint_MW", "flat", lambda m: series(m, "w", "MW")),
    ("dict_nested", "nested", lambda m: {n: {"q": series(ch, "q")} for n, ch in m.children.items()}),
    ("complete", "flat", offcomplete),
    ("df", "flat", lambda m: pd.DataFrame({"w": series(m, "w"), "q": series(m, "q")})),
    ("zero", "flat0", pfm.build),
]
PRI = [
    ("pfline", lambda m: pfm.build(m)),
    ("p", lambda m: {"p": series(m, "p")}),
    ("pint", lambda m: series(m, "p", "Eur/kWh", 0.001)),
    ("complete", lambda m: _completeprice(m)),
    ("nested", lambda m: {"x": {"p": series(m, "p") * 0.25}, "y": {"p": series(m, "p") * 0.75}}),
]


def _completeprice(m):
    import portfolyo as pf

    i = m.ix.real()
    return pf.PfLine({"p": pd.Series(m.data["p"], i), "w": pd.Series([2.0] * len(i), i)})


SRC = [
    ("none", "none", lambda m: None),
    ("pfline", "flat", pfm.build),
    ("pfline", "nested", pfm.build),
    ("pfline0", "flat0", pfm.build),
    ("qr", "flat", lambda m: {"q": series(m, "q"), "r": series(m, "r")}),
    ("wp", "flat", lambda m: {"w": series(m, "w"), "p": series(m, "p")}),
    ("list", "flat", lambda m: [series(m, "q", "GWh", 0.001), series(m, "p", "Eur/MWh")]),
    ("dict_nested", "nested", lambda m: {n: {"r": series(ch, "r"), "p": series(ch, "p")} for n, ch in m.children.items()}),
]
OVER = [(0, 0), (1, 0), (0, 2), (1, 1)]


def make_off(ixm, how, s):
    if how == "nested":
        return pfm.nest({"A": vol(ixm, s), "B": vol(ixm, s + 1)})
    return vol(ixm, s, how == "flat0")


def make_src(ixm, how, s):
    if how == "none":
        return pfsm.zero_sourced(ixm)
    if how == "nested":
        return pfm.nest({"X": pfm.make("all", ixm, s), "Y": pfm.make("all", ixm, s + 1)})
    return pfm.make("all", ixm, s, zero_q=how == "flat0")


def make_pri(ixm, s):
    return MP("pri", ixm, {"p": [float((k * 3 + s) % 7 * 5 + 11) for k in range(ixm.n)]})


def run(group, rec, tier):
    {"rep": run_rep, "bad": run_bad, "fs": run_fs, "seq": run_seq}[group["t"]](group, rec, tier)


def run_rep(group, rec, tier):
    import portfolyo as pf

    c = group["c"]
    ixm = window(c, 0, CONF[c][4])
    oname, ohow, ofn = OFF[group["o"]]
    off = make_off(ixm, ohow, 1)
    for a, (pname, pfn) in enumerate(PRI):
        for b, (sname, show, sfn) in enumerate(SRC):
            overs = [(p, s) for p in OVER for s in OVER] if tier == "thorough" else [(OVER[(a + b) % 4], OVER[(a + 2 * b + 1) % 4]), (OVER[0], OVER[0])]
            for op, os_ in overs:
                with rec.case(o=oname, p=pname, s=sname, op=op, os=os_):
                    pri = make_pri(wide(c, *op), 1)
                    src = make_src(wide(c, *os_), show, 3)
                    m = MS(off, pri.restrict(ixm.starts).data["p"], src.restrict(ixm.starts))
                    pfs = pf.PfState(ofn(off), pfn(pri), sfn(src))
                    rec.step()
                    rel = 1e-9
                    # offtake that is nested keeps its children; nested prices are kept as well
                    if pname == "nested":
                        if pfs.unsourcedprice.structure is not pf.Structure.NESTED:
                            raise Mismatch("unsourced price lost its children")
                    if rec.state(m.key()):
                        pfsm.compare(pfs, m, rel=rel)
                    else:
                        cmp_parts(pfs, m, f"{oname}/{pname}/{sname}")
                    rec.outcome(f"{oname}/{pname}/{sname}")
                    rec.sample({"group": group, "p": pname, "s": sname, "over": [op, os_]})


def run_bad(group, rec, tier):
    """unsuitable parts are rejected in every position"""
    import portfolyo as pf

    c = group["c"]
    n = CONF[c][4]
    ixm = window(c, 0, n)
    off, pri, src = vol(ixm, 1), make_pri(ixm, 1), pfm.make("all", ixm, 2)
    O, U, S = pfm.build(off), pfm.build(pri), pfm.build(src)
    O2, S2 = pfm.build(make_off(ixm, "nested", 1)), pfm.build(make_src(ixm, "nested", 2))
    parts = {"vol": O, "pri": U, "all": S, "rev": pfm.build(pfm.make("rev", ixm, 1)), "voln": O2, "alln": S2}
    bad_o = [None, "pri", "rev", 5.0, "abc", pd.Series([1.0] * n, ixm.real()) if CONF[c][1] not in ("h", "15min") else 3]
    bad_u = [None, "vol", "voln", "rev", 30.0, {"p": 5.0}]
    bad_s = ["vol", "voln", "pri", "rev", 12.0]
    get = lambda x: parts.get(x, x) if isinstance(x, str) else x
    for k, x in enumerate(bad_o):
        with rec.case(bad="o", k=k):
            rec.raises(lambda: pf.PfState(get(x), U, S), f"offtake {x!r}")
            if x is not None:
                rec.raises(lambda: pf.PfState(O, U, S).set_offtakevolume(get(x)), f"set offtake {x!r}")
    for k, x in enumerate(bad_u):
        with rec.case(bad="u", k=k):
            rec.raises(lambda: pf.PfState(O, get(x), S), f"unsourcedprice {x!r}")
            rec.raises(lambda: pf.PfState(O, U, S).set_unsourcedprice(get(x)), f"set unsourcedprice {x!r}")
    for k, x in enumerate(bad_s):
        with rec.case(bad="s", k=k):
            rec.raises(lambda: pf.PfState(O, U, get(x)), f"sourced {x!r}")
            rec.raises(lambda: pf.PfState(O, U, S).set_sourced(get(x)), f"set sourced {x!r}")
            rec.raises(lambda: pf.PfState(O, U, S).add_sourced(get(x)), f"add sourced {x!r}")
    # too short, not overlapping, incompatible
    rels = [("short0", window(c, 1, n + 2)), ("short1", window(c, -1, n - 1)), ("inner", window(c, 1, max(2, n - 1)) if n > 2 else window(c, 1, 2))]
    rels += [("disjoint", window(c, n, n + 3)), ("before", window(c, -3, 0))]
    rels += [(r, related(c, r)) for r in ("freq", "tz", "sod")]
    for name, o in rels:
        for nested in (False, True):
            with rec.case(bad=name, nested=nested):
                pu = pfm.build(make_pri(o, 1))
                sr = pfm.build(make_src(o, "nested" if nested else "flat", 1))
                rec.raises(lambda: pf.PfState(O2 if nested else O, pu, None), f"{name}: unsourced price")
                rec.raises(lambda: pf.PfState(O2 if nested else O, pu, S), f"{name}: unsourced price")
                rec.raises(lambda: pf.PfState(O2 if nested else O, U, sr), f"{name}: sourced")
                pfs = pf.PfState(O, U, S2 if nested else S)
                rec.raises(lambda: pfs.set_unsourcedprice(pu), f"{name}: set unsourced price")
                rec.raises(lambda: pfs.set_sourced(sr), f"{name}: set sourced")
                rec.raises(lambda: pfs.add_sourced(sr), f"{name}: add sourced")
                if name != "inner":
                    of = pfm.build(make_off(o, "nested" if nested else "flat", 1))
                    rec.raises(lambda: pfs.set_offtakevolume(of), f"{name}: set offtake")
                rec.outcome("bad:" + name)


def run_fs(group, rec, tier):
    import portfolyo as pf

    c = group["c"]
    ixm = window(c, 0, CONF[c][4])
    off, pri, src = vol(ixm, 1), make_pri(ixm, 1), pfm.make("all", ixm, 2)
    val = {"qo": series(off, "q"), "wo": series(off, "w"), "pu": series(pri, "p")}
    val |= {k + "s": series(src, k) for k in "wqrp"}
    units = {"qo": ("MWh", 1), "wo": ("kW", 1000.0), "pu": ("Eur/MWh", 1), "ws": ("MW", 1), "qs": ("GWh", 0.001), "rs": ("kEur", 0.001), "ps": ("ctEur/kWh", 0.1)}
    keys = list(val)
    for r in range(len(keys) + 1):
        for sub in itertools.combinations(keys, r):
            for unitaware in (False, True):
                with rec.case(sub=sub, u=unitaware):
                    kw = {k: val[k] for k in sub}
                    if unitaware:
                        kw = {k: (s * units[k][1]).astype(f"pint[{units[k][0]}]") for k, s in kw.items()}
                    # a kind with revenue and price only has no volume of its own, but q = r / p
                    has_src = [k for k in sub if k.endswith("s")]
                    vols = [k for k in has_src if k in ("qs", "ws")]
                    ok_src = not has_src or (bool(vols) and len(set(has_src) - set(vols)) >= 1) or {"rs", "ps"} <= set(has_src)
                    ok = "pu" in sub and ("qo" in sub or "wo" in sub) and ok_src
                    if not ok:
                        rec.raises(lambda: pf.PfState.from_series(**kw), f"from_series({sub})")
                        continue
                    pfs = pf.PfState.from_series(**kw)
                    rec.step()
                    m = MS(off, pri.data["p"], src if has_src else pfsm.zero_sourced(ixm))
                    (pfsm.compare if rec.state(m.key()) else cmp_parts)(pfs, m, f"from_series({sub})")
                    rec.outcome("from_series")
                # contradicting data
                if "pu" in sub and "qo" in sub and "wo" in sub and not unitaware:
                    with rec.case(sub=sub, u="contradiction"):
                        rec.raises(lambda: pf.PfState.from_series(**{**kw, "wo": val["wo"] * 1.5}), "contradicting offtake")
                        rec.raises(lambda: pf.PfState.from_series(**{**kw, "wo": val["wo"] * 2, "qo": val["qo"] * 3}), "contradicting offtake")
                if "pu" in sub and "qo" in sub and {"ws", "qs"} <= set(sub) and not unitaware and ({"rs", "ps"} & set(sub)):
                    with rec.case(sub=sub, u="contradiction"):
                        rec.raises(lambda: pf.PfState.from_series(**{**kw, "ws": val["ws"] * 1.5}), "contradicting sourced")


# ---------------------------------------------------------------- sequences


def seq_ops(c):
    """(name, model function (None = must raise), real function) """
    n = CONF[c][4]
    x = window(c, 0, n)
    w = wide(c, 1, 1)
    inner = window(c, 0, n - 1)

    def so(o):
        ro = pfm.build(o)

        def model(m):
            com = [s for s in o.ix.starts if s in set(m.ix.starts)]
            if len(com) < o.ix.n:
                return None
            r = m.restrict(com)
            return MS(o, r.up, r.src)

        return model, lambda s: s.set_offtakevolume(ro)

    def su(p):
        rp = pfm.build(p)

        def model(m):
            r = p.restrict(m.ix.starts)
            return MS(m.off, r.data["p"], m.src) if r and r.ix.n == m.ix.n else None

        return model, lambda s: s.set_unsourcedprice(rp)

    def ss(p):
        rp = pfm.build(p)

        def model(m):
            r = p.restrict(m.ix.starts)
            return MS(m.off, m.up, r) if r and r.ix.n == m.ix.n else None

        return model, lambda s: s.set_sourced(rp)

    def ad(p):
        rp = pfm.build(p)

        def model(m):
            r = pfm.add(m.src, p)
            return MS(m.off, m.up, r) if r and r.ix.n == m.ix.n else None

        return model, lambda s: s.add_sourced(rp)

    off2, offn, offin = vol(x, 4), make_off(x, "nested", 2), vol(inner, 3)
    ops = [
        ("off:flat", *so(off2)),
        ("off:nested", *so(offn)),
        ("off:inner", *so(offin)),
        ("off:wide", *so(vol(w, 2))),
        ("up:eq", *su(make_pri(x, 3))),
        ("up:wide", *su(make_pri(w, 5))),
        ("src:flat", *ss(pfm.make("all", x, 4))),
        ("src:nested_wide", *ss(make_src(w, "nested", 1))),
        ("src:zero", *ss(pfm.make("all", x, 2, zero_q=True))),
        ("add:flat", *ad(pfm.make("all", w, 1))),
        ("add:nested", *ad(pfm.nest({"Y": pfm.make("all", x, 2), "Z": pfm.make("all", x, 3)}))),
        ("src:none", lambda m: MS(m.off, m.up, pfsm.zero_sourced(m.ix)), lambda s: s.set_sourced(None)),
        ("hedge*-.5", lambda m: m.scale(-0.5), lambda s: s * -0.5),
    ]
    assert len(ops) == NOPS
    return ops


NOPS = 13


def run_seq(group, rec, tier):
    c = group["c"]
    x = window(c, 0, CONF[c][4])
    init = [pfsm.make(x, 1, "flat", "none"), pfsm.make(x, 2, "nested", "nested"), pfsm.make(x, 3, "flat", "flat", zero=True)][group["s"]]
    ops = seq_ops(c)
    seen = set()
    frontier = [(init, pfsm.build(init), [])]
    for depth in range(group["d"]):
        nxt = []
        for m, pfs, path in frontier:
            fp0 = pfsm.fingerprint(pfs)
            for k, (name, mf, rf) in enumerate(ops):
                if (depth == 0 and k != group["first"]) or k not in group.get("ops", range(NOPS)):
                    continue
                with rec.case(path=path + [name]):
                    exp = mf(m)
                    if exp is None:
                        rec.raises(lambda: rf(pfs), f"{path + [name]}")
                    else:
                        got = rf(pfs)
                        rec.step()
                        new = rec.state(exp.key())
                        if new:
                            pfsm.compare(got, exp, "/".join(path + [name]))
                            nxt.append((exp, got, path + [name]))
                        else:  # state was reached before: parts must agree, derived values are functions of the parts
                            cmp_parts(got, exp, "/".join(path + [name]))
                        rec.outcome(name)
                    if depth + 1 == group["d"] or exp is None:
                        rec.sample({"group": group, "path": path + [name]})
            with rec.case(path=path, immut=True):
                rec.step()
                if pfsm.fingerprint(pfs) != fp0:
                    raise Mismatch("state was changed by one of its methods")
        frontier = nxt


def cmp_parts(pfs, m, what):
    """Only the parts; everything else is a function of the parts and is compared once per distinct state."""
    pfm.compare(pfs.offtakevolume, m.off, what + ".offtakevolume")
    pfm.compare(pfs.sourced, m.src, what + ".sourced")
    if pfm.kindname(pfs.unsourcedprice) != "pri":
        raise Mismatch(f"{what}: unsourcedprice has kind {pfs.unsourcedprice.kind}")
    pfm.cmp_series(pfs.unsourcedprice.p, m.up, "p", m.ix, what + ".unsourcedprice", [math.isnan(p) for p in m.up])
