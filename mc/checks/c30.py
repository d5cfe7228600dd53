"""C30: equality and truth value follow content."""

import datetime as dt
import itertools

import pandas as pd

from .. import cal, pfm, pfsm, real
from ..engine import Mismatch
from ..pfm import MP
from .c03 import CONF, related, window

PROP = "C30"
TECHNIQUE = "exhaustive enumeration of all pairs of an object alphabet and of every single-value perturbation of every object, executed on the real code against a reference model"
EXPLANATION = (
    "All ordered pairs of portfolio lines of an alphabet (kinds x flat, nested, reordered, renamed and deeper children x"
    " equal, shifted, longer, shorter and incompatible indices) and all ordered pairs of portfolio states are compared with"
    " == and !=, and the outcome must be that of the model's canonical form.  Every single value of every leaf is changed"
    " (to a slightly different, opposite, zero and nonzero value); each change must make the object unequal, and an object"
    " with a single nonzero value must be true, one with only zeros false.  Index compatibility is decided for all pairs of"
    " indices of all frequencies, timezones and start-of-days."
)


def groups(tier):
    cs = range(len(CONF))
    out = [{"t": "pairs", "c": c, "k": k} for c in cs for k in pfm.KINDS]
    out += [{"t": "perturb", "c": c, "k": k, "s": s} for c in cs for k in pfm.KINDS for s in ("flat", "nest", "deep")]
    out += [{"t": "truth", "c": c, "k": k} for c in cs for k in pfm.KINDS]
    if tier == "quick":  # every kind, structure and configuration, but not every combination
        out = [g for g in out if g["c"] == 0 or (g["c"] + pfm.KINDS.index(g["k"]) + len(g.get("s", ""))) % 3 == 0]
    out += [{"t": "states", "c": c, "part": p} for c in (cs if tier == "thorough" else (0, 3)) for p in (*range(8), "off", "up", "src.q", "src.r")]
    out += [{"t": "compat", "f": f} for f in ("15min", "h", "D", "MS", "QS", "YS")]
    out += [{"t": "alien", "c": c} for c in cs]
    return out


def key(m):
    """canonical form; order of children is irrelevant"""
    ch = None if m.children is None else sorted((n, key(c)) for n, c in m.children.items())
    d = {c: [real.r12(v) for v in vs] for c, vs in m.data.items()} if ch is None else None
    return repr([m.kind, m.ix.key(), d, ch])


def objects(c, kind, tier):
    n = CONF[c][4]
    x = window(c, 0, n)
    mk = lambda x, s: pfm.make(kind, x, s, zero_q=kind == "all")
    def forms(x):
        a, b = mk(x, 2), mk(x, 1)
        yield "flat", pfm.make(kind, x, 1)
        yield "flat2", mk(x, 1)
        yield "nest", pfm.nest({"a": a, "b": b})
        yield "nest_ba", pfm.nest({"b": b, "a": a})
        yield "nest_swap", pfm.nest({"a": b, "b": a})
        yield "nest_names", pfm.nest({"a": a, "c": b})
        yield "nest_one", pfm.nest({"a": b})
        yield "deep", pfm.nest({"a": pfm.nest({"a": b}), "b": a})
        yield "deep2", pfm.nest({"a": pfm.nest({"a": a, "b": b})})
        yield "sum", pfm.nest({"a": a, "b": b}).flat()
    out = [("eq/" + nm, m) for nm, m in forms(x)]
    others = {"shift": window(c, 1, n + 1), "long": window(c, 0, n + 1), "short": window(c, 0, n - 1)}
    others |= {r: related(c, r) for r in ("freq", "tz", "sod")}
    for r, y in others.items():
        fs = dict(forms(y))
        out += [(f"{r}/{k}", fs[k]) for k in (("flat", "nest") if tier == "quick" else fs)]
    return out


def run(group, rec, tier):
    {"pairs": run_pairs, "perturb": run_perturb, "truth": run_truth, "states": run_states, "compat": run_compat, "alien": run_alien}[group["t"]](group, rec, tier)


def judge(rec, a, b, want, what):
    rec.step(2)
    eq, ne = a == b, a != b
    if eq is not want or ne is not (not want):
        raise Mismatch(f"{what}: == gives {eq}, != gives {ne}; expected equality {want}")
    rec.outcome("equal" if want else "unequal")


def run_pairs(group, rec, tier):
    c, kind = group["c"], group["k"]
    objs = [(nm, m, pfm.build(m), pfm.build(m), key(m)) for nm, m in objects(c, kind, tier)]
    other = "rev" if kind != "rev" else "vol"
    m = pfm.make(other, window(c, 0, CONF[c][4]), 1)
    objs.append(("otherkind", m, pfm.build(m), pfm.build(m), key(m)))
    for an, am, a, _, ka in objs:
        rec.state(ka)
        for bn, bm, _, b, kb in objs:
            with rec.case(a=an, b=bn):
                judge(rec, a, b, ka == kb, f"{an} vs {bn}")
                rec.sample({"group": group, "a": an, "b": bn})
    # other representations and histories of the same content are equal
    import portfolyo as pf

    for an, am, a, a2, ka in objs[:-1]:
        with rec.case(a=an, same=True):
            judge(rec, a, a * 1, True, "a*1")
            judge(rec, -(-a), a, True, "--a")
            judge(rec, a.loc[:], a, True, "a.loc[:]")
            judge(rec, pf.PfLine(a), a, True, "PfLine(a)")
            if not am.nested and kind != "all":
                ref = a.df[pfm.COLS[kind][0]]
                judge(rec, pf.PfLine(ref.rename("abc")), a, True, "from series")
                judge(rec, a, pf.PfLine(ref.rename_axis("ts_left")), True, "from series with other index name")
            if kind == "vol" and not am.nested:
                judge(rec, pf.PfLine({"w": a.w}), a, True, "from power")
                judge(rec, pf.PfLine({"q": a.q.pint.to("kWh")}), a, True, "from kWh")


def leaves(m, path=()):
    if m.children is None:
        yield path, m
    else:
        for n, ch in m.children.items():
            yield from leaves(ch, path + (n,))


def replace(m, path, leaf):
    if not path:
        return leaf
    return pfm.nest({n: (replace(ch, path[1:], leaf) if n == path[0] else ch) for n, ch in m.children.items()})


def run_perturb(group, rec, tier):
    from .c11 import make

    c, kind, s = group["c"], group["k"], group["s"]
    x = window(c, 0, CONF[c][4])
    m = make(kind, x, s)
    a = pfm.build(m)
    ks = range(x.n) if x.n <= 8 else (0, 1, x.n // 2, x.n - 1)
    if tier == "thorough":
        ks = range(x.n)
    for path, leaf in leaves(m):
        for col in leaf.data:
            for k in ks:
                v = leaf.data[col][k]
                if kind == "all" and leaf.data["q"][k] == 0 and col == "r":
                    vals = [50.0]  # revenue without volume
                    continue
                for w in sorted({v * 1.001, -v, 0.0, v + 1000.0} - {v}):
                    with rec.case(path=path, col=col, k=k, v=w):
                        d = {cc: list(vs) for cc, vs in leaf.data.items()}
                        d[col][k] = w
                        m2 = replace(m, path, MP(kind, x, d))
                        b = pfm.build(m2)
                        judge(rec, a, b, False, f"value {col}[{k}] of {path} changed from {v} to {w}")
                        if tier == "thorough":
                            judge(rec, b, a, False, f"value {col}[{k}] of {path} changed from {v} to {w}")
                        rec.state(key(m2))
    rec.sample({"group": group})


def run_truth(group, rec, tier):
    c, kind = group["c"], group["k"]
    x = window(c, 0, CONF[c][4])
    zero = MP(kind, x, {col: [0.0] * x.n for col in pfm.BASE[kind]})
    ks = range(x.n) if x.n <= 8 or tier == "thorough" else (0, 1, x.n // 2, x.n - 1)
    shapes = {
        "flat": lambda f: f,
        "a": lambda f: pfm.nest({"a": f}),
        "ab": lambda f: pfm.nest({"a": f, "b": zero}),
        "ba": lambda f: pfm.nest({"b": zero, "a": f}),
        "deep": lambda f: pfm.nest({"b": zero, "a": pfm.nest({"z": zero, "y": f})}),
    }

    def truth(m, want, what):
        a = pfm.build(m)
        rec.step(2)
        if bool(a) is not want:
            raise Mismatch(f"bool is {bool(a)}, expected {want}: {what}")
        if bool(-a) is not want:
            raise Mismatch(f"bool of negative is {bool(-a)}: {what}")
        rec.state(key(m))
        rec.outcome(str(want))

    for nm, shape in shapes.items():
        with rec.case(shape=nm, zero=True):
            truth(shape(zero), False, "all zero")
        for k in ks:
            for v in (1.0, -0.5, 1e-3 if x.n > 8 or CONF[c][1] != "YS" else 0.1):
                for col in (["q"] if kind == "all" else list(zero.data)):
                    with rec.case(shape=nm, k=k, v=v, col=col):
                        d = {cc: list(vs) for cc, vs in zero.data.items()}
                        d[col][k] = v
                        truth(shape(MP(kind, x, d)), True, f"{col}[{k}]={v}")
    with rec.case(cancel=True):
        f = pfm.make(kind, x, 1)
        truth(pfm.nest({"a": f, "b": f.scale(-1.0)}), True, "children that cancel out")
    rec.sample({"group": group})


def skey(m):
    import json

    return json.dumps(m.key(), sort_keys=True)  # order of children is irrelevant


def run_states(group, rec, tier):
    c = group["c"]
    n = CONF[c][4]
    x = window(c, 0, n)
    ms = []
    for seed in (1, 2):
        for off, src in (("flat", "none"), ("flat", "flat"), ("nested", "flat"), ("nested", "nested")):
            if tier == "quick" and seed == 2 and src != "flat":
                continue
            ms.append((f"{seed}/{off}/{src}", pfsm.make(x, seed, off, src)))
    b = ms[1][1]
    # the same totals, distributed differently over the children
    d = ms[3][1]  # both nested
    variants = lambda m: [("swap", pfm.nest(dict(zip(m.children, reversed(m.children.values()))))), ("ren", pfm.nest({n + "x": ch for n, ch in m.children.items()})),
                          ("order", pfm.nest(dict(reversed(m.children.items())))), ("flat", m.flat())]  # fmt: skip
    for nm, v in variants(d.off):
        ms.append((f"off {nm}", pfsm.MS(v, d.up, d.src)))
    for nm, v in variants(d.src):
        ms.append((f"src {nm}", pfsm.MS(d.off, d.up, v)))
    ms.append(("price", pfsm.MS(b.off, [v + (0.5 if k == n - 1 else 0) for k, v in enumerate(b.up)], b.src)))
    ms.append(("longer", pfsm.make(window(c, 0, n + 1), 1, "flat", "flat")))
    ms.append(("shift", pfsm.make(window(c, 1, n + 1), 1, "flat", "flat")))
    for r in ("freq", "tz", "sod"):
        ms.append((r, pfsm.make(related(c, r), 1, "flat", "flat")))
    objs = [(nm, m, pfsm.build(m), pfsm.build(m)) for nm, m in ms]
    part = group["part"]
    for k, (an, am, a, _) in enumerate(objs):
        if k % 8 != part:
            continue
        rec.state(am.key())
        for j, (bn, bm, _, b) in enumerate(objs):
            if tier == "quick" and j != k and (j + k) % 2 == (c == 0) and not {an[:3], bn[:3]} <= {"1/n", "off", "src"}:
                continue
            with rec.case(a=an, b=bn):
                judge(rec, a, b, skey(am) == skey(bm), f"{an} vs {bn}")
        with rec.case(a=an, alien=True):
            for other in (None, 1, "a", a.sourced, a.offtakevolume, a.sourced.df):
                rec.step()
                if (a == other) is not False:
                    raise Mismatch(f"state equal to {type(other)}")
    # single value changes in every part
    m = ms[1][1]
    a = objs[1][2]
    for k in range(n) if n < 8 else (0, n // 2, n - 1):
        k = min(k, x.n - 1)
        for part in [group["part"]] if isinstance(group["part"], str) else []:
            for f in (1.001, -1.0, 0.0):
                with rec.case(part=part, k=k, f=f):
                    off, up, src = m.off, list(m.up), m.src
                    ch = lambda mm, col: MP(mm.kind, mm.ix, {cc: [v * (f if (cc == col and i == k) else 1) for i, v in enumerate(vs)] for cc, vs in mm.data.items()})
                    if part == "off":
                        off = ch(off, "q")
                    elif part == "up":
                        up[k] *= f
                    else:
                        src = ch(src, part[-1])
                        if part == "src.q" and f == 0:
                            continue
                    b = pfsm.build(pfsm.MS(off, up, src))
                    judge(rec, a, b, False, f"{part}[{k}] times {f}")
                    judge(rec, b, a, False, f"{part}[{k}] times {f}")
    rec.sample({"group": group})


def run_compat(group, rec, tier):
    """index compatibility is decided by frequency, timezone and start-of-day, whatever the delivery period"""
    import portfolyo as pf
    from portfolyo import tools

    allix = []
    for f in ("15min", "h", "D", "MS", "QS", "YS"):
        for tz in (None, "Europe/Berlin", "Europe/Paris", "Asia/Kolkata", "UTC"):
            for sod in ("00:00", "06:00", "06:30") if cal.FIXED.get(f) == 900 else ("00:00", "06:00", "07:00"):
                if sod == "06:30":
                    continue
                for start in ("2020-01-01", "2021-07-01"):
                    if f == "YS" and start != "2020-01-01":
                        start = "2022-01-01"
                    n = 4 if f not in cal.FIXED else {"15min": 96, "h": 24}[f]
                    i = pd.date_range(f"{start} {sod}", periods=n, freq=f, tz=tz)
                    allix.append(((f, tz, sod), i))
    for ka, i in allix:
        if ka[0] != group["f"]:
            continue
        for kb, j in allix:
            with rec.case(a=ka, b=kb, i=str(i[0]), j=str(j[0])):
                rec.step()
                try:
                    tools.testing.assert_indices_compatible(i, j)
                    ok = True
                except AssertionError:
                    ok = False
                if ok is not (ka == kb):
                    raise Mismatch(f"indices with {ka} and {kb} are {'' if ok else 'not '}compatible")
                rec.outcome(str(ok))
                rec.state(ka, kb)
    rec.sample({"group": group})


def run_alien(group, rec, tier):
    """comparison with objects of any other type"""
    c = group["c"]
    x = window(c, 0, CONF[c][4])
    for kind in pfm.KINDS:
        for m in (pfm.make(kind, x, 1), pfm.nest({"a": pfm.make(kind, x, 1)})):
            a = pfm.build(m)
            for other in (None, 0, 1.5, "q", (), {}, {"a": a}, pd.Series([1.0]), a.df, object()):
                with rec.case(k=kind, n=m.nested, o=str(type(other))):
                    rec.step()
                    r = a == other
                    if isinstance(r, (pd.DataFrame, pd.Series)):
                        continue  # decided by pandas
                    if r is not False:
                        raise Mismatch(f"equal to {type(other)}: {r}")
                    rec.state(kind, m.nested, str(type(other)))
                    rec.outcome("alien")
    rec.sample({"group": group})
