"""C05: a nested portfolio line always equals the sum of its children."""

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from ..pfm import MP
from .c03 import CONF, related, window
from .c11 import reindex

PROP = "C05"
TECHNIQUE = "breadth-first exploration of all sequences of operations up to a depth bound, with state deduplication, executed on the real code in lock-step with a reference model"
EXPLANATION = (
    "Starting from several nested portfolio lines of every kind, every sequence of operations (set child: new, replacing,"
    " nested, wider, narrower, in several representations, invalid; drop child; add, subtract, scale, negate; select;"
    " resample; reindex; take volume or revenue; flatten) up to the depth bound is executed. After each step the"
    " aggregate, all children at all levels, index, kind and structure are compared with the model; steps that the model"
    " does not allow must raise; the line on which the operations acted must keep its observable content."
)
ASSUMPTIONS = ["child names are strings that do not coincide with attributes of portfolio lines"]


def groups(tier):
    out = []
    if tier == "quick":
        for k in pfm.KINDS:
            out += [{"c": 1, "k": k, "i": 1, "first": f, "d": 2} for f in range(NOPS)]
            out += [{"c": c, "k": k, "i": i, "first": None, "d": 1} for c in range(len(CONF)) for i in range(3)]
        for n, k in enumerate(("all", "vol", "pri", "rev")):
            out += [{"c": 0, "k": k, "i": n % 3, "first": f, "d": 3, "ops": SHORT} for f in (SHORT if k == "all" else SHORT[1::2])]
    else:
        out += [{"c": c, "k": k, "i": i, "first": f, "d": 2} for c in range(len(CONF)) for k in pfm.KINDS for i in range(3) for f in range(NOPS)]
        out += [{"c": c, "k": k, "i": i, "first": f, "d": 4 if k == "all" else 3, "ops": SHORT} for c in (0, 1) for k in pfm.KINDS for i in range(3) for f in SHORT]
        out += [{"c": 1, "k": k, "i": 1, "first": f, "d": 3} for k in pfm.KINDS for f in range(NOPS)]
    return out


def initial(c, kind, i):
    n = CONF[c][4]
    x = window(c, 0, n)
    z = kind == "all"
    a, b, d = pfm.make(kind, x, 1), pfm.make(kind, x, 2, zero_q=z), pfm.make(kind, x, 3)
    return [
        lambda: pfm.nest({"a": a, "b": b}),
        lambda: pfm.nest({"a": pfm.nest({"k": b, "l": a}), "b": d}),
        lambda: pfm.nest({"a": b}),
    ][i]()


class Reject(Exception):
    pass


def set_child(name, ch, rchild):
    def model(m):
        if not m.nested or not isinstance(name, str) or name in "wqpr" or ch is None or ch.kind != m.kind or not ch.ix.compatible(m.ix):
            raise Reject
        com = pfm.common_starts(m, ch)
        if not com:
            raise Reject
        d = dict(m.children)
        d[name] = ch
        return pfm.nest({n: v.restrict(com) for n, v in d.items()})

    return model, lambda a: a.set_child(name, rchild)


def drop_child(name):
    def model(m):
        if not m.nested or name not in m.children or len(m.children) == 1:
            raise Reject
        return pfm.nest({n: v for n, v in m.children.items() if n != name})

    return model, lambda a: a.drop_child(name)


def add(o, sign):
    ro = pfm.build(o)

    def model(m):
        if m.kind != o.kind or not m.ix.compatible(o.ix):
            raise Reject
        r = pfm.add(m, o if sign > 0 else o.scale(-1.0))
        if r is None:
            raise Reject
        return r

    return model, (lambda a: a + ro) if sign > 0 else (lambda a: a - ro)


def part(which):
    def model(m):
        if m.kind == "all":
            return m.volume() if which == "volume" else m.revenue() if which == "revenue" else m.price()
        if (which, m.kind) in (("volume", "vol"), ("revenue", "rev"), ("price", "pri")):
            return m
        raise Reject

    return model, lambda a: getattr(a, which)


def select(p, q):
    """keep periods p .. n-q"""

    def model(m):
        b = m.ix.bounds
        if m.ix.freq in cal.FIXED:  # whole days
            t0 = real.stamp(b[0], CUR.tz).time()
            days = [k for k in range(len(b)) if real.stamp(b[k], CUR.tz).time() == t0]
        else:
            days = list(range(len(b)))
        days = days[p : len(days) - q]
        if len(days) < 2:
            raise Reject
        return m.sub(days[0], days[-1])

    return model, p, q


def ops(c, kind):
    n = CONF[c][4]
    x, w, sh, dis = window(c, 0, n), window(c, -1, n + 1), window(c, 1, n + 1), window(c, n + 2, n + 4)
    mk = lambda y, s: pfm.make(kind, y, s)
    F = mk(x, 5)
    other = "rev" if kind in ("vol", "pri", "all") else "vol"
    O = []

    def op(name, mr):
        O.append((name, *mr))

    op("set c", set_child("c", F, pfm.build(F)))
    op("set a", set_child("a", mk(x, 6), pfm.build(mk(x, 6))))
    N = pfm.nest({"m": mk(x, 2), "o": mk(x, 4)})
    op("set b nested", set_child("b", N, pfm.build(N)))
    op("set c wide", set_child("c", mk(w, 3), pfm.build(mk(w, 3))))
    op("set b shifted", set_child("b", mk(sh, 3), pfm.build(mk(sh, 3))))
    col = pfm.BASE[kind][0]
    i = x.real()
    D = {cc: pd.Series([float(v) for v in F.data[cc]], i) for cc in pfm.BASE[kind]}
    op("set d dict", set_child("d", F, D))
    if kind != "all":
        op("set d series", set_child("d", F, pfm.pint_series(F.data[col], i, col)))
        op("set d nested dict", set_child("d", pfm.nest({"u": F, "v": F}), {"u": pfm.pint_series(F.data[col], i, col), "v": D}))
    else:
        op("set d list", set_child("d", F, [pfm.pint_series(F.data["r"], i, "r"), pfm.pint_series(F.data["q"], i, "q")]))
        op("set d nested dict", set_child("d", pfm.nest({"u": F, "v": F}), {"u": D, "v": {"p": pd.Series(F.col("p"), i), "w": pd.Series(F.col("w"), i)}}))
    op("set reserved", set_child("q", F, pfm.build(F)))
    op("set number", set_child(5, F, pfm.build(F)))
    op("set disjoint", set_child("c", mk(dis, 1), pfm.build(mk(dis, 1))))
    op("set kind", set_child("c", pfm.make(other, x, 1), pfm.build(pfm.make(other, x, 1))))
    for r in ("freq", "sod"):
        y = related(c, r)
        op("set " + r, set_child("c", pfm.make(kind, y, 1), pfm.build(pfm.make(kind, y, 1))))
    op("set rubbish", set_child("c", None, "abc"))
    for nm in ("a", "b", "zz"):
        op("drop " + nm, drop_child(nm))
    op("+ nested", add(pfm.nest({"b": mk(x, 4), "z": mk(x, 5)}), 1))
    op("- nested", add(pfm.nest({"a": mk(x, 4), "b": mk(w, 5).restrict(x.starts)}), -1))
    op("+ shifted", add(pfm.nest({"a": mk(sh, 4), "n": mk(sh, 2)}), 1))
    op("+ deep", add(pfm.nest({"a": pfm.nest({"k": mk(x, 3), "y": mk(x, 1)})}), 1))
    op("- flat", add(mk(w, 4), -1))
    op("* -2", (lambda m: m.scale(-2.0), lambda a: a * -2))
    op("/ 4", (lambda m: m.scale(0.25), lambda a: a / 4))
    op("neg", (lambda m: m.scale(-1.0), lambda a: -a))
    fs = [1.0 + (k % 3) * 0.5 for k in range(w.n)]
    look = dict(zip(w.starts, fs))
    S = pd.Series(fs, w.real())

    def mseries(m):
        com = [s for s in m.ix.starts if s in look]
        if not com or not m.ix.compatible(w):
            raise Reject
        m = m.restrict(com)
        return m.scale([look[s] for s in m.ix.starts])

    op("* series", (mseries, lambda a: S * a if False else a * S))
    for p, q in ((1, 0), (0, 1)):
        mod, p_, q_ = select(p, q)
        op(f"slice {p},{q}", (mod, lambda a, mod=mod: _select(a, mod)))
    low = {"D": "MS", "MS": "QS", "QS": "YS", "YS": "MS", "h": "D", "15min": "h"}[CONF[c][1]]
    for f in (low,) if CONF[c][1] != "QS" else (low, "MS"):
        op("asfreq " + f, (lambda m, f=f: _none(m.asfreq(f)), lambda a, f=f: a.asfreq(f)))
    if CONF[c][1] != "QS":
        op("asfreq same", (lambda m: m, lambda a: a.asfreq(a.index.freq)))

    def mreindex(m):
        if not m.ix.compatible(w):
            raise Reject
        return reindex(m, w)

    op("reindex", (mreindex, lambda a: a.reindex(w.real())))
    for v in ("volume", "revenue", "price"):
        op(v, part(v))
    op("flatten", (lambda m: m.flat(), lambda a: a.flatten()))
    assert len(O) == NOPS, len(O)
    return O


def _none(r):
    if r is None:
        raise Reject
    return r


def _select(a, mod):
    """realize the selection: find bounds from the index of the object itself"""
    i = a.index
    n = len(i)
    fake = MP("vol", pfm.Ix(real.tzname(i.tz), CUR.freq, "", CUR.bounds), {"q": [0.0] * n})
    m = mod(fake)
    lo, hi = real.stamp(m.ix.bounds[0], CUR.tz), real.stamp(m.ix.bounds[-1], CUR.tz)
    return a.slice[lo:hi]


CUR = None
NOPS = 36
SHORT = [1, 2, 4, 14, 15, 17, 19, 20, 22, 25, 26, 28, 30, 34]


def run(group, rec, tier):
    global CUR
    import portfolyo as pf

    c, kind = group["c"], group["k"]
    O = ops(c, kind)
    m0 = initial(c, kind, group["i"])
    frontier = [(m0, pfm.build(m0), [])]
    with rec.case(path=[]):
        pfm.compare(frontier[0][1], m0, "initial")
    for depth in range(group["d"]):
        nxt = []
        for m, a, path in frontier:
            fp = pfm.fingerprint(a)
            for k, (name, mf, rf) in enumerate(O):
                if depth == 0 and group["first"] is not None and k != group["first"]:
                    continue
                if k not in group.get("ops", range(NOPS)):
                    continue
                CUR = m.ix
                with rec.case(path=path + [name]):
                    try:
                        exp = mf(m)
                    except Reject:
                        rec.raises(lambda: rf(a), f"{path + [name]}")
                        continue
                    got = rf(a)
                    rec.step()
                    pfm.compare(got, exp, "/".join(path + [name]))
                    access(got, exp)
                    rec.outcome(name)
                    if rec.state(exp.key()):
                        nxt.append((exp, got, path + [name]))
                        rec.sample({"group": group, "path": path + [name]})
            with rec.case(path=path, immut=True):
                rec.step()
                if pfm.fingerprint(a) != fp:
                    raise Mismatch("portfolio line was changed by one of its methods")
        frontier = nxt


def access(a, m):
    """mapping interface of nested lines"""
    if not m.nested:
        return
    names = list(m.children)
    if sorted(a) != sorted(names) or len(a) != len(names) or sorted(n for n, _ in a.items()) != sorted(names):
        raise Mismatch(f"names {list(a)} instead of {names}")
    if sorted(a.keys()) != sorted(names) or any(n not in a for n in names) or "no such child" in a:
        raise Mismatch("keys()/in do not agree with the children")
    for n in names:
        if a[n] is not getattr(a, n) or dict(a.items())[n] is not a[n]:
            raise Mismatch(f"child {n} differs by way of access")
    for bad in ("no such child", 0):
        try:
            a[bad]
        except KeyError:
            continue
        raise Mismatch(f"child {bad!r} exists")
    for bad in ("no_such_child", "x", "Children"):
        if hasattr(a, bad):
            raise Mismatch(f"attribute {bad!r} exists")
