"""C22: sourcing the unsourced volume."""

from .. import cal, pfm, pfsm, real
from ..engine import Mismatch
from ..pfsm import MS
from . import c18
from .c16 import fixix
from .c19 import cmp_parts

PROP = "C22"
TECHNIQUE = "explicit-state exploration of all sequences of hedges up to a depth on the real code, against a reference model of portfolio states and hedges"
EXPLANATION = (
    "From portfolio states of every shape (nested or flat parts, nothing sourced, long and short positions, part of the"
    " timestamps closed) on windows with complete products (incl. DST changes, all start-of-days) all sequences of hedges (volume"
    " or value, base or peak/offpeak, day / month / quarter / year products) up to the depth are simulated. The hedge and every"
    " part of the new state are compared with the model, unsourced volume or value must be zero in every product and the"
    " procurement cost of every product unchanged, and a second identical hedge must not change anything."
)
WIN = [  # tz, freq, start, number of days (periods), product frequencies
    ("Europe/Berlin", "h", "2020-03-01", 61, ("D", "MS")),
    ("Europe/Berlin", "h", "2020-10-01", 92, ("MS", "QS")),
    (None, "h", "2020-02-01", 29, ("D", "MS")),
    ("America/New_York", "h", "2020-11-01", 30, ("D", "MS")),
    ("Europe/Berlin", "15min", "2020-10-24", 3, ("D",)),
    ("Asia/Kolkata", "D", "2020-01-01", 91, ("D", "MS", "QS")),
    ("Europe/Berlin", "D", "2020-01-01", 366, ("D", "MS", "QS", "YS")),
]
PARTIAL = [("Europe/Berlin", "h", "2020-03-05", 61, ("MS", "QS")), ("Europe/Berlin", "D", "2020-01-01", 100, ("MS", "QS", "YS"))]
SHAPES = [("flat", "none"), ("nested", "flat"), ("flat", "nested"), ("closed", "closed"), ("long", "flat")]


def groups(tier):
    out = []
    for k in range(len(WIN)):
        for sod in ("00:00", "06:00"):
            for s in range(len(SHAPES)):
                if tier == "thorough" or (k + s + (sod == "06:00")) % 2 == 0:
                    out.append({"w": k, "sod": sod, "s": s})
    out += [{"w": k, "sod": sod, "s": 1, "partial": True} for k in range(len(PARTIAL)) for sod in ("00:00", "06:00")]
    return out


def make(x, s):
    off, src = SHAPES[s]
    up = c18.values(x, "plain", "p")
    w = c18.values(x, "plain", "w")
    q = [-v * h for v, h in zip(w, x.dur)]
    if off == "long":
        q = [-v for v in q]
    o = pfm.MP("vol", x, {"q": q})
    if off == "nested":
        o = pfm.nest({"A": pfm.MP("vol", x, {"q": [v * 0.5 for v in q]}), "B": pfm.MP("vol", x, {"q": [v * 2 for v in q]})})
    q = o.data["q"]
    if src == "none":
        sr = pfsm.zero_sourced(x)
    elif src == "closed":
        sq = [-v if k % 2 else -0.5 * v for k, v in enumerate(q)]
        sr = pfm.MP("all", x, {"q": sq, "r": [v * 30.0 for v in sq]})
    else:
        leaf = lambda seed: pfm.make("all", x, seed)
        sr = leaf(2) if src == "flat" else pfm.nest({"X": leaf(2), "Y": leaf(3)})
    return MS(o, up, sr)


def hedge(m, how, freq, spec):
    """-> (model of hedge, expected-tuple of C18)"""
    w = [q / h for q, h in zip(m.uq(), m.ix.dur)]
    e = c18.expected(m.ix, w, m.ix, m.up, how, freq, spec)
    if e is None:
        return None, None
    hq = [v * h for v, h in zip(e[1], e[0].dur)]
    return pfm.MP("all", e[0], {"q": hq, "r": [q * p for q, p in zip(hq, e[2])]}), e


def cost(pfs):
    return real.mags(pfs.pnl_cost.r)


def run(group, rec, tier):
    import portfolyo as pf

    part = group.get("partial")
    tz, f, start, n, freqs = (PARTIAL if part else WIN)[group["w"]]
    x = fixix(tz, f, group["sod"], start, n) if f in cal.FIXED else pfm.ix(tz, f, group["sod"], start, n)
    m0 = make(x, group["s"])
    r0 = pfsm.build(m0)
    fns = {None: None}
    if f != "D":
        fns["german"] = c18.FNS["german"]
        if group["w"] == 0:
            fns["dsthour"] = c18.FNS["dsthour"]
    acts = [(how, fn, fr) for how in ("vol", "val") for fn in fns for fr in freqs if not (fn and fr == "D")]
    if part:
        for how, fn, fr in acts:
            with rec.case(act=(how, fn, fr)):
                spec = fns[fn]
                hm, e = hedge(m0, how, fr, spec)
                rec.step()
                if hm is None:
                    continue
                fun = spec and pf.create_peakfn(*spec)
                pfm.compare(r0.hedge_of_unsourced(how, fun, fr), hm, "hedge", rel=1e-7)
                try:
                    got = r0.source_unsourced(how, fun, fr)
                except Exception:  # hedge does not cover entire delivery period
                    rec.outcome("partial: error")
                    continue
                got_q = dict(zip(real.secs(got.sourced.index), real.mags(got.sourced.q)))
                want = pfm.add(m0.src, hm)
                for s, q in zip(want.ix.starts, want.data["q"]):
                    if not real.close(got_q.get(s), q, rel=1e-7):
                        raise Mismatch(f"sourced volume {got_q.get(s)} != {q}")
        return
    depth = 2
    frontier = [((), m0, r0)]
    for level in range(depth):
        new = []
        for path, m, r in frontier:
            c0 = cost(r)
            for a, (how, fn, fr) in enumerate(acts):
                if level and tier == "quick" and x.n > 300 and (a + len(path) + acts.index(path[-1])) % 5 and (how, fn, fr) != path[-1]:
                    continue
                p2 = path + ((how, fn, fr),)
                with rec.case(path=p2):
                    spec = fns[fn]
                    fun = spec and pf.create_peakfn(*spec)
                    hm, e = hedge(m, how, fr, spec)
                    rec.step(2)
                    what = "/".join(f"{a} {b or 'base'} {c}" for a, b, c in p2)
                    if level == 0:
                        pfm.compare(r.hedge_of_unsourced(how, fun, fr), hm, f"{what}: hedge", rel=1e-7)
                    got = r.source_unsourced(how, fun, fr)
                    want = MS(m.off, m.up, pfm.add(m.src, hm))
                    cmp_parts(got, want, what)
                    # nothing unsourced in any product, and cost of product unchanged
                    z, keys = e[0], e[3]
                    uq, c1 = real.mags(got.unsourced.volume.q), cost(got)
                    tot = {}
                    for k, q, p, b, c in zip(keys, uq, m.up, c0, c1):
                        t = tot.setdefault(k, [0.0, 0.0, 0.0])
                        t[0] += q if how == "vol" else q * p
                        t[1] += c - b
                        t[2] += abs(q * p) + abs(c)
                    for k, (u, d, scale) in tot.items():
                        if abs(u) > 1e-7 * max(scale, 1.0):
                            raise Mismatch(f"{what}: unsourced {'volume' if how == 'vol' else 'value'} of product {k} is {u}")
                        if abs(d) > 1e-7 * max(scale, 1.0):
                            raise Mismatch(f"{what}: cost of product {k} changed by {d}")
                    if path and path[-1] == (how, fn, fr):
                        pfm.same(got.sourced, r.sourced, f"{what}: second hedge", rel=1e-6)
                    rec.state(group, p2)
                    rec.outcome(f"{how} {'peak/offpeak' if fn else 'base'}")
                    new.append((p2, want, got))
        frontier = new
        rec.sample({"group": group, "paths": [list(p) for p, _, _ in frontier[:2]]})
    with rec.case(defaults=True):
        if "MS" in freqs:
            rec.step()
            want = MS(m0.off, m0.up, pfm.add(m0.src, hedge(m0, "val", "MS", None)[0]))
            cmp_parts(r0.source_unsourced(), want, "defaults")
            pfsm.same(r0, pfsm.build(m0), "original after hedge")
