"""C08: concatenation is the inverse of splitting, in any order."""

import itertools

from .. import pfm, pfsm
from ..engine import Mismatch
from .c03 import CONF, related, window
from .c11 import make

PROP = "C08"
TECHNIQUE = "exhaustive enumeration of all cuts of the delivery period and all orders of the parts, executed on the real code against a reference model"
EXPLANATION = (
    "Every portfolio line (all kinds and structures) and portfolio state of n periods is cut at every subset of its inner"
    " boundaries, and the parts are concatenated in every permutation; the result is compared with the model of the uncut"
    " object. For every cut also every way to leave out an inner part (gap), to repeat a part or to extend one over its"
    " neighbour (overlap), and every incompatible pair (frequency, timezone, start-of-day, kind, structure, child names,"
    " depth, line with state) must be rejected."
)


def groups(tier):
    cs = range(len(CONF))
    out = [{"c": c, "k": k, "s": s, "t": "cut"} for c in cs for k in pfm.KINDS for s in ("flat", "nest", "deep")]
    out += [{"c": c, "t": "pfs", "o": o} for c in cs for o in range(3)]
    out += [{"c": c, "t": "bad"} for c in cs]
    return out


def cuts(n):
    for r in range(1, n):
        for cut in itertools.combinations(range(1, n), r):
            b = [0, *cut, n]
            yield list(zip(b, b[1:]))


def run(group, rec, tier):
    import portfolyo as pf

    c, t = group["c"], group["t"]
    n = min(CONF[c][4], 3) if tier == "quick" and CONF[c][1] != "MS" else CONF[c][4]
    x = window(c, 0, n)
    if t == "bad":
        return run_bad(group, rec, tier)
    # model of part [i, j) (in periods of configuration: for hourly data, days)
    if t == "cut":
        m = make(group["k"], x, group["s"])
        sub = lambda i, j: m.restrict(window(c, i, j).starts)
        build, compare, fp = pfm.build, pfm.compare, pfm.fingerprint
    else:
        off, src = [("flat", "none"), ("nested", "nested"), ("flat", "nested")][group["o"]]
        m = pfsm.make(x, 1, off, src)
        sub = lambda i, j: m.restrict(window(c, i, j).starts)
        build, compare, fp = pfsm.build, pfsm.compare, pfsm.fingerprint
    part = {}

    def real(i, j):
        if (i, j) not in part:
            part[i, j] = build(sub(i, j))
        return part[i, j]

    for cut in cuts(n):
        perms = itertools.permutations(cut)
        for k, perm in enumerate(perms):
            if t == "pfs" and tier == "quick" and k not in (0, 1, 5):
                continue
            with rec.case(cut=cut, perm=perm):
                ps = [real(*p) for p in perm]
                fps = [fp(p) for p in ps] if k == 0 else None
                got = pf.concat([ps, tuple(ps), iter(ps)][k % 3])
                rec.step()
                compare(got, m, f"concat{perm}")
                if fps and fps != [fp(p) for p in ps]:
                    raise Mismatch("concat changed its arguments")
                rec.state(m.key(), cut)
                rec.outcome(f"{len(cut)} parts")
                rec.sample({"group": group, "perm": perm})
        # histories: concatenate pairwise neighbours first
        if len(cut) == 3:
            with rec.case(cut=cut, assoc=True):
                a, b, d = [real(*p) for p in cut]
                rec.step(2)
                compare(pf.concat([d, pf.concat([b, a])]), m, "nested concat")
                compare(pf.concat([pf.concat([d, b]), a]), m, "nested concat")
                # gap, duplicates
                for bad in ([a, d], [d, a], [a, a, b, d], [d, b, b, a], [a, b, d, d]):
                    rec.raises(lambda: pf.concat(bad), "gap or duplicate")
        for k, (i, j) in enumerate(cut):
            with rec.case(cut=cut, extend=k):
                ps = [real(*p) for p in cut]
                if j < n:
                    rec.raises(lambda: pf.concat([*ps[:k], real(i, j + 1), *ps[k + 1 :]]), "overlap")
                if j - i > 1:
                    if k < len(cut) - 1:
                        rec.raises(lambda: pf.concat([*ps[:k], real(i, j - 1), *ps[k + 1 :]]), "gap")
                    if k > 0:
                        rec.raises(lambda: pf.concat([*ps[:k], real(i + 1, j), *ps[k + 1 :]][::-1]), "gap")
    with rec.case(single=True):
        rec.raises(lambda: pf.concat([real(0, n)]), "single object")
        rec.raises(lambda: pf.concat([real(0, n), real(0, n)]), "twice the same")


def variant(k, y, s):
    """nested, with children that differ from those of make()"""
    leaf = lambda seed: pfm.make(k, y, seed)
    if s == "other":
        return pfm.nest({"a": leaf(1), "z": leaf(2)})
    names = list(make(k, y, "deep" if s == "deepsub" else "nest").children)
    if s == "super":
        return pfm.nest({n: leaf(j) for j, n in enumerate([*names, "zz"])})
    if s == "sub":
        return pfm.nest({n: leaf(j) for j, n in enumerate(names[:1])})
    # additional child on deepest level
    def extra(m):
        if m.children is None:
            return m
        out = {n: extra(ch) for n, ch in m.children.items()}
        if all(ch.children is None for ch in m.children.values()):
            out["zz"] = leaf(3)
        return pfm.nest(out)

    return extra(make(k, y, "deep"))


def run_bad(group, rec, tier):
    import portfolyo as pf

    c = group["c"]
    n = CONF[c][4]
    x, y = window(c, 0, n), window(c, n, n + 2)
    for k in pfm.KINDS:
        for s in ("flat", "nest", "deep"):
            a = pfm.build(make(k, x, s))
            with rec.case(k=k, s=s, ok=True):
                m = make(k, window(c, 0, n + 2), s)
                b = pfm.build(m.restrict(y.starts))
                rec.step()
                pfm.compare(pf.concat([b, pfm.build(m.restrict(x.starts))]), m, "concat")
            for k2 in pfm.KINDS:
                for s2 in ("flat", "nest", "deep", "other", "super", "sub", "deepsub"):
                    if (k, s) == (k2, s2):
                        continue
                    with rec.case(k=k, s=s, k2=k2, s2=s2):
                        m2 = make(k2, y, s2) if s2 in ("flat", "nest", "deep") else variant(k2, y, s2)
                        b = pfm.build(m2)
                        rec.raises(lambda: pf.concat([a, b]), f"{k} {s} with {k2} {s2}")
                        rec.raises(lambda: pf.concat([b, a]), f"{k2} {s2} with {k} {s}")
                        rec.outcome("kind/structure")
            for r in ("freq", "tz", "sod"):
                with rec.case(k=k, s=s, r=r):
                    z = related(c, r)
                    b = pfm.build(make(k, z, s))
                    rec.raises(lambda: pf.concat([a, b]), f"other {r}")
                    # adjacent delivery periods as well
                    if r == "sod":
                        zz = pfm.Ix(y.tz, y.freq, z.sod, None)
                        import datetime as dt

                        from .. import cal
                        from .c03 import daysix

                        d0 = cal.add_date(dt.date.fromisoformat(CONF[c][3]), CONF[c][1], n) if CONF[c][1] not in cal.FIXED else dt.date.fromisoformat(CONF[c][3]) + dt.timedelta(days=n)
                        zz = daysix(x.tz, x.freq, z.sod, d0, 2) if CONF[c][1] in cal.FIXED else pfm.ix(x.tz, x.freq, z.sod, d0.isoformat(), 2)
                        b2 = pfm.build(make(k, zz, s))
                        rec.raises(lambda: pf.concat([a, b2]), f"adjacent with other {r}")
            for other in (1, None, "a", {"a": a}, a.df):
                with rec.case(k=k, s=s, other=str(type(other))):
                    rec.raises(lambda: pf.concat([a, other]), f"{type(other)}")
    with rec.case(mix="state"):
        S = pfsm.simple_state(x, 1)
        T = pfsm.simple_state(y, 1)
        L = pfm.build(make("all", y, "flat"))
        rec.raises(lambda: pf.concat([S, L]), "state with line")
        rec.raises(lambda: pf.concat([L, S]), "state with line")
        rec.raises(lambda: pf.concat([S]), "single state")
        rec.raises(lambda: pf.concat([S, S]), "same state twice")
        rec.raises(lambda: pf.concat([]), "nothing")
        for r in ("freq", "tz", "sod"):
            rec.raises(lambda: pf.concat([S, pfsm.simple_state(related(c, r), 1)]), f"state with other {r}")
        # structure of one of the parts differs
        A = pfsm.build(pfsm.make(x, 1, "nested", "flat"))
        for off, src in (("flat", "flat"), ("nested", "nested")):
            B = pfsm.build(pfsm.make(y, 1, off, src))
            rec.raises(lambda: pf.concat([A, B]), "states with different structure")
            rec.raises(lambda: pf.concat([B, A]), "states with different structure")
