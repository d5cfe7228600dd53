"""C11: reindexing keeps existing values and fills new periods with zero."""

from .. import pfm
from ..pfm import MP
from .c03 import CONF, related, window

PROP = "C11"
TECHNIQUE = "exhaustive enumeration of all relative positions of source and target index (and of sequences of two reindexing steps) on the real code against a reference model"
EXPLANATION = (
    "For every index configuration, kind and structure, the portfolio line is reindexed to every window [i, j) from two"
    " periods before its start until two after its end (disjoint ones included), and from there to a second window; the"
    " result is compared in all respects, for all children.  Incompatible target indices must be rejected."
)


def groups(tier):
    return [{"c": c, "k": k, "s": s} for c in range(len(CONF)) for k in pfm.KINDS for s in ("flat", "nest", "deep")]


def make(kind, x, s):
    return pfm.priced(make_(kind, x, s))


def make_(kind, x, s):
    if s == "flat":
        return pfm.make(kind, x, 1, zero_q=kind == "all")
    a, b = pfm.make(kind, x, 2), pfm.make(kind, x, 0, zero_q=kind == "all")
    if s == "nest":
        return pfm.nest({"a": a, "b": b})
    return pfm.nest({"a": pfm.nest({"k": a, "l": b}), "c": pfm.make(kind, x, 3)})


def reindex(m, x):
    def fn(f):
        d = {}
        for c, v in f.data.items():
            look = dict(zip(f.ix.starts, v))
            d[c] = [look.get(s, 0.0) for s in x.starts]
        look = dict(zip(f.ix.starts, f.pz or []))
        return MP(f.kind, x, d, pz=[look.get(s) for s in x.starts])

    return m.map(fn)


def run(group, rec, tier):
    c, kind, s = group["c"], group["k"], group["s"]
    n = min(CONF[c][4], 4 if tier == "quick" else 6)
    m = make(kind, window(c, 0, n), s)
    a = pfm.build(m)
    fp = pfm.fingerprint(a)
    wins = [(i, j) for i in range(-2, n + 2) for j in range(i + 1, n + 3)]
    second = [(0, n), (-1, 1), (1, n + 1)] if tier == "quick" else wins[::2]
    for i, j in wins:
        with rec.case(i=i, j=j):
            x = window(c, i, j)
            exp = reindex(m, x)
            got = a.reindex(x.real())
            rec.step()
            pfm.compare(got, exp, f"reindex[{i},{j})")
            rec.state(exp.key())
            rec.outcome("same" if (i, j) == (0, n) else "sub" if i >= 0 and j <= n else "disjoint" if j <= 0 or i >= n else "extend")
            rec.sample({"group": group, "i": i, "j": j})
            for k, (p, q) in enumerate(second):
                y = window(c, p, q)
                e2 = reindex(exp, y)
                g2 = got.reindex(y.real())
                rec.step()
                pfm.compare(g2, e2, f"reindex[{i},{j})[{p},{q})")
                rec.state(e2.key())
    for r in ("freq", "tz", "sod"):
        with rec.case(bad=r):
            y = related(c, r)
            rec.raises(lambda: a.reindex(y.real()), f"reindex to index with other {r}")
    with rec.case(immut=True):
        rec.expect(pfm.fingerprint(a) == fp, "reindexing changed the portfolio line")
