"""C21: resampling portfolio states."""

import math

from .. import cal, pfm, pfsm
from ..engine import Mismatch
from .c10 import CONF, allowed
from .c19 import cmp_parts
from .c20 import SHAPES, closed

PROP = "C21"
TECHNIQUE = "explicit-state exploration: all sequences of resampling operations up to a depth, executed on the real code and compared with a reference model of portfolio states"
EXPLANATION = (
    "From portfolio states of every shape (offtake and sourced flat or nested, nothing sourced, timestamps without unsourced"
    " volume, with negative volumes) at every index configuration (around DST changes, with partial periods) all sequences of"
    " target frequencies up to the depth are executed; every part and every derived quantity is compared with the model, in"
    " which volumes and revenues of the parts are summed over (or spread over) complete periods and prices are energy-weighted."
    " Resampling must also commute with addition, negation and scaling, and must fail if no period is complete."
)


def groups(tier):
    out = []
    for c in range(len(CONF)):
        for s in range(len(SHAPES) + 1):
            if tier == "thorough" or (c + s) % 2 == 0:
                out.append({"c": c, "s": s})
    return out


def make(x, s, seed=1):
    if s == len(SHAPES):
        return closed(pfsm.make(x, seed, "nested", "none"))
    off, src, zero = SHAPES[s]
    return pfsm.make(x, seed, off, src, zero)


def run(group, rec, tier):
    tz, freq, sod, start, n, freqs, dq, _ = CONF[group["c"]]
    x = pfm.ix(tz, freq, sod, start, n)
    m0 = make(x, group["s"])
    r0 = pfsm.build(m0)
    fp = pfsm.fingerprint(r0) if x.n < 500 else None
    depth = 2 if tier == "quick" else 3
    frontier = [((freq,), m0, r0)]
    for level in range(depth):
        new = []
        for path, m, r in frontier:
            for f in freqs:
                if not allowed(path[-1], f) or f == path[-1] and level:
                    continue
                if tier == "quick" and level and m.ix.n > 400 and cal.rank(f) < cal.rank(path[-1]):
                    continue
                p2 = path + (f,)
                with rec.case(path=list(p2)):
                    m2 = m if f == path[-1] else m.asfreq(f)
                    rec.step()
                    if m2 is None:
                        rec.raises(lambda: r.asfreq(f), f"{p2} without complete period")
                        continue
                    r2 = r.asfreq(f)
                    full = rec.state(m2.ix.key(), group["s"], [round(v, 6) for v in m2.off.data["q"][:50]])
                    if full and (m2.ix.n < 1000 or tier == "thorough"):
                        pfsm.compare(r2, m2, str(p2), rel=1e-8)
                    else:
                        cmp_parts(r2, m2, str(p2))
                    rec.outcome("same" if f == path[-1] else "down" if cal.rank(f) > cal.rank(path[-1]) else "up")
                    if all(not math.isnan(v) for v in m2.up):
                        new.append((p2, m2, r2))
        frontier = new
        rec.sample({"group": group, "paths": [list(p) for p, _, _ in frontier[:3]]})
    if fp:
        with rec.case(immut=True):
            rec.step()
            if pfsm.fingerprint(r0) != fp:
                raise Mismatch("resampling changed the original")
    # commutes with arithmetic
    other = pfsm.build(pfsm.make(x, 3, *SHAPES[group["s"] % len(SHAPES)][:2]))
    for f in freqs:
        if not allowed(freq, f) or m0.asfreq(f) is None or cal.rank(f) <= cal.rank(freq):
            continue
        if tier == "quick" and x.n > 400 and f != freqs[-1]:
            continue
        with rec.case(commute=f):
            after = r0.asfreq(f)
            if any(math.isnan(v) for v in m0.asfreq(f).up):
                continue
            rec.step(3)
            pfsm.same((-r0).asfreq(f), -after, f"negation, {f}", rel=1e-8)
            pfsm.same((r0 * 2.5).asfreq(f), after * 2.5, f"scaling, {f}", rel=1e-8)
            pfsm.same((r0 + other).asfreq(f), after + other.asfreq(f), f"addition, {f}", rel=1e-8)
            rec.outcome("commutes")
