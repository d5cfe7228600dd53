"""Reference model of portfolio states and its binding to the real objects."""

from __future__ import annotations

import dataclasses
import math

import pandas as pd

from . import pfm, real
from .engine import Mismatch
from .pfm import MP, NAN, div


@dataclasses.dataclass
class MS:
    off: MP  # kind vol
    up: list  # unsourced prices
    src: MP  # kind all

    @property
    def ix(self):
        return self.off.ix

    def uq(self):
        return [-(a + b) for a, b in zip(self.off.data["q"], self.src.data["q"])]

    def unsourced(self):
        q = self.uq()
        return MP("all", self.ix, {"q": q, "r": [a * b for a, b in zip(q, self.up)]})

    def key(self):
        return [self.off.key(), [real.r12(float(v)) for v in self.up], self.src.key()]

    def sub(self, i, j):
        return MS(self.off.sub(i, j), self.up[i:j], self.src.sub(i, j))

    def restrict(self, starts):
        starts = set(starts)
        idx = [k for k, s in enumerate(self.ix.starts) if s in starts]
        return self.sub(idx[0], idx[-1] + 1) if idx else None

    def scale(self, f):
        return MS(self.off.scale(f), self.up, self.src.scale(f))

    def asfreq(self, freq):
        off, src, uns = self.off.asfreq(freq), self.src.asfreq(freq), self.unsourced().asfreq(freq)
        if off is None:
            return None
        return MS(off, uns.col("p"), src)


def zero_sourced(ix):
    return MP("all", ix, {"q": [0.0] * ix.n, "r": [0.0] * ix.n})


def add(a: MS, b: MS):
    com = sorted(set(a.ix.starts) & set(b.ix.starts))
    if not com:
        return None
    a, b = a.restrict(com), b.restrict(com)
    up = []
    for q1, q2, p1, p2 in zip(a.uq(), b.uq(), a.up, b.up):
        if abs(q1 + q2) > 1e-9:
            up.append((q1 * p1 + q2 * p2) / (q1 + q2))
        else:
            up.append(p1 if p1 == p2 else NAN)  # weighted average over zero net volume
    return MS(pfm.add(a.off, b.off), up, pfm.add(a.src, b.src))


def price_line(m: MS):
    return MP("pri", m.ix, {"p": m.up})


def build(m: MS):
    import portfolyo as pf

    return pf.PfState(pfm.build(m.off), pfm.build(price_line(m)), pfm.build(m.src))


def make(ixm, seed=0, off="flat", src="flat", zero=False):
    """Model state with distinctive values.  off/src: flat, nested, none; zero: some zero volumes"""

    def neg(m):
        return m.scale(-4.0)

    def vol(s):
        return neg(pfm.make("vol", ixm, s))

    o = vol(seed) if off == "flat" else pfm.nest({"A": vol(seed), "B": vol(seed + 1)})
    if src == "none":
        s = zero_sourced(ixm)
    elif src == "flat":
        s = pfm.make("all", ixm, seed + 2, zero_q=zero)
    else:
        s = pfm.nest({"X": pfm.make("all", ixm, seed + 2, zero_q=zero), "Y": pfm.make("all", ixm, seed + 3)})
    return MS(o, [float((k * 3 + seed) % 7 * 5 + 11) for k in range(ixm.n)], s)


def compare(pfs, m: MS, what="pfs", rel=1e-9, skip_up=None):
    """Parts and everything derived from them."""
    import portfolyo as pf

    if not isinstance(pfs, pf.PfState):
        raise Mismatch(f"{what}: {type(pfs).__name__} instead of PfState")
    ix, n = m.ix, m.ix.n
    pfm.cmp_index(pfs.index, ix, what + ".index")
    pfm.compare(pfs.offtakevolume, m.off, what + ".offtakevolume", rel)
    pfm.compare(pfs.offtake, m.off, what + ".offtake", rel)
    pfm.compare(pfs.sourced, m.src, what + ".sourced", rel)
    skip = skip_up or [math.isnan(p) for p in m.up]
    qo, qs, rs, uq = m.off.data["q"], m.src.data["q"], m.src.data["r"], m.uq()
    scale = max([1.0] + [abs(x) for x in qo + qs])
    zero = [abs(q) < 1e-7 * scale for q in uq]
    up = pfs.unsourcedprice
    if pfm.kindname(up) != "pri":
        raise Mismatch(f"{what}.unsourcedprice: kind {up.kind}")
    pfm.cmp_series(up.p, m.up, "p", ix, what + ".unsourcedprice", skip, rel)
    for name, sgn in (("unsourced", 1.0), ("netposition", -1.0)):
        u = getattr(pfs, name)
        if pfm.kindname(u) != "all":
            raise Mismatch(f"{what}.{name}: kind {u.kind}")
        q = [sgn * x for x in uq]
        dur = ix.dur
        pfm.cmp_series(u.q, q, "q", ix, f"{what}.{name}", zero, rel)
        pfm.cmp_series(u.w, [a / d for a, d in zip(q, dur)], "w", ix, f"{what}.{name}", zero, rel)
        pfm.cmp_series(u.p, m.up, "p", ix, f"{what}.{name}", [a or b for a, b in zip(skip, zero)], rel)
        pfm.cmp_series(u.r, [a * b for a, b in zip(q, m.up)], "r", ix, f"{what}.{name}", [a or b for a, b in zip(skip, zero)], rel)
    c = pfs.pnl_cost
    if pfm.kindname(c) != "all" or set(c) != {"sourced", "unsourced"}:
        raise Mismatch(f"{what}.pnl_cost: kind {c.kind}, {list(c)}")
    cq = [-q for q in qo]
    cr = [a + (b * p if b else 0.0) for a, b, p in zip(rs, uq, m.up)]
    pfm.cmp_series(c.q, cq, "q", ix, what + ".pnl_cost", None, rel)
    pfm.cmp_series(c.r, cr, "r", ix, what + ".pnl_cost", skip, rel)
    pfm.cmp_series(c.p, [div(a, b) for a, b in zip(cr, cq)], "p", ix, what + ".pnl_cost", [s or q == 0 for s, q in zip(skip, cq)], rel)
    pfm.compare(c["sourced"], m.src, what + ".pnl_cost.sourced", rel)
    pfm.cmp_series(c["unsourced"].q, uq, "q", ix, what + ".pnl_cost.unsourced", zero, rel)
    sf, uf = pfs.sourcedfraction, pfs.unsourcedfraction
    for nm, s, f in (("sourcedfraction", sf, lambda a, b: div(a, -b)), ("unsourcedfraction", uf, lambda a, b: 1 - div(a, -b))):
        pfm.cmp_index(s.index, ix, f"{what}.{nm}")
        vals = real.mags(s.astype("pint[dimensionless]") if real.unit_of(s) else s)
        exp = [f(a, b) for a, b in zip(qs, qo)]
        for k in range(n):
            if qo[k] != 0 and not real.close(vals[k], exp[k], rel=rel):
                raise Mismatch(f"{what}.{nm}[{k}]: {vals[k]} != {exp[k]}")
    mtm = pfs.mtm_of_sourced()
    if pfm.kindname(mtm) != "rev":
        raise Mismatch(f"{what}.mtm: kind {mtm.kind}")
    exp = [a * p - r for a, p, r in zip(qs, m.up, rs)]
    pfm.cmp_series(mtm.r, exp, "r", ix, what + ".mtm", skip, rel)


def fingerprint(pfs):
    return [pfm.fingerprint(pfs.offtakevolume), pfm.fingerprint(pfs.unsourcedprice), pfm.fingerprint(pfs.sourced)]


def same(a, b, what="", rel=1e-9):
    for part in ("offtakevolume", "unsourcedprice", "sourced"):
        pfm.same(getattr(a, part), getattr(b, part), f"{what}.{part}", rel=rel)


def simple_state(x, seed=0):
    return build(make(x, seed, "nested" if seed % 2 else "flat", "nested" if seed % 3 == 1 else "flat"))
