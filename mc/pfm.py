"""Reference model of portfolio lines (plain Python) and its binding to the real objects."""

from __future__ import annotations

import dataclasses
import math
from typing import Optional

import pandas as pd

from . import cal, real
from .engine import Mismatch

NAN = float("nan")
KINDS = ["vol", "pri", "rev", "all"]
BASE = {"vol": ["q"], "pri": ["p"], "rev": ["r"], "all": ["q", "r"]}  # stored, additive columns
COLS = {"vol": ["w", "q"], "pri": ["p"], "rev": ["r"], "all": ["w", "q", "p", "r"]}


def div(a, b):
    if b == 0:
        return NAN if a == 0 else math.copysign(math.inf, a)
    return a / b


@dataclasses.dataclass
class Ix:
    """Model index: boundaries of consecutive periods."""

    tz: Optional[str]
    freq: str
    sod: str
    bounds: list  # n+1 instants

    @property
    def n(self):
        return len(self.bounds) - 1

    @property
    def starts(self):
        return self.bounds[:-1]

    @property
    def dur(self):  # hours
        return [(b - a) / 3600 for a, b in zip(self.bounds, self.bounds[1:])]

    def sub(self, i, j):
        return Ix(self.tz, self.freq, self.sod, self.bounds[i : j + 1])

    def compatible(self, o):
        return (self.tz, self.freq, self.sod) == (o.tz, o.freq, o.sod)

    def real(self) -> pd.DatetimeIndex:
        # via local start + periods: the canonical way in which a user makes an index
        start = real.stamp(self.bounds[0], self.tz)
        i = pd.date_range(start, periods=self.n, freq=self.freq)
        return i

    def key(self):
        return [self.tz, self.freq, self.sod, self.bounds[0], self.n]


def ix(tz, freq, sod, start, n) -> Ix:
    return Ix(tz, freq, sod, real.bounds(tz, freq, sod, start, n))


@dataclasses.dataclass
class MP:
    """Model portfolio line."""

    kind: str
    ix: Ix
    data: dict  # base column -> list of floats
    children: Optional[dict] = None  # name -> MP (all with same ix); data is their sum
    pz: Optional[list] = None  # (flat complete lines) known price at timestamps without volume, else None

    # ---- derived
    def col(self, c):
        if c in self.data:
            return self.data[c]
        if c == "w":
            return [q / d for q, d in zip(self.data["q"], self.ix.dur)]
        if c == "p":
            return [div(r, q) for r, q in zip(self.data["r"], self.data["q"])]
        raise KeyError(c)

    @property
    def nested(self):
        return self.children is not None

    def flat(self):
        return MP(self.kind, self.ix, self.data)

    def key(self):
        return [
            self.kind,
            self.ix.key(),
            {c: [real.r12(v) for v in vs] for c, vs in self.data.items()},
            None if self.children is None else {n: ch.key() for n, ch in self.children.items()},
            self.pz,
        ]

    # ---- operations
    def sub(self, i, j):
        return self.map(lambda m: MP(m.kind, m.ix.sub(i, j), {c: v[i:j] for c, v in m.data.items()}, pz=m.pz and m.pz[i:j]))

    def map(self, fn):
        """apply fn to all flat leaves, rebuild aggregate"""
        if self.children is None:
            return fn(self)
        return nest({n: ch.map(fn) for n, ch in self.children.items()})

    def restrict(self, starts):
        """keep (contiguous) periods whose start is in starts"""
        starts = set(starts)
        idx = [k for k, s in enumerate(self.ix.starts) if s in starts]
        if not idx:
            return None
        return self.sub(idx[0], idx[-1] + 1)

    def volume(self):
        return self.map(lambda m: MP("vol", m.ix, {"q": m.data["q"]}))

    def revenue(self):
        return self.map(lambda m: MP("rev", m.ix, {"r": m.data["r"]}))

    def price(self):
        return MP("pri", self.ix, {"p": self.col("p")})

    def scale(self, f):
        """f: number or list"""
        fs = f if isinstance(f, list) else [f] * self.ix.n
        return self.map(lambda m: MP(m.kind, m.ix, {c: [x * k for x, k in zip(v, fs)] for c, v in m.data.items()}, pz=m.pz))

    def asfreq(self, freq):
        def fn(m):
            nb, data = None, {}
            for c, v in m.data.items():
                how = "avg" if c == "p" else "sum"
                if cal.rank(freq) > cal.rank(m.ix.freq):
                    nb, data[c] = cal.downsample(m.ix.bounds, v, freq, m.ix.sod, m.ix.tz, how)
                elif cal.rank(freq) < cal.rank(m.ix.freq):
                    nb, data[c] = cal.upsample(m.ix.bounds, v, freq, m.ix.sod, m.ix.tz, how)
                else:
                    nb, data[c] = m.ix.bounds, v
            return MP(m.kind, Ix(m.ix.tz, freq, m.ix.sod, nb), data)

        if cal.rank(freq) > cal.rank(self.ix.freq) and not cal.cover(self.ix.bounds, freq, self.ix.sod, self.ix.tz):
            return None
        return self.map(fn)


def nest(children: dict) -> MP:
    first = next(iter(children.values()))
    data = {c: [sum(t) for t in zip(*(ch.data[c] for ch in children.values()))] for c in BASE[first.kind]}
    return MP(first.kind, first.ix, data, children)


def add(a: MP, b: MP) -> Optional[MP]:
    """model of a+b (same kind, compatible); None if no overlap."""
    common = sorted(set(a.ix.starts) & set(b.ix.starts))
    if not common:
        return None
    a, b = a.restrict(common), b.restrict(common)
    if a.nested != b.nested:
        a, b = a.flat(), b.flat()
    if not a.nested:
        return MP(a.kind, a.ix, {c: [x + y for x, y in zip(a.data[c], b.data[c])] for c in a.data})
    ch = {}
    for n in [*a.children, *b.children]:
        if n in ch:
            continue
        if n in a.children and n in b.children:
            ch[n] = add(a.children[n], b.children[n])
        else:
            ch[n] = (a.children if n in a.children else b.children)[n]
    return nest(ch)


# ---------------------------------------------------------------- binding


def make(kind, ixm: Ix, seed: int = 0, zero_q: bool = False) -> MP:
    """Flat model with distinctive exact values. seed selects the value pattern."""
    n = ixm.n
    q = [float(((k * 7 + seed * 5) % 13 + 1 + seed) * 3) for k in range(n)]
    p = [float(((k * 5 + seed * 3) % 11 + 2 + seed) * 2) for k in range(n)]
    if zero_q:
        q = [0.0 if k % 2 else v for k, v in enumerate(q)]
    r = [a * b for a, b in zip(q, p)]
    src = {"q": q, "p": p, "r": r}
    return MP(kind, ixm, {c: src[c] for c in BASE[kind]})


def priced(m: MP, price: float = 7.0) -> MP:
    """Same, but with a known price at the timestamps without volume (and revenue)."""

    def fn(f):
        if f.kind != "all":
            return f
        pz = [price + k if q == 0 and r == 0 else None for k, (q, r) in enumerate(zip(f.data["q"], f.data["r"]))]
        return dataclasses.replace(f, pz=pz)

    return m.map(fn)


def pint_series(vals, i, c):
    return pd.Series([float(v) for v in vals], i, dtype=f"pint[{real.UNIT[c]}]")


def build(m: MP):
    """Construct the real object through the public constructor."""
    import portfolyo as pf

    if m.nested:
        return pf.PfLine({n: build(ch) for n, ch in m.children.items()})
    i = m.ix.real()
    if m.kind == "all":
        cols = {"q": m.data["q"], "r": m.data["r"]}
        if m.pz and any(z is not None for z in m.pz):
            cols["p"] = [p if z is None else z for p, z in zip(m.col("p"), m.pz)]
    else:
        cols = m.data
    return pf.PfLine({c: pd.Series([float(x) for x in v], i) for c, v in cols.items()})


def obs_index(i: pd.DatetimeIndex):
    if not isinstance(i, pd.DatetimeIndex):
        raise Mismatch(f"index is {type(i)}")
    return real.secs(i), real.tzname(i.tz), (i.freqstr if i.freq is not None else None)


def same_freq(fr, want):
    if fr == want:
        return True
    if fr is None:
        return False
    try:
        b1, a1 = cal.parse_freq(fr)
        b2, a2 = cal.parse_freq(want)
    except (ValueError, IndexError):
        return False
    if b1 != b2:
        return False
    if b1 == "QS":
        return a1 % 3 == a2 % 3
    return a1 == a2


def cmp_index(i, m: Ix, what="index"):
    s, tz, fr = obs_index(i)
    if s != m.starts:
        raise Mismatch(
            f"{what}: timestamps {[str(t) for t in i[:3]]}..(n={len(s)}) != expected"
            f" {[str(real.stamp(t, m.tz)) for t in m.starts[:3]]}..(n={m.n})"
        )
    if tz != m.tz:
        raise Mismatch(f"{what}: timezone {tz} != {m.tz}")
    if not same_freq(fr, m.freq):
        raise Mismatch(f"{what}: freq {fr} != {m.freq}")


def cmp_series(s, vals, c, ixm=None, what="", skip=None, rel=1e-9):
    """s real series; c column name (for unit)"""
    if ixm is not None:
        cmp_index(s.index, ixm, f"{what}.{c}.index")
    if not real.same_unit(s, real.UNIT[c]):
        raise Mismatch(f"{what}.{c}: dtype {s.dtype}, expected pint[{real.UNIT[c]}]")
    ms = real.mags(s)
    if len(ms) != len(vals):
        raise Mismatch(f"{what}.{c}: {len(ms)} values, expected {len(vals)}")
    for k, (a, b) in enumerate(zip(ms, vals)):
        if skip and skip[k]:
            continue
        if not real.close(a, float(b), rel=rel, abs_=1e-8):
            raise Mismatch(f"{what}.{c}[{k}]: {a!r} != expected {b!r}")


def compare(pfl, m: MP, what="pfl", rel=1e-9):
    """Real portfolio line must equal the model in every observable respect."""
    import portfolyo as pf

    if not isinstance(pfl, pf.PfLine):
        raise Mismatch(f"{what}: {type(pfl).__name__} instead of PfLine")
    if kindname(pfl) != m.kind:
        raise Mismatch(f"{what}: kind {pfl.kind} != {m.kind}")
    if pfl.structure is not (pf.Structure.NESTED if m.nested else pf.Structure.FLAT):
        raise Mismatch(f"{what}: structure {pfl.structure}, expected {'nested' if m.nested else 'flat'}")
    cmp_index(pfl.index, m.ix, f"{what}.index")
    if set(pfl.df.columns) != set(COLS[m.kind]):
        raise Mismatch(f"{what}: columns {list(pfl.df.columns)}")
    skip = None
    if m.kind == "all":
        pz = m.pz or [None] * m.ix.n
        skip = [abs(q) < 1e-9 and z is None for q, z in zip(m.data["q"], pz)]
        want_p = [p if z is None else z for p, z in zip(m.col("p"), pz)]
    for c in COLS[m.kind]:
        want = want_p if m.kind == "all" and c == "p" else m.col(c)
        cmp_series(getattr(pfl, c), want, c, m.ix, what, skip if c == "p" else None, rel)
        cmp_series(pfl.df[c], want, c, None, what + ".df", skip if c == "p" else None, rel)
    if m.nested:
        if set(pfl) != set(m.children):
            raise Mismatch(f"{what}: children {list(pfl)} != {list(m.children)}")
        for n, ch in m.children.items():
            compare(pfl[n], ch, f"{what}[{n}]", rel)


def fingerprint(pfl):
    """Canonical observation of a real portfolio line (for immutability / state hashing)."""
    import portfolyo as pf

    out = [str(pfl.kind), str(pfl.structure), list(obs_index(pfl.index))]
    out.append({c: [real.r12(v) for v in real.mags(pfl.df[c])] + [str(pfl.df[c].dtype)] for c in sorted(pfl.df.columns)})
    if pfl.structure is pf.Structure.NESTED:
        out.append({n: fingerprint(pfl[n]) for n in pfl})
    return out


# ---------------------------------------------------------------- real-vs-real comparison


def observe(pfl, deep=True):
    """Plain-data observation of a real portfolio line."""
    import portfolyo as pf

    nested = pfl.structure is pf.Structure.NESTED
    return {
        "kind": str(pfl.kind),
        "index": list(obs_index(pfl.index)),
        "cols": {c: real.mags(getattr(pfl, c)) for c in COLS[kindname(pfl)]},
        "children": {n: observe(pfl[n]) for n in pfl} if (nested and deep) else None,
    }


def same(a, b, what="", flat=False, rel=1e-9, ignore_p=False):
    """two real portfolio lines agree in every observable respect (price ignored where there is no volume)"""
    if not flat:
        if type(a) is not type(b):
            raise Mismatch(f"{what}: {type(a).__name__} vs {type(b).__name__}")
    _same(observe(a, not flat), observe(b, not flat), what, rel, ignore_p)


def _same(a, b, what, rel, ignore_p=False):
    if a["kind"] != b["kind"]:
        raise Mismatch(f"{what}: kinds {a['kind']} vs {b['kind']}")
    (s1, t1, f1), (s2, t2, f2) = a["index"], b["index"]
    if s1 != s2 or t1 != t2 or not same_freq(f1, f2):
        raise Mismatch(f"{what}: index {s1[:2]}..n={len(s1)} {t1} {f1} vs {s2[:2]}..n={len(s2)} {t2} {f2}")
    q = a["cols"].get("q")
    scale = {c: max([1.0] + [abs(x) for x in v if not math.isnan(x) and not math.isinf(x)]) for c, v in a["cols"].items()}
    for c in a["cols"]:
        if c == "p" and ignore_p:
            continue
        for k, (x, y) in enumerate(zip(a["cols"][c], b["cols"][c])):
            if c == "p" and q is not None and abs(q[k]) < 1e-7 * scale["q"]:
                continue
            if not real.close(x, y, rel=rel, abs_=rel * scale[c]):
                raise Mismatch(f"{what}: {c}[{k}] {x!r} vs {y!r}")
    if (a["children"] is None) != (b["children"] is None):
        raise Mismatch(f"{what}: structure differs")
    if a["children"] is not None:
        if set(a["children"]) != set(b["children"]):
            raise Mismatch(f"{what}: children {sorted(a['children'])} vs {sorted(b['children'])}")
        for n in a["children"]:
            _same(a["children"][n], b["children"][n], f"{what}[{n}]", rel)


def common_starts(a: MP, b: MP):
    return sorted(set(a.ix.starts) & set(b.ix.starts))


def kindname(pfl):
    import portfolyo as pf

    return {pf.Kind.VOLUME: "vol", pf.Kind.PRICE: "pri", pf.Kind.REVENUE: "rev", pf.Kind.COMPLETE: "all"}[pfl.kind]
