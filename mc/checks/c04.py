"""C04: algebraic laws of portfolio-line arithmetic, for all operand tuples of an alphabet."""

import itertools

import pandas as pd

from .. import pfm, real
from ..engine import Mismatch
from .c03 import CONF, window

PROP = "C04"
TECHNIQUE = "exhaustive enumeration of expression pairs (both sides of every law) over the operand alphabet, executed on the real code"
EXPLANATION = (
    "For every index configuration and kind, every tuple of operands (flat / nested, same / overlapping / distinct child"
    " names, equal / shifted / wider delivery period, with zero volumes) is put in both sides of each law; results are"
    " compared in all observable respects (kind, structure, index, children, values; price only where volume is nonzero)."
)


def groups(tier):
    confs = range(len(CONF)) if tier == "thorough" else (0, 3)
    out = [{"c": c, "k": k, "t": "tri", "a": a} for c in confs for k in pfm.KINDS for a in range(5)]
    out += [{"c": c, "k": k, "t": "un"} for c in confs for k in pfm.KINDS]
    out += [{"c": c, "t": "kinds", "i": i} for c in confs for i in range(5)]
    return out


def alphabet(c, kind):
    n = CONF[c][4]
    x, y, z = window(c, 0, n), window(c, -1, max(1, n - 1)), window(c, -1, n + 1)
    zq = kind == "all"
    return [
        ("flat", pfm.make(kind, x, 1)),
        ("nest_ab", pfm.nest({"a": pfm.make(kind, x, 2, zero_q=zq), "b": pfm.make(kind, x, 0)})),
        ("nest_bc_shift", pfm.nest({"b": pfm.make(kind, y, 3), "c": pfm.make(kind, y, 1)})),
        ("flat_wide", pfm.make(kind, z, 2, zero_q=zq)),
        ("deep", pfm.nest({"a": pfm.nest({"k": pfm.make(kind, x, 2), "l": pfm.make(kind, x, 1)}), "c": pfm.make(kind, x, 3)})),
    ]


def run(group, rec, tier):
    if group["t"] == "kinds":
        return run_kinds(group, rec, tier)
    c, kind = group["c"], group["k"]
    A = [(n, m, pfm.build(m)) for n, m in alphabet(c, kind)]
    x = window(c, 0, CONF[c][4])

    def law(name, lhs, rhs, flat=False):
        L, R = lhs(), rhs()
        rec.step(2)
        pfm.same(L, R, name, flat=flat)
        rec.outcome(name)
        rec.state(pfm.fingerprint(L))

    if group["t"] == "un":
        i = x.real()
        fs = pd.Series([2.0 + k % 3 for k in range(len(i))], i)
        for an, am, a in A:
            for f, g in [(2.0, -0.5), (-3, 4), (0.25, 8.0), (fs, 3.0), (2.0, fs)]:
                with rec.case(a=an, f=str(f)[:5], g=str(g)[:5]):
                    law("(af)g=a(fg)", lambda: (a * f) * g, lambda: a * (f * g))
                    law("af=fa", lambda: a * g, lambda: (g * a) if not isinstance(g, pd.Series) else a * g)
                    if not isinstance(f, pd.Series):
                        law("(af)/f=a", lambda: (a * f) / f, lambda: a)
                        law("a/f=a(1/f)", lambda: a / f, lambda: a * (1 / f))
                        law("-(af)=a(-f)", lambda: -(a * f), lambda: a * (-f))
                    if kind == "all":
                        L, R = (a * f), (a if not isinstance(f, pd.Series) else a.slice[i[0] : x_end(a, x)])
                        rec.step()
                        pfm.same(L.price, R.price, "price unchanged by scaling")
                        for n in L if am.nested else []:
                            pfm.same(L[n].price, R[n].price, f"price of {n} unchanged")
            with rec.case(a=an, law="unary"):
                law("--a=a", lambda: -(-a), lambda: a)
                law("-a=a*-1", lambda: -a, lambda: a * -1)
                law("a*1=a", lambda: a * 1, lambda: a)
                law("a+None=a", lambda: a + None, lambda: a)
                law("0+a=a", lambda: 0 + a, lambda: a)
                law("0-a=-a", lambda: 0 - a, lambda: -a)
                law("flatten(-a)", lambda: (-a).flatten(), lambda: -(a.flatten()))
                law("flatten idempotent", lambda: a.flatten().flatten(), lambda: a.flatten())
                if kind == "all":
                    pfm.same((-a).price, a.price, "price unchanged by negation")
                    law("vol(-a)", lambda: (-a).volume, lambda: -(a.volume))
                    law("rev(-a)", lambda: (-a).revenue, lambda: -(a.revenue))
                    law("flat vol", lambda: a.flatten().volume, lambda: a.volume.flatten())
                    law("flat rev", lambda: a.flatten().revenue, lambda: a.revenue.flatten())
                    law("flat pri", lambda: a.flatten().price, lambda: a.price.flatten())
                    law("vol|rev", lambda: a.volume | a.revenue, lambda: a.flatten())
                d = a - a
                rec.step()
                mags = [v for col in pfm.BASE[kind] for v in real.mags(getattr(d, col))]
                if any(abs(v) > 1e-9 for v in mags) or bool(d.flatten()):
                    raise Mismatch(f"a-a not zero: {real.fmt(mags)}")
            # sub-periods
            n = am.ix.n
            cuts = [0, 1, n // 2, n]
            for p in sorted(set(cuts)):
                for q in sorted(set(cuts)):
                    if p >= q or am.ix.freq in ("h", "15min"):
                        continue
                    s, e = real.stamp(am.ix.bounds[p], am.ix.tz), real.stamp(am.ix.bounds[q], am.ix.tz)
                    with rec.case(a=an, p=p, q=q):
                        law("slice(2a)", lambda: (a * 2).slice[s:e], lambda: a.slice[s:e] * 2)
                        law("slice(flat)", lambda: a.flatten().slice[s:e], lambda: a.slice[s:e].flatten())
        return

    an, am, a = A[group["a"]]
    for bn, bm, b in A:
        both_ovl = pfm.common_starts(am, bm)
        s, e = real.stamp(both_ovl[0], am.ix.tz), real.stamp(both_ovl[-1], am.ix.tz)
        end = real.stamp(min(am.ix.bounds[-1], bm.ix.bounds[-1]), am.ix.tz)
        with rec.case(a=an, b=bn):
            law("a+b=b+a", lambda: a + b, lambda: b + a)
            law("a-b=-(b-a)", lambda: a - b, lambda: -(b - a))
            law("a-b=a+(-b)", lambda: a - b, lambda: a + (-b))
            law("(a+b)-b=a", lambda: (a + b) - b, lambda: a.slice[s:end], flat=True)
            law("(a-b)+b=a", lambda: (a - b) + b, lambda: a.slice[s:end], flat=True)
            law("flatten(a+b)", lambda: (a + b).flatten(), lambda: a.flatten() + b.flatten())
            law("sum", lambda: sum([a, b]), lambda: a + b)
            for f in (2, -0.5):
                law("(a+b)f=af+bf", lambda: (a + b) * f, lambda: a * f + b * f)
                law("(a-b)f=af-bf", lambda: (a - b) * f, lambda: a * f - b * f)
            if kind == "all":
                law("vol(a+b)", lambda: (a + b).volume, lambda: a.volume + b.volume)
                law("rev(a+b)", lambda: (a + b).revenue, lambda: a.revenue + b.revenue)
                law("rev(a-b)", lambda: (a - b).revenue, lambda: a.revenue - b.revenue)
            if am.ix.freq not in ("h", "15min") and len(both_ovl) > 1:
                m = real.stamp(both_ovl[1], am.ix.tz)
                law("slice(a+b)", lambda: (a + b).slice[m:end], lambda: a.slice[m:end] + b.slice[m:end])
                law("slice(a-b)", lambda: (a - b).slice[s:m], lambda: a.slice[s:m] - b.slice[s:m])
            rec.sample({"group": group, "b": bn})
        for cn, cm, cc in A:
            if tier != "thorough" and "deep" in (bn, cn):
                continue
            with rec.case(a=an, b=bn, c=cn):
                law("(a+b)+c=a+(b+c)", lambda: (a + b) + cc, lambda: a + (b + cc))
                law("(a+b)-c=a+(b-c)", lambda: (a + b) - cc, lambda: a + (b - cc))
                if tier == "thorough":
                    law("a-(b-c)=(a-b)+c", lambda: a - (b - cc), lambda: (a - b) + cc)
                    law("sum3", lambda: sum([a, b, cc]), lambda: cc + b + a)


def x_end(a, x):
    return real.stamp(x.bounds[-1], x.tz)


def run_kinds(group, rec, tier):
    """laws that relate volume, price and revenue"""
    c = group["c"]
    V = [(n, m, pfm.build(m)) for n, m in alphabet(c, "vol")]
    P = [(n, m, pfm.build(m)) for n, m in alphabet(c, "pri")]
    R = [(n, m, pfm.build(m)) for n, m in alphabet(c, "rev")]

    def law(name, lhs, rhs):
        L, Rr = lhs(), rhs()
        rec.step(2)
        pfm.same(L, Rr, name)
        rec.outcome(name)
        rec.state(pfm.fingerprint(L))

    vn, vm, v = V[group["i"]]
    for pn, pm, p in P:
        st = pfm.common_starts(vm, pm)
        s, e = real.stamp(st[0], vm.ix.tz), real.stamp(min(vm.ix.bounds[-1], pm.ix.bounds[-1]), vm.ix.tz)
        with rec.case(v=vn, p=pn):
            vf, pfl = v.flatten().slice[s:e], p.flatten().slice[s:e]
            law("vp=pv", lambda: v * p, lambda: p * v)
            law("(vp)/p=v", lambda: (v * p) / p, lambda: vf)
            law("(vp)/v=p", lambda: (v * p) / v, lambda: pfl)
            law("v|p=p|v", lambda: v | p, lambda: p | v)
            law("(v|p).volume", lambda: (v | p).volume, lambda: vf)
            law("(v|p).price", lambda: (v | p).price, lambda: pfl)
            law("(v|p).revenue", lambda: (v | p).revenue, lambda: v * p)
            law("v|(vp)", lambda: v | (v * p), lambda: v | p)
            law("p|(vp)", lambda: p | (v * p), lambda: v | p)
            law("(2v)p=2(vp)", lambda: (v * 2) * p, lambda: (v * p) * 2)
            law("v(3p)=3(vp)", lambda: v * (p * 3), lambda: (v * p) * 3)
            law("-(v|p)", lambda: -(v | p), lambda: (-v) | p)
            for wn, wm, w in V:
                law("(v+w)p=vp+wp", lambda: (v + w).flatten() * p, lambda: (v * p + w * p))
            for wn, wm, w in P:
                law("v(p+w)=vp+vw", lambda: v * (p + w).flatten(), lambda: v * p + v * w)
    for rn, rm, r in R:
        with rec.case(v=vn, r=rn):
            st = pfm.common_starts(vm, rm)
            s, e = real.stamp(st[0], vm.ix.tz), real.stamp(min(vm.ix.bounds[-1], rm.ix.bounds[-1]), vm.ix.tz)
            law("(r/v)v=r", lambda: (r / v) * v, lambda: r.flatten().slice[s:e])
            law("r/(r/v)=v", lambda: r / (r / v), lambda: v.flatten().slice[s:e])
            law("(v|r).price", lambda: (v | r).price, lambda: r / v)
            law("(v|r).revenue", lambda: (v | r).revenue, lambda: r.flatten().slice[s:e])
            pn, pm, p = P[group["i"]]
            law("(p|r).volume", lambda: (p | r).volume, lambda: r / p)
    for wn, wm, w in V:
        with rec.case(v=vn, w=wn):
            st = pfm.common_starts(vm, wm)
            s, e = real.stamp(st[0], vm.ix.tz), real.stamp(min(vm.ix.bounds[-1], wm.ix.bounds[-1]), vm.ix.tz)
            ratio = v / w
            law("w*(v/w)=v", lambda: w.flatten() * ratio, lambda: v.flatten().slice[s:e])
            inv = w / v
            rec.step()
            if not real.allclose([a * b for a, b in zip(real.mags(ratio), real.mags(inv))], [1.0] * len(ratio)):
                raise Mismatch("(v/w)(w/v) != 1")
