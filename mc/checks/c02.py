"""C02: construction is independent of the representation of the data."""

import itertools

import numpy as np
import pandas as pd

from .. import pfm, real
from ..engine import Mismatch
from .c01 import INDICES, UNITS, kind_of, mkix, ser, truth

PROP = "C02"
TECHNIQUE = "exhaustive enumeration of all representations of the same data on the real constructors against a reference model"
EXPLANATION = (
    "For every index and dimension subset, all representations (dictionary, dataframe, series, list; any key order; floats,"
    " integers, numbers of other width, quantities, objects; other units; numbers next to a series; other portfolio lines) and all nested"
    " representations x child windows are constructed and compared with one model; non-standard input must be rejected."
)


def groups(tier):
    ks = range(len(INDICES)) if tier == "thorough" else [0, 3, 4, 9, 12, 16]
    out = [{"t": "flat", "i": k, "sub": j} for k in ks for j in range(3)]
    out += [{"t": "nested", "i": k, "kind": kd} for k in (ks if tier == "thorough" else [0, 3, 12]) for kd in pfm.KINDS]
    out += [{"t": "bad", "i": k} for k in (ks if tier == "thorough" else [1, 3, 4, 10, 12, 14])]
    return out


def obj(vals, i, unit):
    import portfolyo as pf

    return pd.Series([pf.Q_(float(v), unit) for v in vals], i)


def reps(sub, t, i, tier):
    """name, data"""
    import portfolyo as pf

    U = {c: UNITS[c][0][0] for c in sub}
    fl = {c: ser(t[c], i) for c in sub}
    pt = {c: ser(t[c], i, U[c]) for c in sub}
    alt = {c: ser([v / UNITS[c][1][1] for v in t[c]], i, UNITS[c][1][0]) for c in sub}
    ob = {c: obj(t[c], i, U[c]) for c in sub}
    for kp, perm in enumerate(itertools.permutations(sub)):
        if tier != "thorough" and len(sub) == 4 and kp % 5:
            continue
        pn = "".join(perm)
        yield f"dict {pn}", {c: fl[c] for c in perm}
        yield f"dictpint {pn}", {c: pt[c] for c in perm}
        yield f"list {pn}", [pt[c] for c in perm]
        yield f"df {pn}", pd.DataFrame({c: fl[c] for c in perm})
        yield f"dfpint {pn}", pd.DataFrame({c: pt[c] for c in perm})
        if tier != "thorough" and perm != sub and (len(sub) > 2 or len(i) > 30):
            continue
        yield f"dictalt {pn}", {c: alt[c] for c in perm}
        yield f"tuplealt {pn}", tuple(alt[c] for c in perm)
        yield f"gen {pn}", (alt[c] for c in perm)
        yield f"mixed {pn}", {c: (fl[c] if k % 2 else alt[c]) for k, c in enumerate(perm)}
    yield "obj", ob
    from portfolyo import Q_

    mix = {c: pd.Series([Q_(v / UNITS[c][j][1], UNITS[c][j][0]) for v, j in ((v, k % 2) for k, v in enumerate(t[c]))], i) for c in sub}
    yield "objmixed", mix
    yield "objmixedlist", list(mix.values())[::-1]
    yield "objlist", list(ob.values())
    yield "dfobj", pd.DataFrame(ob)
    if all(float(v).is_integer() for c in sub for v in t[c]):
        yield "int", {c: pd.Series([int(v) for v in t[c]], i) for c in sub}
        yield "intdf", pd.DataFrame({c: [int(v) for v in t[c]] for c in sub}, i)
        yield "intpint", {c: pd.Series([int(v) for v in t[c]], i).astype(f"pint[{U[c]}]") for c in sub}
        for dt in ("int32", "float32", "Int64", "Float64"):
            if dt != "float32" or all(abs(v) < 2**24 for c in sub for v in t[c]):  # exact
                yield dt, {c: pd.Series(t[c], i).astype(dt) for c in sub}
                yield f"{dt} pint", {c: pd.Series(t[c], i).astype(dt).astype(f"pint[{U[c]}]") for c in sub}
    yield "named", {c: fl[c].rename("foo") for c in sub}
    yield "float32", {c: fl[c].astype("float32").astype(float) for c in sub}
    yield "tuplekeys", {(c, "foo"): fl[c] for c in sub}
    if len(sub) == 1:
        yield "series", pt[sub[0]]
        yield "seriesalt", alt[sub[0]]
        yield "seriesobj", ob[sub[0]]
        yield "seriesnamed", pt[sub[0]].rename("xyz")


def run(group, rec, tier):
    import portfolyo as pf

    ixm = mkix(INDICES[group["i"]])
    i = ixm.real()
    if group["t"] == "flat":
        from .c01 import SUBSETS, expected

        for sub in SUBSETS[group["sub"] :: 3]:
            for pat in ("plain", "neg", "const"):
                if ixm.n > 30 and pat == "neg":
                    continue
                t = truth(ixm, "plain" if pat == "const" else pat)
                if pat == "const":
                    # constant for all timestamps: numbers next to a series
                    if len(sub) < 2 or (len(set(ixm.dur)) > 1 and {"w", "q"} & set(sub) and not len(sub) == 2):
                        continue
                    m, data = const_case(sub, t, ixm, i)
                    items = data
                else:
                    m = expected(sub, t, ixm)
                    items = reps(sub, t, i, tier)
                for name, data in items:
                    with rec.case(sub="".join(sub), pat=pat, rep=name):
                        pfl = pf.PfLine(data)
                        rec.step()
                        pfm.compare(pfl, m if pat != "const" else m[name])
                        rec.outcome(name.split()[0])
                        rec.state(name, (m if pat != "const" else m[name]).key() if ixm.n < 60 else ["".join(sub), ixm.key()])
                        if pat == "plain" and (tier == "thorough" or name in (f"dict {''.join(sub)}", "obj")):
                            again(pf, rec, pfl, m)
    elif group["t"] == "nested":
        run_nested(group, rec, tier, ixm)
    else:
        run_bad(group, rec, ixm, i)


def again(pf, rec, pfl, m):
    """representations obtained from an existing portfolio line"""
    reps = {
        "self": lambda: pfl,
        "df": lambda: pfl.df,
        "dataframe()": lambda: pfl.dataframe(),
        "items": lambda: {c: getattr(pfl, c) for c in pfm.COLS[m.kind]},
        "list": lambda: [getattr(pfl, c) for c in pfm.COLS[m.kind] if c != "w"],
    }
    for n, f in reps.items():
        x = pf.PfLine(f())
        rec.step()
        pfm.compare(x, m, f"via {n}")
        if not (x == pfl and pfl == x):
            raise Mismatch(f"via {n}: not equal")
    x = pf.create.flatpfline(pfl)
    pfm.compare(x, m, "flatpfline")
    rec.raises(lambda: pf.create.nestedpfline(pfl), "nested from flat")


def const_case(sub, t, ixm, i):
    """first dimension a series, the second one number or quantity"""
    import portfolyo as pf

    out, models = [], {}
    if len(sub) != 2:
        return models, out
    for a, b in (sub, sub[::-1]):
        if {a, b} == {"w", "q"}:
            continue
        for form in ("float", "int", "npint", "npfloat", "Q", "Qalt"):
            k = 6.0
            tt = {a: t[a], b: [k] * ixm.n}
            q = tt.get("q") or ([w * d for w, d in zip(tt["w"], ixm.dur)] if "w" in tt else None)
            p, r = tt.get("p"), tt.get("r")
            if q is None:
                q = [x / y for x, y in zip(r, p)]
            if r is None:
                r = [x * y for x, y in zip(q, p)]
            name = f"{a} series, {b} {form}"
            models[name] = pfm.MP("all", ixm, {"q": q, "r": r})
            val = {"float": k, "int": int(k), "npint": np.int64(k), "npfloat": np.float32(k), "Q": pf.Q_(k, UNITS[b][0][0]), "Qalt": pf.Q_(k / UNITS[b][1][1], UNITS[b][1][0])}[form]
            out.append((name, {a: ser(t[a], i), b: val}))
            if form.startswith("Q"):
                name2 = name + " list"
                models[name2] = models[name]
                out.append((name2, [ser(t[a], i, UNITS[a][0][0]), val]))
    return models, out


def run_nested(group, rec, tier, ixm):
    import portfolyo as pf
    from .c03 import daysix
    from .. import cal
    import datetime as dt

    tz, freq, sod, start, n = INDICES[group["i"]]
    d = dt.date.fromisoformat(start)

    def win(a, b):
        if freq in cal.FIXED:
            return daysix(tz, freq, sod, d + dt.timedelta(days=a), b - a)
        return pfm.ix(tz, freq, sod, cal.add_date(d, freq, a).isoformat(), b - a)

    # representations of children
    def child_reps(m):
        i = m.ix.real()
        cols = {c: ser(v, i) for c, v in m.data.items()}
        U = real.UNIT
        pcols = {c: ser(v, i, U[c]) for c, v in m.data.items()}
        yield "pfl", pf.PfLine(cols)
        yield "dict", cols
        yield "df", pd.DataFrame(cols)
        yield "list", list(pcols.values())
        if len(cols) == 1:
            yield "series", next(iter(pcols.values()))

    for kind in [group["kind"]]:
        for (a1, b1), (a2, b2) in itertools.product([(0, 3)], [(0, 3), (1, 4), (-1, 2), (1, 2), (-1, 4), (3, 5), (-2, 0)]):
            m1, m2 = pfm.make(kind, win(a1, b1), 1), pfm.make(kind, win(a2, b2), 2)
            com = pfm.common_starts(m1, m2)
            exp = pfm.nest({"a": m1.restrict(com), "b": m2.restrict(com)}) if com else None
            for (r1, c1), (r2, c2) in itertools.product(child_reps(m1), child_reps(m2)):
                for order in ("ab", "ba"):
                    if order == "ba" and tier != "thorough" and r1 != r2:
                        continue
                    with rec.case(kind=kind, w2=[a2, b2], r1=r1, r2=r2, order=order):
                        data = {"a": c1, "b": c2} if order == "ab" else {"b": c2, "a": c1}
                        if exp is None:
                            rec.raises(lambda: pf.PfLine(data), "children without overlap")
                            continue
                        pfl = pf.PfLine(data)
                        rec.step()
                        pfm.compare(pfl, exp)
                        rec.state(exp.key(), r1, r2)
                        if r1 == r2 == "pfl":
                            for nm, x in (("self", pf.PfLine(pfl)), ("nestedpfline", pf.create.nestedpfline(pfl)), ("create", pf.create.nestedpfline(data)), ("children", pf.PfLine(dict(pfl.items())))):
                                rec.step()
                                pfm.compare(x, exp, nm)
                            pfm.compare(pf.create.flatpfline(pfl), exp.flat(), "flatpfline")
                            # one level deeper, next to a flat child
                            deep = pf.PfLine({"x": pfl, "y": c1})
                            pfm.compare(deep, pfm.nest({"x": exp, "y": m1.restrict(com)}), "deep")
            # multi-level dataframe
            if com and len(com) == m1.ix.n == m2.ix.n:
                with rec.case(kind=kind, rep="multilevel"):
                    i = m1.ix.real()
                    for unit in (False, True):
                        df = pd.DataFrame({(nm, c): ser(v, i, real.UNIT[c] if unit else None) for nm, m in (("a", m1), ("b", m2)) for c, v in m.data.items()})
                        pfl = pf.PfLine(df)
                        rec.step()
                        pfm.compare(pfl, exp, "multilevel")
                        pfm.compare(pf.create.nestedpfline(df), exp, "multilevel nestedpfline")
                    if kind != "all":
                        c = pfm.BASE[kind][0]
                        df = pd.DataFrame({"a": ser(m1.data[c], i, real.UNIT[c]), "b": ser(m2.data[c], i, real.UNIT[c])})
                        pfm.compare(pf.PfLine(df), exp, "df of series")
                        rec.step()
        # rejected children
        f = pf.PfLine({c: ser(v, m1.ix.real()) for c, v in m1.data.items()})
        for bad in ("w", "q", "p", "r"):
            with rec.case(kind=kind, bad=bad):
                rec.raises(lambda: pf.PfLine({bad: f}), "reserved name")
                rec.raises(lambda: pf.PfLine({"a": f, bad: f}), "reserved name")
        for bad in (1, None, 2.5, ("x", "y")):
            with rec.case(kind=kind, bad=str(bad)):
                rec.raises(lambda: pf.PfLine({bad: f}), "non-string name")
                rec.raises(lambda: pf.PfLine({"a": f, bad: f}), "non-string name")
        for k2 in pfm.KINDS:
            if k2 != kind:
                with rec.case(kind=kind, k2=k2):
                    g = pfm.build(pfm.make(k2, m1.ix, 2))
                    rec.raises(lambda: pf.PfLine({"a": f, "b": g}), "children of different kinds")
        for other in INDICES:
            o = mkix(other)
            if o.compatible(m1.ix):
                continue
            with rec.case(kind=kind, other=other):
                g = pfm.build(pfm.make(kind, o, 2))
                rec.raises(lambda: pf.PfLine({"a": f, "b": g}), "children with incompatible index")


def run_bad(group, rec, ixm, i):
    import portfolyo as pf

    n = ixm.n
    vals = [1.0 + k for k in range(n)]

    def variants():
        if n >= 3:
            for k in range(1, n - 1):
                keep = [j for j in range(n) if j != k]
                yield f"gap {k}", i[keep]
        yield "no freq", pd.DatetimeIndex(list(i))
        yield "reversed", i[::-1]
        if n > 1:
            yield "duplicate", i[[0, *range(n)]]
            yield "repeated index", i[[k for k in range(n) for _ in (0, 1)]]
        yield "range index", pd.RangeIndex(n)
        yield "strings", pd.Index([str(t) for t in i])
        yield "empty", i[:0]
        yield "right-shifted minutes", i.shift(1, "5min") if ixm.freq == "15min" else i.shift(7, "min")
        if ixm.freq in ("h", "15min"):
            yield "partial day end", i[:-1]
            yield "partial day start", i[1:]
        if ixm.freq in ("D", "MS", "QS", "YS"):
            yield "30 min offset", pd.date_range(i[0], periods=n, freq=ixm.freq) + pd.Timedelta(minutes=30) if ixm.tz is None else i.shift(30, "min")

    for name, j in variants():
        for c in "wqpr":
            for form in ("dict", "pint", "df"):
                with rec.case(bad=name, c=c, form=form):
                    def mk():
                        s = pd.Series([1.0 + k for k in range(len(j))], j)
                        if form == "dict":
                            return {c: s}
                        if form == "pint":
                            return s.astype(f"pint[{real.UNIT[c]}]")
                        return pd.DataFrame({c: s})

                    rec.raises(lambda: pf.PfLine(mk()), f"non-standard index: {name}")
                    rec.state("bad", name, c, form, ixm.key())
    # non-allowed frequencies
    for f in ("2D", "30min", "W", "ME", "2h", "B", "SMS", "5min", "QE", "YE"):
        with rec.case(badfreq=f):
            j = pd.date_range("2020-01-05", periods=48, freq=f, tz=ixm.tz)
            rec.raises(lambda: pf.PfLine({"w": pd.Series([1.0] * len(j), j)}), f"frequency {f}")
    with rec.case(bad="two values"):
        s = pd.Series(vals, i)
        rec.raises(lambda: pf.PfLine([s.astype("pint[MW]"), s.astype("pint[MW]")]), "two values for one dimension")
        rec.raises(lambda: pf.PfLine({("w", "x"): s, ("x", "w"): s}), "two values for one dimension")
