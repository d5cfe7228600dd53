"""C15: weighted averages."""

import itertools
import math

import pandas as pd

from .. import real
from ..engine import Mismatch

PROP = "C15"
TECHNIQUE = "exhaustive enumeration of all value and weight vectors over a finite alphabet x representation x unit on the real functions against the defining formula"
EXPLANATION = (
    "All value vectors (incl. missing, negative, zero, equal values) and all weight vectors (incl. zero, negative, summing to"
    " zero) up to length 3 (thorough: 4) x weights as list/tuple/dict/series/dataframe in any key order x integers/floats/units x size of weights"
    " x series and both dataframe axes; rows are also presented one by one and in blocks."
)
NAN = float("nan")
V = [10.0, 30.0, -20.0, 0.0, NAN]
W = [0.0, 1.0, -1.0, 2.0, 0.5]


def expected(vs, ws, series):
    if all(w == 0 for w in ws):
        if series:
            return NAN
        keep = list(vs)
    else:
        keep = [v for v, w in zip(vs, ws) if w != 0]
    if any(math.isnan(v) for v in keep):
        return NAN
    if sum(ws) == 0:
        return keep[0] if len(set(keep)) == 1 else NAN
    return sum(v * w for v, w in zip(vs, ws) if w != 0) / sum(ws)


def groups(tier):
    N = 4 if tier == "thorough" else 3
    out = [{"t": "series", "n": n, "w0": w} for n in range(1, N + 1) for w in range(len(W))]
    out += [{"t": "frame", "n": n, "axis": a, "k": k} for n in range(1, N + 1) for a in (0, 1) for k in range(4 if n > 2 else 1)]
    out += [{"t": "misc"}]
    out.sort(key=lambda g: -g.get("n", 0))
    return out


def weights_as(form, ws, keys, h=0):
    import portfolyo as pf

    if form != "int":  # common factor does not change the average
        ws = [w * (1.0, 2.0**-40, 2.0**40)[h % 3] for w in ws]
    if form == "list":
        return list(ws)
    if form == "tuple":
        return tuple(ws)
    if form == "Qlist":
        return [pf.Q_(w, "MWh") for w in ws]
    order = range(len(ws))
    if form.endswith("rev"):
        order = reversed(order)
        form = form[:-3]
    d = {keys[k]: ws[k] for k in order}
    if form == "dict":
        return d
    if form == "Qdict":
        return {k: pf.Q_(w, "MW") for k, w in d.items()}
    s = pd.Series(d)
    if form == "int":
        return s.astype(int)
    return s.astype("pint[kWh]") if form == "pint" else s


FORMS = ["list", "dict", "series", "pint", "Qlist", "dictrev", "seriesrev", "Qdict", "tuple", "pintrev", "int"]


def num(x, unit, what):
    """-> magnitude in unit"""
    import portfolyo as pf

    if isinstance(x, float) and math.isnan(x):
        return NAN
    if unit is None:
        if hasattr(x, "units"):
            raise Mismatch(f"{what}: unit {x.units}")
        return float(x)
    if not isinstance(x, pf.Q_):
        raise Mismatch(f"{what}: no unit: {x!r}")
    if str(x.units) != str(pf.Q_(1, unit).units):
        if not real.unit_is(str(x.units), unit):
            raise Mismatch(f"{what}: unit {x.units}, expected {unit}")
    return float(x.magnitude)


def keysets(n):
    yield list(range(n))
    yield list("abcd"[:n])
    yield list(pd.date_range("2020-01-01", periods=n, freq="D", tz="Europe/Berlin"))


def run(group, rec, tier):
    import portfolyo as pf
    from portfolyo import tools

    if group["t"] == "series":
        n = group["n"]
        for wi, wt in enumerate(itertools.product(W, repeat=n - 1)):
            ws = (W[group["w0"]], *wt)
            for vi, vs in enumerate(itertools.product(V, repeat=n)):
                exp = expected(vs, ws, True)
                h = wi * 7 + vi
                fs = FORMS if (tier == "thorough" and n < 4) or n == 1 else [FORMS[(h + 5 * j) % len(FORMS)] for j in range(2 if n < 3 else 1)]
                for form in fs:
                    if form == "int" and any(w != int(w) for w in ws):
                        form = "series"
                    unit = [None, "Eur/MWh", "GW"][(h // 2) % 3]
                    keys = list(keysets(n))[h % 3]
                    with rec.case(vs=[str(v) for v in vs], ws=ws, form=form, unit=unit, keys=h % 3):
                        s = pd.Series(vs, pd.Index(keys), dtype=f"pint[{unit}]" if unit else float)
                        before = [str(x) for x in real.mags(s)]
                        w = weights_as(form, ws, keys, h // 6)
                        fn = [lambda: tools.wavg.series(s, w), lambda: pf.wavg(s, w), lambda: s.wavg(w)][h % 3]
                        got = num(fn(), unit, "result")
                        rec.step()
                        if not real.close(got, exp):
                            raise Mismatch(f"{got} != {exp}")
                        if [str(x) for x in real.mags(s)] != before:
                            raise Mismatch("values were changed")
                        rec.outcome("nan" if math.isnan(exp) else "value")
                        rec.state(real.r12(exp), n, form)
    elif group["t"] == "frame":
        run_frame(group, rec, tier)
    else:
        run_misc(rec)


def mkdf(cols, index, unit):
    return pd.DataFrame({c: pd.Series(v, index, dtype=f"pint[{unit}]" if unit else float) for c, v in cols.items()}, index)


def cmp(res, keys, exps, unit, what):
    if not isinstance(res, pd.Series) or list(res.index) != list(keys):
        raise Mismatch(f"{what}: index {list(res.index)[:4]} != {list(keys)[:4]}")
    for k, e in zip(keys, exps):
        g = num(res.loc[k], unit, what)
        if not real.close(g, e):
            raise Mismatch(f"{what}: [{k}] {g} != {e}")


def run_frame(group, rec, tier):
    """every (values, weights) combination is one row (axis=1) or column (axis=0)"""
    import portfolyo as pf
    from portfolyo import tools

    n, axis = group["n"], group["axis"]
    names = list("abcd"[:n])
    vecs = list(itertools.product(V, repeat=n))
    wecs = list(itertools.product(W, repeat=n))
    K = 4 if n > 2 else 1
    # weights as one vector for all rows
    for wi, ws in enumerate(wecs):
        if wi % K != group["k"]:
            continue
        for unit, form in [([None, "Eur/MWh"][wi % 2], FORMS[wi % len(FORMS)])] if n > 2 else [(u, f) for u in (None, "Eur/MWh") for f in FORMS]:
            if form == "int" and any(w != int(w) for w in ws):
                form = "series"
            for lo, hi in [(0, len(vecs)), *[(j, j + 1) for j in range(wi % 5, len(vecs), 31 if n > 2 else 5)]]:
                rows = vecs[lo:hi]
                with rec.case(ws=ws, unit=unit, form=form, rows=[lo, hi]):
                    ix = pd.RangeIndex(len(rows))
                    if axis == 1:
                        df = mkdf({c: [r[j] for r in rows] for j, c in enumerate(names)}, ix, unit)
                    else:
                        if len(rows) > 40:
                            rows = rows[:: len(rows) // 40]
                            ix = pd.RangeIndex(len(rows))
                        df = mkdf({k: list(r) for k, r in enumerate(rows)}, pd.Index(names), unit)
                    w = weights_as(form, ws, names, wi // 11)
                    fn = [lambda: tools.wavg.dataframe(df, w, axis), lambda: pf.wavg(df, w, axis=axis), lambda: df.wavg(w, axis=axis)][wi % 3]
                    exps = [expected(r, ws, False) for r in rows]
                    cmp(fn(), ix, exps, unit, "vector weights")
                    rec.step(len(rows))
                    rec.state(ws, n, axis, [real.r12(e) for e in exps[:20]])
    # weights as dataframe
    combos = list(itertools.product(range(len(vecs)), range(len(wecs))))
    combos = combos[group["k"] :: K]
    if n >= 3 and tier != "thorough":
        combos = combos[::3]
    if n == 4:
        combos = combos[::40]
    size = 400 if axis == 1 else 40
    blocks = [combos[j : j + size] for j in range(0, len(combos), size)]
    blocks += [[c] for c in combos[:: 97 if n > 1 else 1]]
    blocks += [combos[j : j + 3] for j in range(0, len(combos), 211)]
    if axis == 0 and tier != "thorough":
        blocks = blocks[::3]
    for bi, block in enumerate(blocks):
        unit, wunit = [None, "Eur/MWh"][bi % 2], [None, "MWh"][(bi // 2) % 2]
        with rec.case(block=block[0], n=len(block), unit=unit, wunit=wunit):
            rows = [(vecs[a], wecs[b]) for a, b in block]
            ix = pd.RangeIndex(len(rows))
            if axis == 1:
                df = mkdf({c: [r[0][j] for r in rows] for j, c in enumerate(names)}, ix, unit)
                w = mkdf({c: [r[1][j] for r in rows] for j, c in list(enumerate(names))[:: -1 if bi % 3 == 1 else 1]}, ix, wunit)
            else:
                df = mkdf({k: list(r[0]) for k, r in enumerate(rows)}, pd.Index(names), unit)
                w = mkdf({k: list(r[1]) for k, r in enumerate(rows)}, pd.Index(names), wunit)
            exps = [expected(r[0], r[1], False) for r in rows]
            w = w * (1.0, 2.0**-40, 2.0**40)[bi // 4 % 3]
            res = tools.wavg.dataframe(df, w, axis) if bi % 2 else pf.wavg(df, w, axis=axis)
            cmp(res, ix, exps, unit, "dataframe weights")
            rec.step(len(rows))
            rec.state(n, axis, bi, [real.r12(e) for e in exps[:20]])


def run_misc(rec):
    import portfolyo as pf
    from portfolyo import tools

    for n in range(1, 5):
        for unit in (None, "Eur/MWh"):
            for keys in keysets(n):
                with rec.case(n=n, unit=unit, keys=str(keys)):
                    vs = [10.0 * (k + 1) ** 2 for k in range(n)]
                    s = pd.Series(vs, pd.Index(keys), dtype=f"pint[{unit}]" if unit else float)
                    # no weights: plain average
                    for r in (tools.wavg.series(s), pf.wavg(s), s.wavg()):
                        if not real.close(num(r, unit, "mean"), sum(vs) / n):
                            raise Mismatch(f"mean {r}")
                        rec.step()
                    df = pd.DataFrame({"a": s, "b": s * 3})
                    cmp(pf.wavg(df), ["a", "b"], [sum(vs) / n, 3 * sum(vs) / n], unit, "column means")
                    cmp(pf.wavg(df, axis=1), keys, [2 * v for v in vs], unit, "row means")
                    # fewer weights than values: only the values that have a weight
                    for m in range(1, n):
                        for form in ("dict", "series", "pint", "dictrev"):
                            ws = [float(k + 1) for k in range(m)]
                            got = num(pf.wavg(s, weights_as(form, ws, keys)), unit, "subset")
                            if not real.close(got, expected(vs[:m], ws, True)):
                                raise Mismatch(f"subset of weights {form}: {got}")
                            rec.step()
                    # more weights than values
                    more = [*keys, "zz"]
                    for form in ("dict", "series", "pint"):
                        rec.raises(lambda: pf.wavg(s, weights_as(form, [1.0] * (n + 1), more)), "more weights than values")
                        rec.raises(lambda: pf.wavg(df, weights_as(form, [1.0] * 3, ["a", "b", "c"]), axis=1), "more weights than columns")
                        rec.raises(lambda: pf.wavg(df, weights_as(form, [1.0] * (n + 1), more), axis=0), "more weights than rows")
                    for m in (n - 1, n + 1):
                        if m:
                            rec.raises(lambda: pf.wavg(s, [1.0] * m), "list of wrong length")
                    for m in (1, 3):
                        rec.raises(lambda: pf.wavg(df, [1.0] * m, axis=1), "list of wrong length")
                    rec.raises(lambda: pf.wavg(s, 3.0), "weights that are no vector")
                    rec.raises(lambda: pf.wavg([1, 2], [1.0, 2.0]), "values that are no series")
                    # integers
                    si = pd.Series([int(v) for v in vs], pd.Index(keys))
                    ws = [k + 1 for k in range(n)]
                    if not real.close(float(pf.wavg(si, ws)), expected(vs, ws, True)):
                        raise Mismatch("integers")
                    dfi = pd.DataFrame({"a": si, "b": si * 3})
                    cmp(pf.wavg(dfi, [3, 1], axis=1), keys, [v * 1.5 for v in vs], None, "integer frame")
                    cmp(pf.wavg(dfi, [1, -1], axis=1), keys, [NAN] * n, None, "integer frame")
                    rec.state(n, unit, str(keys))
    # columns with distinct but compatible units
    for axis in (0, 1):
        for wf in ("list", "series", "pint", "df"):
            with rec.case(units="mixed", axis=axis, wf=wf):
                i = pd.date_range("2020", periods=3, freq="D")
                df = pd.DataFrame({"a": pd.Series([10.0, 20, 30], i, dtype="pint[Eur/MWh]"), "b": pd.Series([5.0, 1, 2], i, dtype="pint[ctEur/kWh]")})
                rows = [[10.0, 50.0], [20.0, 10.0], [30.0, 20.0]]
                ws = [1.0, 3.0] if axis else [1.0, 0.0, 3.0]
                keys = list("ab") if axis else list(i)
                if wf == "df":
                    w = mkdf({"a": [1.0, 2, 0], "b": [3.0, 0, 0]}, i, None)
                    wr = [[1, 3], [2, 0], [0, 0]]
                else:
                    w = weights_as(wf, ws, keys)
                    wr = [[a] * 2 if not axis else ws for a in (ws if not axis else [0, 0, 0])]
                res = tools.wavg.dataframe(df, w, axis)
                rec.step()
                if axis:
                    exp = [expected(v, x, False) for v, x in zip(rows, wr)]
                    cmp(res, i, exp, "Eur/MWh", "mixed units")
                else:
                    exp = [expected([r[c] for r in rows], [x[c] for x in wr], False) for c in (0, 1)]
                    cmp(res, ["a", "b"], exp, "Eur/MWh", "mixed units")
                df2 = df.assign(b=pd.Series([1.0, 2, 3], i, dtype="pint[MW]"))
                if axis:
                    rec.raises(lambda: tools.wavg.dataframe(df2, w, axis), "columns with incompatible units")
