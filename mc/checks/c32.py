"""C32: units only scale a value; they never change the quantity that is meant."""

import itertools

import numpy as np
import pandas as pd
import pint

from ..engine import Mismatch

PROP = "C32"
TECHNIQUE = "exhaustive enumeration of all units (definitions x spellings x prefixes) and their products, quotients and powers, x all kinds of container x value patterns, on the real functions against an independent table of dimensions and factors"
EXPLANATION = (
    "An independent table gives dimension (energy, time, currency, emission, temperature) and factor of every unit.  Every unit, and every product and"
    " quotient of two (thorough: three) of them, must be identified by dimension (w, q, p, r, duration, t, nodim) and by dimension only; the default unit"
    " conversion must give the value of the table for scalars, integer and float series with unit, series of quantities (also of several units and dimensions) and frames,"
    " must be idempotent and must leave its argument unchanged; converting between any two units of the same dimension must give the ratio of the factors, and between"
    " different dimensions must fail.  The comparison functions must accept every pair of equal values in whatever units, and no pair that differs in value, dimension, index or columns."
)
ASSUMPTIONS = [
    "series that mix dimensionless quantities with others are not explored",
    "a dimensionless result may be a number or a dimensionless quantity",
    "the comparison functions use the default tolerance; the compared values differ by at least 0.1%, or not at all; infinite values are not compared",
]

PRE = {"": 1.0, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "kilo": 1e3, "mega": 1e6, "giga": 1e9, "terra": 1e12}
# dimension: energy, time, currency, emission, temperature; energy in MWh, time in h, currency in Eur.
E, T, C, CO, TE = np.eye(5, dtype=int)
DIMS = {
    "E": E, "T": T, "C": C, "CO": CO, "TE": TE, "W": E - T, "P": C - E, "0": 0 * E,
}
NAMES = {"w": "W", "q": "E", "p": "P", "r": "C", "duration": "T", "t": "TE", "nodim": "0"}
DEFAULT = {"w": "MW", "q": "MWh", "p": "Eur/MWh", "r": "Eur", "duration": "h", "t": "degC"}


def table():
    """-> {unit: (dimension tuple, factor to default unit)}"""
    out = {}

    def add(name, d, f):
        out[name] = (tuple(int(x) for x in DIMS[d]), f)

    for p, f in PRE.items():
        for n in ("Wh", "watthour"):
            add(p + n, "E", f * 1e-6)
        for n in ("W", "watt"):
            add(p + n, "W", f * 1e-6)
        for n in ("J", "joule"):
            add(p + n, "E", f * 1e-6 / 3600)
        for n in ("Eur", "euro"):
            add(p + n, "C", f)
    for n in ("toe", "tonne_oil_equiv"):
        add(n, "E", 11.63)
    for n in ("tce", "tonne_coal_equiv"):
        add(n, "E", 6.978)
    for n in ("€",):
        add(n, "C", 1.0)
    for n in ("cent", "ct", "eurocent", "cEur", "ctEur", "c€", "ct€"):
        add(n, "C", 0.01)
    for n in ("h", "hr", "hour"):
        add(n, "T", 1.0)
    for n in ("min", "minute"):
        add(n, "T", 1 / 60)
    for n in ("s", "sec", "second"):
        add(n, "T", 1 / 3600)
    for n in ("tCO2", "tonne_co2"):
        add(n, "CO", 1.0)
    add("degC", "TE", 1.0)
    add("euro_per_MWh", "P", 1.0)
    add("cent_per_kWh", "P", 10.0)
    add("dimensionless", "0", 1.0)
    add("fraction", "0", 1.0)
    # case does not matter
    for n in ("MWH", "KWH", "eur", "EUR", "MEUR", "CENT", "HOUR"):
        k = next(k for k in out if k.lower() == n.lower())
        out[n] = out[k]
    return out


UNITS = table()
SMALL = ["MW", "kW", "MWh", "kWh", "GWh", "J", "GJ", "toe", "Eur", "cent", "kEur", "h", "min", "s", "tCO2", "euro_per_MWh", "cent_per_kWh", "fraction", "degC"]
TINY = ["kW", "MWh", "GJ", "cent", "Eur", "min", "h", "cent_per_kWh", "tCO2"]
VALS = [[6.0, 12.5, -3.0], [0.0, np.nan, 1e9], [1, 2, 3], [-7, 0, 40]]


def compounds(k):
    """All products and quotients of k units."""
    pool = SMALL if k == 2 else TINY
    for combi in itertools.product(pool, repeat=k):
        for signs in itertools.product((1, -1), repeat=k - 1):
            s, d, f = combi[0], np.array(UNITS[combi[0]][0]), UNITS[combi[0]][1]
            for u, sg in zip(combi[1:], signs):
                s += ("*" if sg > 0 else "/") + u
                d = d + sg * np.array(UNITS[u][0])
                f = f * UNITS[u][1] ** sg
            yield s, tuple(int(x) for x in d), f
    if k == 2:
        for u in pool:
            for e in (2, -1):
                d, f = UNITS[u]
                yield f"{u}**{e}", tuple(e * x for x in d), f**e


def groups(tier):
    out = [{"part": "unit", "i": i} for i in range(4)]
    out += [{"part": "pair", "i": i} for i in range(16)]
    if tier == "thorough":
        out += [{"part": "triple", "i": i} for i in range(32)]
    out += [{"part": "convert", "u": u} for u in SMALL]
    out += [{"part": "mixed", "n": n} for n in (1, 2, 3)]
    out += [{"part": "equal", "u": u} for u in SMALL]
    out += [{"part": "other"}]
    out += [{"part": "consistent"}]
    return out


def name_of(d):
    for n, k in NAMES.items():
        if tuple(int(x) for x in DIMS[k]) == d:
            return n
    return None


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=1e-9, atol=1e-300) | (np.isnan(a) & np.isnan(b))))


def dimof(unit):
    """Dimension tuple of pint unit."""
    d = dict(unit.dimensionality)
    t = (d.pop("[energy]", 0), d.pop("[time]", 0), d.pop("[currency]", 0), d.pop("[emisisons]", 0), d.pop("[temperature]", 0))
    return None if d else tuple(t)


def check_magn(got_m, got_u, exp_m, d, U, what):
    """Magnitude and unit must describe the expected value, in default unit."""
    name = name_of(d)
    if got_u is None or got_u == U.ureg.dimensionless or name == "nodim":
        if name != "nodim":
            raise Mismatch(f"{what}: unit lost ({got_u})")
        if got_u is not None and got_u.dimensionality != U.ureg.dimensionless.dimensionality:
            raise Mismatch(f"{what}: dimensionless value got unit {got_u}")
    elif name is not None and not close(U.Q_(1.0, got_u).to(DEFAULT[name]).magnitude, 1.0):
        raise Mismatch(f"{what}: in {got_u}, not {DEFAULT[name]}")
    elif name is None and dimof(got_u) is not None and dimof(got_u) != d:
        raise Mismatch(f"{what}: other dimension: {got_u}")
    if not close(got_m, exp_m):
        raise Mismatch(f"{what}: {got_m} {got_u}, expected {exp_m}")


def check_unit(U, rec, s, d, f):
    ureg, Q = U.ureg, U.Q_
    unit = ureg.Unit(s)
    name = name_of(d)
    with rec.case(unit=s):
        if name is None:
            rec.raises(lambda: U.to_name(unit), f"name of {s}", pint.UndefinedUnitError)
        else:
            if (n := U.to_name(unit)) != name:
                raise Mismatch(f"{s} is {n}, not {name}")
            if U.to_name(U.from_name(name)) != name:
                raise Mismatch(f"name of default unit of {name}")
        rec.step()
        for vals in VALS:
            exp = np.array(vals, float) * f
            # scalar
            q = Q(vals[0], s)
            before = (q.magnitude, q.units)
            m, u = U.split_magn_unit(q)
            check_magn(m, u, exp[0], d, U, f"split of {q}")
            dq = U.defaultunit(q)
            m, u = (dq.magnitude, dq.units) if isinstance(dq, pint.Quantity) else (dq, None)
            check_magn(m, u, exp[0], d, U, f"default of {q}")
            if (q.magnitude, q.units) != before:
                raise Mismatch(f"argument {before} changed to {q}")
            if isinstance(dq, pint.Quantity):
                again = U.defaultunit(dq)
                ma = again.magnitude if isinstance(again, pint.Quantity) else again
                if not close(ma, m):
                    raise Mismatch(f"default of {q} not idempotent: {dq} and {again}")
            rec.step(4)
            # series
            i = pd.date_range("2024", periods=3, freq="MS")
            plain = pd.Series(vals, i)
            pser = plain.astype(f"pint[{s}]") if s != "dimensionless" else plain.astype("pint[dimensionless]")
            oser = pd.Series([Q(v, s) for v in vals], i)
            for kind, ser in (("pint", pser), ("object", oser)):
                if name == "nodim" and kind == "object" and s in ("dimensionless",):
                    continue
                keep = ser.copy()
                m, u = U.split_magn_unit(ser)
                check_magn(m, u if not isinstance(u, pd.Series) else u.iloc[0], exp, d, U, f"split of {kind} series in {s}")
                dser = U.defaultunit(ser)
                if not dser.index.equals(i):
                    raise Mismatch("index changed")
                if isinstance(dser.dtype, np.dtype):
                    m, u = dser.values, None
                else:
                    m, u = dser.pint.magnitude, dser.pint.units
                check_magn(m, u, exp, d, U, f"default of {kind} series in {s}")
                d2 = U.defaultunit(dser)
                m2 = d2.values if isinstance(d2.dtype, np.dtype) else d2.pint.magnitude
                if not close(m2, m):
                    raise Mismatch(f"default of {kind} series in {s} not idempotent")
                if ser.dtype != keep.dtype or [str(x) for x in ser] != [str(x) for x in keep]:
                    raise Mismatch(f"argument ({kind} series) changed")
                a = U.avoid_frame_of_objects(ser)
                if a.dtype == object or not a.index.equals(i):
                    raise Mismatch("still a series of objects")
                m = a.values if isinstance(a.dtype, np.dtype) else a.pint.to_base_units().pint.magnitude
                if not close(m, exp):
                    raise Mismatch(f"{kind} series in {s} without objects: {list(m)}, expected {list(exp)}")
                rec.step(4)
            # frame
            fr = pd.DataFrame({"a": pser, "b": plain, "c": oser if name != "nodim" else pser})
            for what, res in (("default", U.defaultunit(fr)), ("avoid", U.avoid_frame_of_objects(fr))):
                if list(res.columns) != ["a", "b", "c"] or not res.index.equals(i):
                    raise Mismatch(f"{what} of frame: labels {list(res.columns)}")
                for c in res.columns:
                    x = res[c]
                    m = x.values if isinstance(x.dtype, np.dtype) else x.pint.to_base_units().pint.magnitude
                    if not close(m, np.array(vals, float) if c == "b" else exp):
                        raise Mismatch(f"{what} of frame: column {c} {list(m)}")
            rec.step(2)
            rec.state(s, vals, list(np.round(exp, 9)))


def run_convert(U, rec, a):
    Q = U.Q_
    da, fa = UNITS[a]
    for b, (db, fb) in UNITS.items():
        with rec.case(a=a, b=b):
            if da != db:
                rec.raises(lambda: Q(5.0, a).to(b), f"{a} to {b}", pint.DimensionalityError)
                rec.raises(lambda: Q(5.0, a) + Q(1.0, b), f"{a} plus {b}", pint.DimensionalityError)
                rec.raises(lambda: pd.Series([1.0, 2.0], dtype=f"pint[{a}]").pint.to(b), f"{a} series to {b}", pint.DimensionalityError)
                rec.raises(lambda: U.avoid_frame_of_objects(pd.Series([Q(1.0, a), Q(2.0, b)])), f"series of {a} and {b}", pint.DimensionalityError)
                rec.state(a, b)
                continue
            if not close(Q(5.0, a).to(b).magnitude, 5 * fa / fb):
                raise Mismatch(f"5 {a} = {Q(5.0, a).to(b)}")
            if a != "degC" and not close((Q(5.0, a) + Q(2.0, b)).to(b).magnitude, 5 * fa / fb + 2):
                raise Mismatch(f"5 {a} + 2 {b} = {(Q(5.0, a) + Q(2.0, b))}")
            ser = pd.Series([5.0, -2.0], dtype=f"pint[{a}]").pint.to(b)
            if not close(ser.pint.magnitude, np.array([5.0, -2.0]) * fa / fb):
                raise Mismatch(f"series: {ser}")
            ser = U.avoid_frame_of_objects(pd.Series([Q(1.0, a), Q(2.0, b)]))
            if not close(ser.pint.to_base_units().pint.magnitude, [fa, 2 * fb]):
                raise Mismatch(f"series of {a} and {b}: {ser}")
            ser = U.defaultunit(pd.Series([Q(1.0, a), Q(2.0, b)]))
            m = ser.values if isinstance(ser.dtype, np.dtype) and ser.dtype != object else ser.pint.magnitude if hasattr(ser, "pint") and ser.dtype != object else [getattr(x, "magnitude", x) for x in ser]
            if not close(m, [fa, 2 * fb]):
                raise Mismatch(f"default of series of {a} and {b}: {ser}")
            rec.step(5)
            rec.state(a, b, round(fa / fb, 9))


def run_mixed(U, rec, n):
    """Series of quantities in several units and dimensions."""
    Q = U.Q_
    pool = ["kW", "MWh", "GJ", "cent", "Eur/MWh", "min", "tCO2", "degC"]
    info = {u: UNITS[u] for u in pool if u in UNITS} | {"Eur/MWh": (tuple(int(x) for x in DIMS["P"]), 1.0)}
    for combi in itertools.product(pool, repeat=n):
        with rec.case(units=combi):
            vals = [3.0, -4.0, 0.5][:n]
            ser = pd.Series([Q(v, u) for v, u in zip(vals, combi)], list("xyz")[:n])
            keep = [str(x) for x in ser]
            m, us = U.split_magn_unit(ser)
            res = U.defaultunit(ser)
            if list(res.index) != list(ser.index) or list(m.index) != list(ser.index):
                raise Mismatch("labels changed")
            for j, (v, u) in enumerate(zip(vals, combi)):
                d, f = info[u]
                one = us.iloc[j] if isinstance(us, pd.Series) else us
                check_magn(m.iloc[j], one, v * f, d, U, f"split of series with {combi}, item {j}")
                q = res.iloc[j]
                check_magn(q.magnitude, q.units, v * f, d, U, f"default of series with {combi}, item {j}")
            if [str(x) for x in ser] != keep:
                raise Mismatch("argument changed")
            dims = {info[u][0] for u in combi}
            if len(dims) > 1:
                rec.raises(lambda: U.avoid_frame_of_objects(ser), f"series with {combi}", pint.DimensionalityError)
            else:
                U.avoid_frame_of_objects(ser)
            rec.step(3)
            rec.state(combi)


def run_equal(U, t, rec, a):
    Q = U.Q_
    da, fa = UNITS[a]
    i = pd.date_range("2024", periods=3, freq="MS")

    def ser(unit, vals, idx=i, obj=False):
        return pd.Series([Q(v, unit) for v in vals], idx) if obj else pd.Series(vals, idx, dtype=f"pint[{unit}]")

    def verdict(fn, ok, what):
        try:
            fn()
        except AssertionError:
            if ok:
                raise Mismatch(f"{what}: rejected")
        else:
            if not ok:
                raise Mismatch(f"{what}: accepted")
        rec.step()

    for b, (db, fb) in UNITS.items():
        vals = [6.0 / fa, -12.5 / fa, np.nan]  # not small in default unit (absolute tolerance)
        oth = [v * fa / fb for v in vals]
        same = da == db
        with rec.case(a=a, b=b):
            for obj in (False, True) if name_of(da) != "nodim" and name_of(db) != "nodim" else (False,):
                left = ser(a, vals)
                verdict(lambda: t.assert_series_equal(left, ser(b, oth, obj=obj)), same, f"{a} and {b} (objects: {obj})")
                verdict(lambda: t.assert_series_equal(ser(b, oth, obj=obj), left), same, f"{b} and {a} (objects: {obj})")
                for j in (0, 1):
                    bad = list(oth)
                    bad[j] *= 1.001
                    verdict(lambda: t.assert_series_equal(left, ser(b, bad, obj=obj)), False, f"{a} and {b}, value {j} different")
                bad = [oth[0], oth[1], 1.0]
                verdict(lambda: t.assert_series_equal(left, ser(b, bad, obj=obj)), False, f"{a} and {b}, missing value")
                verdict(lambda: t.assert_series_equal(left, ser(b, oth, i + pd.DateOffset(months=1), obj)), False, f"{a} and {b}, other index")
                verdict(lambda: t.assert_series_equal(left, ser(b, oth[:2], i[:2], obj)), False, f"{a} and {b}, shorter")
            # frames
            l = pd.DataFrame({"x": ser(a, vals), "y": [1.0, 2.0, 3.0]}, i)
            r = pd.DataFrame({"y": [1.0, 2.0, 3.0], "x": ser(b, oth)}, i)
            verdict(lambda: t.assert_frame_equal(l, r), same, f"frames in {a} and {b}")
            verdict(lambda: t.assert_frame_equal(l, r.rename(columns={"x": "z"})), False, "frames with other column")
            verdict(lambda: t.assert_frame_equal(l, r[["x"]]), False, "frame with missing column")
            verdict(lambda: t.assert_frame_equal(l[["y"]], r), False, "frame with additional column")
            r2 = r.assign(y=[1.0, 2.002, 3.0])
            verdict(lambda: t.assert_frame_equal(l, r2), False, "frames with other value")
            # values
            if same and a != "degC":
                verdict(lambda: t.assert_value_equal(Q(vals[0], a), Q(oth[0], b)), True, f"values in {a} and {b}")
                verdict(lambda: t.assert_value_equal(Q(vals[0], a), Q(oth[0] * 1.001, b)), False, f"different values in {a} and {b}")
            elif not same:
                verdict(lambda: t.assert_value_equal(Q(vals[0], a), Q(oth[0], b)), False, f"values in {a} and {b}")
            rec.state(a, b)


def run_other(U, rec):
    i = pd.date_range("2024", periods=3, freq="MS")
    for v in (3, 3.5, -2, 0, float("nan")):
        with rec.case(value=repr(v)):
            got = U.defaultunit(v)
            m, u = U.split_magn_unit(v)
            if not isinstance(got, float) or not close(got, v) or not close(m, v) or u is not None:
                raise Mismatch(f"{v}: {got}, {m}, {u}")
            rec.step(2)
            rec.state(repr(v))
    for vals in ([1, 2, 3], [1.5, np.nan, -2.0], [True, False, True]):
        with rec.case(series=vals):
            s = pd.Series(vals, i)
            got = U.defaultunit(s)
            m, u = U.split_magn_unit(s)
            if u is not None or not close(got.values, vals) or not close(m.values, vals) or not got.index.equals(i):
                raise Mismatch(f"{vals}: {got}")
            if not isinstance(vals[0], bool):
                if got.dtype != float or U.avoid_frame_of_objects(s).dtype != float or not close(U.avoid_frame_of_objects(s), vals):
                    raise Mismatch(f"{vals}: not floats")
            rec.step(3)
            rec.state(vals)
    for bad in ("a", None, [1.0], {"a": 1}):
        with rec.case(bad=repr(bad)):
            rec.raises(lambda: U.defaultunit(bad), f"default of {bad!r}", TypeError)
            rec.state(repr(bad))
    with rec.case(bad="strings"):
        rec.raises(lambda: U.avoid_frame_of_objects(pd.Series(["a", "b", "c"], i)), "series of strings")
        rec.raises(lambda: U.split_magn_unit(pd.DataFrame({"a": [1.0]})), "split of frame", TypeError)
    for n in ("", "x", "W", "Q", "wq", "price"):
        with rec.case(name=n):
            rec.raises(lambda: U.from_name(n), f"unit of {n!r}", ValueError)
            rec.state(n)
    for n, s in DEFAULT.items():
        with rec.case(name=n):
            if U.Q_(1.0, U.from_name(n)).to(s).magnitude != 1.0 and not close(U.Q_(1.0, U.from_name(n)).to(s).magnitude, 1.0):
                raise Mismatch(f"unit of {n}: {U.from_name(n)}")
            rec.state(n, s)


def run_consistent(U, t, rec):
    """comparison of missing values; of power and energy; and of price, energy and revenue"""

    def verdict(fn, want, what):
        try:
            fn()
            got = True
        except AssertionError:
            got = False
        rec.step()
        if got != want:
            raise Mismatch(f"{what}: {'accepted' if got else 'rejected'}")

    nan = float("nan")
    for u in [None, *SMALL]:
        q = (lambda v: v) if u is None else (lambda v: U.Q_(v, u))
        for a, b in itertools.product((nan, 0.0, 1.0, -1.0, 1.0 + 1e-12), repeat=2):
            with rec.case(u=u, a=str(a), b=str(b)):
                verdict(lambda: t.assert_value_equal(q(a), q(b)), a != a and b != b or abs(a - b) < 1e-6, f"{q(a)} and {q(b)}")
                rec.state("value", u, str(a), str(b))
    hours = {
        "15min": ([0.25], [0.24, 0.26, 1.0]),
        "h": ([1.0], [0.99, 1.01, 0.25]),
        "D": ([23.0, 24.0, 25.0], [22.0, 26.0, 1.0]),
        "MS": ([24.0 * d + e for d in (28, 29, 30, 31) for e in (-1, 0, 1)], [24.0 * d for d in (26, 33, 1, 90)]),
        "QS": ([24.0 * d + e for d in (90, 91, 92) for e in (-1, 0, 1)], [24.0 * d for d in (88, 94, 31)]),
        "YS": ([8760.0, 8784.0], [8759.0, 8785.0, 744.0]),
    }
    for freq, (good, bad) in hours.items():
        i = pd.date_range("2020-01-01", periods=3, freq=freq, tz="Europe/Berlin")
        for uw, fw in (("MW", 1.0), ("kW", 1000.0)):
            for uq, fq in (("MWh", 1.0), ("GWh", 0.001)):
                if freq in ("15min", "h") and (uw, uq) != ("MW", "MWh"):
                    continue
                for h in good + bad:
                    for pos in range(3):
                        with rec.case(freq=freq, uw=uw, uq=uq, h=h, pos=pos):
                            ws = [3.0, 0.5, 17.0]
                            hs = [good[(pos + j) % len(good)] for j in range(3)]
                            hs[pos] = h
                            w = pd.Series([v * fw for v in ws], i).astype(f"pint[{uw}]")
                            q = pd.Series([v * x * fq for v, x in zip(ws, hs)], i).astype(f"pint[{uq}]")
                            verdict(lambda: t.assert_w_q_compatible(freq, w, q), h in good, f"{freq}: {h} hours")
                            rec.state("wq", freq, uw, uq, h, pos)
    i = pd.date_range("2020-01-01", periods=3, freq="D")
    ser = lambda vals, u: pd.Series(vals, i).astype(f"pint[{u}]")
    for vals in itertools.product((0.0, 2.0, -3.5), repeat=2):
        for pos, f in itertools.product(range(3), (1.0, 1.001, -1.0)):
            with rec.case(vals=vals, pos=pos, f=f):
                q, p = [*vals, 4.0], [7.0, *vals]
                r = [a * b for a, b in zip(q, p)]
                r[pos] *= f
                verdict(lambda: t.assert_p_q_r_compatible(ser(r, "Eur"), ser(p, "Eur/MWh"), ser(q, "MWh")), f == 1 or r[pos] == 0, f"{r} from {q} and {p}")
                rec.state("pqr", vals, pos, f)


def run(group, rec, tier):
    from portfolyo import testing as t
    from portfolyo.tools import unit as U

    part = group["part"]
    if part == "unit":
        for s, (d, f) in list(UNITS.items())[group["i"] :: 4]:
            check_unit(U, rec, s, d, f)
    elif part in ("pair", "triple"):
        k, n = (2, 16) if part == "pair" else (3, 32)
        for s, d, f in itertools.islice(compounds(k), group["i"], None, n):
            check_unit(U, rec, s, d, f)
    elif part == "convert":
        run_convert(U, rec, group["u"])
    elif part == "mixed":
        run_mixed(U, rec, group["n"])
    elif part == "equal":
        run_equal(U, t, rec, group["u"])
    elif part == "consistent":
        run_consistent(U, t, rec)
    else:
        run_other(U, rec)
