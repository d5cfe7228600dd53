"""C31: plots show the values of the portfolio line."""

import datetime as dt
import math

import numpy as np
import pandas as pd

from .. import cal, pfm, pfsm, real
from ..engine import Mismatch
from .c27 import shape

PROP = "C31"
TECHNIQUE = "exhaustive enumeration of all kinds x structures x frequencies x timezones x lengths x value patterns, plotted by the real code on a non-interactive canvas; every artist is read back and compared with the reference model"
EXPLANATION = (
    "Every portfolio line and state is plotted, with and without its children, and the resulting artists (bars, horizontal lines,"
    " areas, steps) are evaluated at the start, middle and end of every delivery period, and must have the value of the model's"
    " timeseries, with the name of the child as label, between the first and the last period boundary only, and inside the visible"
    " range of the axes.  Tick labels and data labels must belong to the period at which they are shown."
)
ASSUMPTIONS = ["volume is shown as energy if monthly or longer, else as power; values in MW, MWh, Eur/MWh, Eur"]
CONF = [
    ("Europe/Berlin", "MS", "00:00", "2020-02-01"),
    (None, "QS", "00:00", "2020-04-01"),
    ("Asia/Kolkata", "QS-FEB", "05:00", "2019-11-01"),
    ("UTC", "YS", "00:00", "2019-01-01"),
    ("Europe/Berlin", "YS-APR", "06:00", "2019-04-01"),
    ("Europe/Berlin", "D", "00:00", "2020-03-28"),
    ("America/New_York", "D", "06:00", "2020-10-31"),
    (None, "D", "00:00", "2020-02-28"),
    ("Europe/Berlin", "h", "00:00", "2020-03-29"),
    (None, "h", "06:00", "2020-10-25"),
    ("Europe/Berlin", "15min", "00:00", "2020-10-25"),
    ("America/New_York", "MS", "06:00", "2019-12-01"),
    ("Asia/Kolkata", "15min", "00:00", "2020-03-29"),
    ("Europe/Berlin", "QS-MAR", "00:00", "2020-03-01"),
]
SHAPES = ["flat", "one", "two", "deep"]
FACTORS = {"pos": 1.0, "neg": -2.5, "big": 1e5, "zero": 0.0}


def groups(tier):
    out = [{"part": "line", "c": c, "k": k, "s": s} for c in range(len(CONF)) for k in pfm.KINDS for s in SHAPES if tier == "thorough" or c < 11 or (c + len(k + s)) % 2]
    out += [{"part": "pfs", "c": c, "o": o} for c in range(len(CONF)) for o in range(3) if tier == "thorough" or c < 11]
    out += [{"part": "states", "c": c} for c in range(len(CONF))]
    out += [{"part": "axes"}]
    out += [{"part": "series", "c": c} for c in range(len(CONF)) if tier == "thorough" or c in (0, 2, 3, 5, 9, 10)]
    return out


def window(c, n):
    tz, freq, sod, start = CONF[c]
    if freq in ("h", "15min"):
        d = dt.date.fromisoformat(start)
        a, b = (cal.combine(t, sod, tz) for t in (d, d + dt.timedelta(days=1 if n < 5 else 2)))
        n = (b - a) // (3600 if freq == "h" else 900)
    return pfm.ix(tz, freq, sod, start, n)


# ---- reading artists


def num(s):
    return s / 86400  # days since 1970, as matplotlib


def value_in_polygon(paths, t):
    """-> values of lower and upper edge at time t"""
    ys = []
    for p in paths:
        v = p.vertices
        for (x0, y0), (x1, y1) in zip(v, np.vstack([v[1:], v[:1]])):
            if min(x0, x1) <= t <= max(x0, x1) and x0 != x1:
                ys.append(y0 + (y1 - y0) * (t - x0) / (x1 - x0))
    return (min(ys), max(ys)) if ys else None


def value_of_line(xs, ys, t):
    for k in range(len(xs) - 1):
        if xs[k] <= t <= xs[k + 1] and xs[k] < xs[k + 1]:
            return ys[k] + (ys[k + 1] - ys[k]) * (t - xs[k]) / (xs[k + 1] - xs[k])
    return None


def eq(a, b, scale):
    return real.close(float(a), float(b), rel=1e-6, abs_=1e-6 * max(1e-6, scale))


def artists(ax):
    """-> list of (label, function time -> value, x-range) or (label, {position: value})"""
    from matplotlib import cbook, collections

    out = []
    for cont in ax.containers:
        bars = {}
        for b in cont.patches:
            pos = b.get_x() + b.get_width() / 2
            if b.get_y() != 0 and not math.isnan(b.get_height()):
                raise Mismatch(f"bar starts at {b.get_y()}")
            bars[round(pos, 6)] = b.get_height(), b.get_width()
        out.append((cont.get_label(), "cat", bars))
    if len(ax.patches) != sum(len(c.patches) for c in ax.containers):
        raise Mismatch("unexpected patches")
    for line in ax.lines:
        x, y = np.asarray(line.get_xdata(orig=False), float), np.asarray(line.get_ydata(orig=False), float)
        x, y = cbook.STEP_LOOKUP_MAP[line.get_drawstyle()](x, y)
        out.append((line.get_label(), "time", (lambda t, x=x, y=y: value_of_line(x, y, t), min(x), max(x))))
    for col in ax.collections:
        if isinstance(col, collections.LineCollection):
            segs = {}
            for seg in col.get_segments():
                if not len(seg) or np.isnan(seg).any():  # value without price
                    continue
                (x0, y0), (x1, y1) = seg
                if not eq(y0, y1, 1) or not x0 < x1:
                    raise Mismatch(f"line {seg} is not horizontal")
                segs[round((x0 + x1) / 2, 6)] = y0, x1 - x0
            out.append((col.get_label(), "cat", segs))
        else:
            paths = col.get_paths()

            def area(t, paths=paths):
                e = value_in_polygon(paths, t)
                if e is None:
                    return None
                lo, hi = e
                if abs(lo) > 1e-9 * max(1, abs(hi)) and abs(hi) > 1e-9 * max(1, abs(lo)):
                    raise Mismatch(f"area between {lo} and {hi} does not start at 0")
                return lo if abs(lo) > abs(hi) else hi

            xs = np.concatenate([p.vertices[:, 0] for p in paths]) if paths else np.array([0.0])
            out.append((col.get_label(), "time", (area, xs.min(), xs.max())))
    return out


def check_axes(ax, x, series, legend, labels=True):
    """series: list of (name or None, values, skip)"""
    arts = artists(ax)
    if len(arts) != len(series):
        raise Mismatch(f"{len(arts)} plotted, expected {len(series)}: {[a[0] for a in arts]}")
    cat = cal.rank(x.freq) > cal.rank("D")
    left = list(arts)
    for name, vals, skip in series:
        found = [a for a in left if (a[0] == name if name is not None else str(a[0]).startswith("_") or a[0] == "")]
        if len(found) != 1:
            raise Mismatch(f"{len(found)} artists for {name}; labels {[a[0] for a in arts]}")
        left.remove(found[0])
        label, how, data = found[0]
        finite = [v for v, s in zip(vals, skip) if not s]
        scale = max([0.0] + [abs(v) for v in finite])
        if how != ("cat" if cat else "time"):
            raise Mismatch(f"{name}: {how}")
        ylo, yhi = sorted(ax.get_ylim())
        if cat:
            for k, (v, s) in enumerate(zip(vals, skip)):
                if s:
                    continue
                if k not in data or not eq(data[k][0], v, scale) or not 0 < data[k][1] <= 1:
                    raise Mismatch(f"{name}[{k}]: {data.get(k)}, expected {v}")
            if not set(data) <= set(range(x.n)):
                raise Mismatch(f"{name}: values at {sorted(data)} for {x.n} periods")
        else:
            fn, a, b = data
            if not any(skip) and not (abs(a - num(x.bounds[0])) < 1e-6 and abs(b - num(x.bounds[-1])) < 1e-6):
                raise Mismatch(f"{name}: plotted from {a} to {b}, expected {num(x.bounds[0])} to {num(x.bounds[-1])}")
            for k, (s0, s1, v, s) in enumerate(zip(x.bounds, x.bounds[1:], vals, skip)):
                if s or x.n > 60 and k % 7:
                    continue
                for f in (0.02, 0.5, 0.98):
                    got = fn(num(s0 + f * (s1 - s0)))
                    if got is None or not eq(got, v, scale):
                        raise Mismatch(f"{name}[{k}] at {f} of period: {got}, expected {v}")
        for v in finite:
            if not ylo - 1e-9 * scale <= v <= yhi + 1e-9 * scale:
                raise Mismatch(f"{name}: value {v} not visible, axes from {ylo} to {yhi}")
    xlo, xhi = ax.get_xlim()
    want = (0, x.n - 1) if cat else (num(x.bounds[0]), num(x.bounds[-1]))
    if xlo > want[0] or xhi < want[1]:
        raise Mismatch(f"axis from {xlo} to {xhi}, expected {want}")
    if legend != (ax.get_legend() is not None):
        raise Mismatch(f"legend: {ax.get_legend()}")
    if legend and not {t.get_text() for t in ax.get_legend().get_texts()} >= {s[0] for s in series if s[0] is not None}:
        raise Mismatch("children missing in legend")
    check_texts(ax, x, series[0], cat, labels)


def check_texts(ax, x, series, cat, labels):
    _, vals, skip = series
    starts = [real.stamp(s, x.tz) for s in x.starts]
    if cat and ax.get_xticklabels():
        ticks = [t for t in ax.get_xticks()]
        texts = [t.get_text() for t in ax.get_xticklabels()]
        if len(ticks) > 15 or 0 not in ticks:
            raise Mismatch(f"ticks {ticks}")
        for t, txt in zip(ticks, texts):
            ts = starts[int(t)]
            key = {"MS": ts.strftime("%b"), "QS": f"Q{ts.quarter}", "YS": str(ts.year)}[cal.parse_freq(x.freq)[0]]
            if not txt.startswith(key) or (t == 0 and str(ts.year) not in txt) or any(str(y) in txt for y in range(2015, 2060) if y != ts.year):
                raise Mismatch(f"tick label {txt!r} at {t}, which is {ts}")
    if not labels and ax.texts:
        raise Mismatch("unexpected data labels")
    seen = set()
    for t in ax.texts:
        pos, y = t.xy
        if cat:
            k = int(pos)
        else:
            s = real.ts_sec(pos)
            k = next((j for j in range(x.n) if x.bounds[j] <= s < x.bounds[j + 1]), None)
            if k is None:
                raise Mismatch(f"label at {pos}")
        if k in seen:
            raise Mismatch(f"two labels in period {k}")
        seen.add(k)
        if skip[k]:
            continue
        y = float(getattr(y, "magnitude", y))
        txt = t.get_text().replace(" ", "").replace(" ", "")
        dec = len(txt.split(".")[1]) if "." in txt else 0
        if txt.endswith("%"):
            txt, dec = float(txt[:-1]) / 100, 2
        if not eq(y, vals[k], abs(vals[k])) or abs(float(txt) - vals[k]) > 0.5000001 * 10**-dec + 1e-9 * abs(vals[k]):
            raise Mismatch(f"label {txt} at {y} in period {k}, value is {vals[k]}")
    if labels and x.n <= 12 and len(seen) != x.n:
        raise Mismatch(f"{len(seen)} labels, for {x.n} values")


def column(kind, x):
    """column that is shown for volume, price, revenue"""
    return {"vol": "q" if cal.rank(x.freq) > cal.rank("D") else "w", "pri": "p", "rev": "r"}[kind]


def content(m, kind, children):
    """-> series shown for portfolio line m"""
    c = column(kind, m.ix)

    def one(mod):
        vals = mod.col(c)
        return vals, [c == "p" and mod.kind == "all" and q == 0 for q in mod.data.get("q", [1] * mod.ix.n)]

    out = [(None, *one(m))]
    if children and m.nested:
        out += [(n, *one(ch)) for n, ch in m.children.items()]
    return out


def run_line(rec, group, tier):
    from matplotlib import pyplot as plt
    import portfolyo as pf

    c, k = group["c"], group["k"]
    cat = cal.rank(CONF[c][1]) > 2
    lengths = (1, 3, 5) if not cat else (1, 3, 14, 19, 27)
    for ln, n in enumerate(lengths):
        x = window(c, n)
        if ln and x.freq in ("h", "15min") and (n == 3 or k == "all" and tier == "quick"):
            continue
        for nr, (fname, f) in enumerate(FACTORS.items()):
            if tier == "quick" and (ln + nr + c) % 4 and not (n == 3 and (nr + c) % 2):
                continue
            m = shape(k, x, group["s"], 1, fname == "neg").scale(f)
            if k == "pri" and fname == "pos":  # values that differ little
                m = m.map(lambda q: pfm.MP(q.kind, q.ix, {"p": [100 + v / 1000 for v in q.data["p"]]}))
            pfl = pfm.build(m)
            for children in (False, True):
                with rec.case(n=n, factor=fname, children=children):
                    fig = None
                    try:
                        fig = pfl.plot(children=children) if children else pfl.plot()
                        rec.step()
                        kinds = ("vol", "pri", "rev") if k == "all" else (k,)
                        if len(fig.axes) != len(kinds):
                            raise Mismatch(f"{len(fig.axes)} axes")
                        for ax, kd in zip(fig.axes, kinds):
                            check_axes(ax, x, content(m, kd, children), children and m.nested)
                        rec.state(m.key(), children)
                    finally:
                        plt.close("all")
    x = window(c, 3)
    m = shape(k, x, group["s"], 2)
    pfl = pfm.build(m)
    kinds = {"vol": pf.Kind.VOLUME, "pri": pf.Kind.PRICE, "rev": pf.Kind.REVENUE, "all": pf.Kind.COMPLETE}
    for kd, kv in [(None, None), *kinds.items()]:
        with rec.case(to_ax=kd):
            fig, ax = plt.subplots()
            try:
                call = lambda: pfl.plot_to_ax(ax, True, kv, labelfmt="")
                if k == "all" and kd in (None, "all"):
                    rec.raises(call, "plot without dimension", ValueError)
                    continue
                call()
                check_axes(ax, x, content(m, kd if k == "all" else k, True), m.nested, labels=False)
            finally:
                plt.close("all")


def run_pfs(rec, group, tier):
    from matplotlib import pyplot as plt

    c = group["c"]
    off, src = [("flat", "none"), ("nested", "nested"), ("flat", "nested")][group["o"]]
    for n in (1, 3) if CONF[c][1] not in ("h", "15min") else (1,):
        for nr, (lo, hi) in enumerate(((20.0, 60.0), (99.0, 100.0), (-30.0, -20.0), (-5.0, 9.0))):
            if tier == "quick" and (nr + c + n) % 4 > 1:
                continue
            x = window(c, n)
            m = pfsm.make(x, nr, off, src)
            m.up = [lo + (hi - lo) * (j % 5) / 4 for j in range(x.n)]
            pfs = pfsm.build(m)
            uns = m.unsourced()
            cost = pfm.MP("all", x, {d: [a + b for a, b in zip(m.src.data[d], uns.data[d])] for d in "qr"})
            for children in (False, True):
                with rec.case(n=n, prices=(lo, hi), children=children):
                    try:
                        fig = pfs.plot(children=children)
                        rec.step()
                        axs = {a.get_title(): a for a in fig.axes}
                        want = {
                            "Offtake volume": content(m.off.scale(-1.0), "vol", children),
                            "Sourced volume": content(m.src, "vol", children),
                            "Unsourced volume": content(uns, "vol", False),
                            "Procurement price": content(cost, "pri", False),
                            "Sourced price": content(m.src, "pri", children),
                            "Unsourced price": content(uns, "pri", False),
                        }
                        if set(axs) != set(want):
                            raise Mismatch(f"axes {list(axs)}")
                        for t, series in want.items():
                            try:
                                check_axes(axs[t], x, series, len(series) > 1, labels=False)
                            except Mismatch as e:
                                raise Mismatch(f"{t}: {e}")
                        rec.state(m.key(), children)
                    finally:
                        plt.close("all")


def run_states(rec, group):
    """several states in one figure"""
    from matplotlib import pyplot as plt
    import portfolyo as pf

    c = group["c"]
    for n in (1, 3, 14) if CONF[c][1] not in ("h", "15min") else (1, 3):
        x = window(c, n)
        for k in (1, 2, 3):
            models = {}
            for j in range(k):
                off, src = [("flat", "none"), ("nested", "nested"), ("flat", "nested")][(j + n + c) % 3]
                m = pfsm.make(x, j + n, off, src)
                m.up = [20.0 + 7 * ((j + i) % 5) for i in range(x.n)]
                models[f"portfolio {j}"] = m
            with rec.case(n=n, k=k):
                try:
                    states = {name: pfsm.build(m) for name, m in models.items()}
                    fig = pf.plot_pfstates(states)
                    rec.step()
                    if len(fig.axes) != 6 * k:
                        raise Mismatch(f"{len(fig.axes)} axes")
                    for j, (name, m) in enumerate(models.items()):
                        axs = fig.axes[6 * j : 6 * j + 6]
                        if [t.get_text().split() for t in axs[0].texts] != [name.split()]:
                            raise Mismatch(f"name of portfolio {j}: {[t.get_text() for t in axs[0].texts]}")
                        uns = m.unsourced()
                        cost = pfm.MP("all", x, {d: [a + b for a, b in zip(m.src.data[d], uns.data[d])] for d in "qr"})
                        qo, qs = m.off.col("q"), m.src.col("q")
                        frac = [-s / o if o else 0.0 for s, o in zip(qs, qo)]
                        check_axes(axs[1], x, content(m.off.scale(-1.0), "vol", False), False)
                        check_axes(axs[2], x, [(None, frac, [o == 0 for o in qo])], False)
                        check_axes(axs[4], x, content(cost, "pri", False), False)
                        if any(len(artists(axs[i])) for i in (0, 3, 5)):
                            raise Mismatch("data in empty axes")
                        rec.state(m.key(), name)
                finally:
                    plt.close("all")


def run_axes(rec):
    """several lines in same axes"""
    from matplotlib import pyplot as plt

    for c1 in range(len(CONF)):
        for c2 in range(len(CONF)):
            for k1 in ("vol", "pri"):
                for k2 in ("vol", "pri"):
                    with rec.case(c1=c1, c2=c2, k1=k1, k2=k2):
                        a = pfm.build(pfm.make(k1, window(c1, 3), 1))
                        b = pfm.build(pfm.make(k2, window(c2, 3), 2))
                        fig, ax = plt.subplots()
                        try:
                            a.plot_to_ax(ax)
                            if k1 == k2 and c1 == c2:
                                b.plot_to_ax(ax)
                            elif k1 != k2 or CONF[c1][1] != CONF[c2][1]:
                                rec.raises(lambda: b.plot_to_ax(ax), "distinct unit or frequency in axes")
                            rec.step()
                            rec.state(c1, c2, k1, k2)
                        finally:
                            plt.close("all")


UNITS = {  # unit, factor to base unit
    None: [(None, 1.0), ("dimensionless", 1.0), ("fraction", 1.0), ("kWh/MWh", 0.001)],
    "MW": [("MW", 1.0), ("kW", 0.001), ("GW", 1000.0), ("MWh/h", 1.0)],
    "MWh": [("MWh", 1.0), ("TWh", 1e6), ("kW*h", 0.001)],
    "Eur/MWh": [("Eur/MWh", 1.0), ("ctEur/kWh", 10.0), ("kEur/GWh", 1.0)],
    "Eur": [("Eur", 1.0), ("kEur", 1000.0)],
    "tCO2": [("tCO2", 1.0)],
    "degC": [("degC", 1.0)],
}


def run_series(rec, c):
    """timeseries with any or no unit, in all kinds of plots"""
    from matplotlib import pyplot as plt
    from portfolyo import tools
    from portfolyo.tools.visualize import plot as vp

    cat = cal.rank(CONF[c][1]) > 2
    good = ["plot_timeseries_as_bar", "plot_timeseries_as_hline"] if cat else ["plot_timeseries_as_area", "plot_timeseries_as_step"]
    bad = [f for f in ("plot_timeseries_as_bar", "plot_timeseries_as_hline", "plot_timeseries_as_area", "plot_timeseries_as_step") if f not in good]
    flat = [(base, *u) for base, us in UNITS.items() for u in us]

    for n in (1, 4, 13):
        if n > 1 and CONF[c][1] in ("h", "15min"):
            continue
        x = window(c, n)
        for pat in range(4):
            vals = [[3.0, -7.5, 0.0, 12.25, 41.0][(j * (pat + 1) + pat) % 5] for j in range(x.n)]
            if pat == 3:
                vals = [float(j % 4 + 1) for j in range(x.n)]

            def series(u, integer=False):
                s = pd.Series([int(v) for v in vals] if integer else vals, x.real())
                return s if u is None else s.astype(f"pint[{u}]")

            def drawn(fac, names=(None,)):
                return [(nm, [v * fac for v in vals], [False] * x.n) for nm in names]

            for name in good:
                fn = getattr(tools.visualize, name)
                for base, u, fac in flat:
                    with rec.case(n=n, pat=pat, fn=name, u=u):
                        try:
                            fig, ax = plt.subplots()
                            fn(ax, series(u), labelfmt="{:,.4f}" if n < 13 else "")
                            rec.step()
                            rec.state(c, n, pat, name, u)
                            check_axes(ax, x, drawn(fac), False, n < 13)
                        finally:
                            plt.close("all")
                with rec.case(n=n, pat=pat, fn=name, u="int"):
                    try:
                        fig, ax = plt.subplots()
                        fn(ax, series(None, True), labelfmt="{:,.4f}" if n < 13 else "")
                        rec.step()
                        check_axes(ax, x, [(None, [float(int(v)) for v in vals], [False] * x.n)], False, n < 13)
                    finally:
                        plt.close("all")
                if n != 4 and not (n == 1 and not cat):
                    continue
                # second series in same axes, in any unit; first one possibly in a unit of choice
                for (b1, u1, f1), (b2, u2, f2) in ((a, b) for a in flat for b in flat if pat == (len(a[1] or "") + len(b[1] or "")) % 4):
                    with rec.case(n=n, fn=name, u1=u1, u2=u2):
                        try:
                            fig, ax = plt.subplots()
                            fn(ax, series(u1), label="first")
                            if b1 != b2:
                                rec.raises(lambda: fn(ax, series(u2)), f"{u2} in axes with {u1}")
                                continue
                            fn(ax, series(u2), label="second")
                            rec.step()
                            rec.state(c, n, name, u1, u2)
                            check_axes(ax, x, drawn(f1, ("first",)) + drawn(f2, ("second",)), False, False)
                        finally:
                            plt.close("all")
            for b1, u1, f1 in flat:
                for b2, u2, f2 in flat:
                    if u2 is None or n != 4 or pat:
                        continue
                    with rec.case(n=n, u1=u1, axes=u2):
                        try:
                            fig, ax = plt.subplots()
                            call = lambda: vp.prepare_ax_and_s(ax, series(u1), tools.unit.Unit(u2) if hasattr(tools.unit, "Unit") else tools.unit.ureg.Unit(u2))
                            if b1 != b2:
                                rec.raises(call, f"{u1} to {u2}")
                                continue
                            s = call()
                            t = vp.prepare_ax_and_s(ax, series(u1), tools.unit.ureg.Unit(flat[0][1] or "MW"))  # ignored
                            rec.step(2)
                            for r in (s, t):
                                if not real.same_unit(r, u2) or not np.allclose(np.asarray(r.pint.magnitude, float), [v * f1 / f2 for v in vals], rtol=1e-9):
                                    raise Mismatch(f"{u1} in axes with {u2}: {r.dtype} {r.iloc[0]}")
                        finally:
                            plt.close("all")
            for name in good if n == 4 or n == 1 and not cat else ():
                for c2 in range(len(CONF)):
                    with rec.case(n=n, pat=pat, fn=name, c2=c2):
                        if (cal.rank(CONF[c2][1]) > 2) != cat or CONF[c2][1] == CONF[c][1]:
                            continue
                        try:
                            fig, ax = plt.subplots()
                            y = window(c2, 3)
                            getattr(tools.visualize, good[pat % 2])(ax, pd.Series(1.0, y.real(), dtype="pint[MW]"))
                            rec.raises(lambda: getattr(tools.visualize, name)(ax, series("MW")), f"{x.freq} in axes with {y.freq}")
                        finally:
                            plt.close("all")
            for name in bad:
                with rec.case(n=n, pat=pat, bad=name):
                    try:
                        fig, ax = plt.subplots()
                        rec.raises(lambda: getattr(tools.visualize, name)(ax, series("MW")), f"{name} with {x.freq}")
                    finally:
                        plt.close("all")


def run(group, rec, tier):
    import matplotlib

    matplotlib.use("Agg")
    matplotlib.rcParams["figure.max_open_warning"] = 0
    if group["part"] == "line":
        run_line(rec, group, tier)
    elif group["part"] == "pfs":
        run_pfs(rec, group, tier)
    elif group["part"] == "states":
        run_states(rec, group)
    elif group["part"] == "series":
        run_series(rec, group["c"])
    else:
        run_axes(rec)
