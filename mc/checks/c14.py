"""C14: intersection = restriction of every object to the common delivery periods."""

import datetime as dt
import itertools

import pandas as pd

from .. import cal, pfm, real
from ..engine import Mismatch
from .c03 import CONF, window

PROP = "C14"
TECHNIQUE = "exhaustive enumeration of all relative positions, object classes and ignore flags on the real intersection functions against a reference model"
EXPLANATION = (
    "All pairs (and triples) of delivery windows of every index configuration, and of configurations that differ in any"
    " subset of {frequency, timezone, start-of-day}, are intersected with every combination of the three ignore flags, as"
    " indices, series, dataframes, portfolio lines and portfolio states, in every argument order."
)
ASSUMPTIONS = ["windows consist of whole days; quarters/years of different anchors are not combined"]
FLAGS = [dict(ignore_freq=a, ignore_tz=b, ignore_start_of_day=c) for a in (False, True) for b in (False, True) for c in (False, True)]
BER, NYC = "Europe/Berlin", "America/New_York"
# configurations for flex: (tz, freq, sod), base date
FLEX = [
    ((BER, "D", "00:00"), (BER, "MS", "00:00")),
    ((BER, "D", "06:00"), (BER, "QS", "06:00")),
    ((None, "MS", "00:00"), (None, "YS", "00:00")),
    ((None, "QS", "00:00"), (None, "MS", "00:00")),
    ((BER, "h", "00:00"), (BER, "D", "00:00")),
    ((BER, "h", "06:00"), (BER, "D", "06:00")),
    ((NYC, "15min", "00:00"), (NYC, "h", "00:00")),
    ((BER, "D", "00:00"), (None, "D", "00:00")),
    ((BER, "D", "06:00"), (NYC, "D", "06:00")),
    ((BER, "h", "00:00"), (None, "h", "00:00")),
    ((BER, "h", "00:00"), (NYC, "h", "00:00")),
    ((BER, "MS", "06:00"), (None, "MS", "06:00")),
    ((BER, "D", "00:00"), (BER, "D", "06:00")),
    ((None, "MS", "06:00"), (None, "MS", "00:00")),
    ((BER, "h", "00:00"), (BER, "h", "06:00")),
    ((BER, "D", "00:00"), (None, "MS", "06:00")),
    ((BER, "QS", "06:00"), (None, "D", "00:00")),
    ((NYC, "MS", "00:00"), (BER, "D", "06:00")),
    ((BER, "h", "00:00"), (None, "D", "00:00")),
    ((None, "YS", "00:00"), (BER, "QS", "06:00")),
    ((BER, "D", "00:00"), (BER, "D", "00:00")),
    ((None, "h", "06:00"), (None, "h", "06:00")),
]
FLEX3 = [
    ((BER, "D", "00:00"), (BER, "MS", "00:00"), (BER, "QS", "00:00")),
    ((BER, "D", "00:00"), (None, "D", "00:00"), (NYC, "D", "00:00")),
    ((BER, "D", "00:00"), (BER, "D", "06:00"), (BER, "D", "00:00")),
    ((BER, "D", "00:00"), (None, "MS", "06:00"), (BER, "MS", "00:00")),
    ((BER, "h", "00:00"), (BER, "D", "00:00"), (BER, "h", "00:00")),
]


def groups(tier):
    out = [{"t": "strict", "c": c} for c in range(len(CONF))]
    out += [{"t": "flex", "k": k, "f": f} for k in range(len(FLEX)) for f in range(2)]
    out += [{"t": "flex3", "k": k} for k in range(len(FLEX3))]
    out += [{"t": "state", "c": c} for c in (0, 1, 3)]
    return out


SPANS = {
    "15min": ("2020-10-31", [(0, 1), (0, 2), (1, 3)]),
    "h": ("2020-10-24", [(0, 3), (1, 2), (-1, 2), (2, 5), (4, 5)]),
    "h2": ("2020-03-28", [(0, 3), (1, 2), (-1, 2), (2, 5)]),
    "D": ("2020-02-28", [(0, 5), (1, 3), (-1, 2), (-28, 40), (1, 33), (2, 34), (-59, 366), (40, 60)]),
    "MS": ("2020-01-01", [(0, 3), (1, 2), (-1, 14), (2, 6), (3, 15), (12, 13)]),
    "QS": ("2020-01-01", [(0, 2), (-1, 1), (0, 5), (1, 9)]),
    "YS": ("2020-01-01", [(0, 1), (-1, 1), (0, 3), (1, 2)]),
}


def mk(conf, span, date=None):
    from .c03 import daysix

    tz, freq, sod = conf
    a, b = span
    d = dt.date.fromisoformat(date or SPANS[freq][0])
    if freq in cal.FIXED:
        return daysix(tz, freq, sod, d + dt.timedelta(days=a), b - a)
    return pfm.ix(tz, freq, sod, str(cal.add_date(d, freq, a)), b - a)


def local(s, tz):
    return cal.sec2local(s, tz)


def model(xs, fl):
    """-> ERR or list of lists of starts"""
    if len(xs) == 1:
        return [xs[0].starts]
    df, dz, ds = ({getattr(x, a) for x in xs} for a in ("freq", "tz", "sod"))
    if len(df) > 1 and not fl["ignore_freq"] or len(dz) > 1 and not fl["ignore_tz"] or len(ds) > 1 and not fl["ignore_start_of_day"]:
        return "error"
    if len(ds) > 1 and any(x.freq in cal.FIXED for x in xs):
        return "error"
    longest = max(df, key=cal.rank)
    sets = []
    for x in xs:
        cv = cal.cover(x.bounds, longest, x.sod, x.tz)
        if longest in cal.FIXED:
            sets.append({local(s, x.tz) if len(dz) > 1 else s for s in cv[:-1]})
        else:
            sets.append({local(s, x.tz).date() for s in cv[:-1]})
    com = sorted(set.intersection(*sets))
    if not com:
        return [[] for _ in xs]
    out = []
    for x in xs:
        if longest in cal.FIXED:
            if len(dz) > 1:
                a, b = com[0], com[-1] + dt.timedelta(seconds=cal.FIXED[longest])
                out.append([s for s in x.starts if a <= local(s, x.tz) < b])
            else:
                out.append([s for s in x.starts if com[0] <= s < com[-1] + cal.FIXED[longest]])
        else:
            a = cal.combine(com[0], x.sod, x.tz)
            b = cal.combine(cal.add_date(com[-1], longest, 1), x.sod, x.tz)
            out.append([s for s in x.starts if a <= s < b])
    return out


def objs(xs, form, seed=0):
    """objects and checkers"""
    import portfolyo as pf

    out = []
    for k, x in enumerate(xs):
        i = x.real()
        if real.secs(i) != x.starts:
            raise RuntimeError("harness")
        vals = [float((j * 7 + k + seed) % 23) for j in range(x.n)]
        f = form[k % len(form)]
        if f == "index":
            out.append(i.rename(f"n{k}"))
        elif f == "series":
            out.append(pd.Series(vals, i, name="s"))
        elif f == "pint":
            out.append(pd.Series(vals, i, dtype="pint[MWh]", name="s"))
        elif f == "df":
            out.append(pd.DataFrame({"a": vals, "s": pd.Series(vals, i, dtype="pint[kEur]")}, i))
        elif f == "flat":
            out.append(pfm.build(pfm.make(pfm.KINDS[(k + seed) % 4], x, k)))
        elif f == "nested":
            out.append(pfm.build(pfm.nest({"a": pfm.make("all", x, k), "b": pfm.make("all", x, k + 1)})))
        elif f == "state":
            from ..pfsm import simple_state

            out.append(simple_state(x, k))
    return out


def check_obj(o, orig, x, starts, what):
    import portfolyo as pf

    if type(o) is not type(orig):
        raise Mismatch(f"{what}: {type(o).__name__} instead of {type(orig).__name__}")
    i = o if isinstance(o, pd.DatetimeIndex) else o.index
    if not starts:
        if len(i):
            raise Mismatch(f"{what}: expected empty, got {len(i)}")
        return
    a = x.starts.index(starts[0])
    sub = x.sub(a, a + len(starts))
    if sub.starts != starts:
        raise RuntimeError("model: not contiguous")
    pfm.cmp_index(i, sub, what)
    if isinstance(o, pd.DatetimeIndex):
        if o.name != orig.name:
            raise Mismatch(f"{what}: name {o.name}")
    elif isinstance(o, pd.Series):
        if o.name != orig.name or o.dtype != orig.dtype or real.mags(o) != real.mags(orig)[a : a + len(starts)]:
            raise Mismatch(f"{what}: values/name/dtype")
    elif isinstance(o, pd.DataFrame):
        if list(o.columns) != list(orig.columns):
            raise Mismatch(f"{what}: columns")
        for c in o.columns:
            if o[c].dtype != orig[c].dtype or real.mags(o[c]) != real.mags(orig[c])[a : a + len(starts)]:
                raise Mismatch(f"{what}: values/dtype of {c}")
    elif isinstance(o, pf.PfLine):
        cmp_pfl(o, orig, a, len(starts), what)
    else:
        for part in ("offtakevolume", "sourced", "unsourcedprice"):
            cmp_pfl(getattr(o, part), getattr(orig, part), a, len(starts), f"{what}.{part}")


def cmp_pfl(o, orig, a, n, what):
    x, y = pfm.observe(o), pfm.observe(orig)

    def cut(d):
        return {
            "kind": d["kind"],
            "cols": {c: [real.r12(z) for z in v[a : a + n]] for c, v in d["cols"].items()},
            "children": None if d["children"] is None else {k: cut(v) for k, v in d["children"].items()},
        }

    def whole(d):
        return {
            "kind": d["kind"],
            "cols": {c: [real.r12(z) for z in v] for c, v in d["cols"].items()},
            "children": None if d["children"] is None else {k: whole(v) for k, v in d["children"].items()},
        }

    if whole(x) != cut(y):
        raise Mismatch(f"{what}: values differ from restriction")


def run_one(rec, fn, xs, form, fl, strict, perms, **ident):
    for perm in itertools.permutations(range(len(xs))) if perms else [range(len(xs))]:
        ys = [xs[p] for p in perm]
        with rec.case(**ident, form=form, perm=list(perm), fl=[k for k, v in fl.items() if v]):
            exp = model(ys, fl)
            os_ = objs(ys, form)
            rec.step()
            isobj = any(f in ("flat", "nested", "state") for f in form)
            if exp == "error" or (isobj and not exp[0]):
                rec.raises(lambda: fn(*os_, **({} if strict else fl)), "incompatible or no overlap")
                rec.outcome("error")
                continue
            res = fn(*os_, **({} if strict else fl))
            if strict == "index":
                res = [res for _ in os_]
            if len(res) != len(os_) or not isinstance(res, (list, tuple)):
                raise Mismatch(f"result {type(res)}")
            for k, (o, orig, x, st) in enumerate(zip(res, os_, ys, exp)):
                if strict == "index":
                    orig = os_[0]
                    x = ys[0]
                check_obj(o, orig, x, st if strict != "index" else exp[0], f"result {k}")
            rec.outcome("overlap" if exp[0] else "empty")
            rec.state(form, [[x.key(), s[:1], s[-1:]] for x, s in zip(ys, exp)])


def run(group, rec, tier):
    import portfolyo as pf
    from portfolyo import tools

    none = dict(ignore_freq=False, ignore_tz=False, ignore_start_of_day=False)
    deep = tier == "thorough"
    if group["t"] == "strict":
        c = group["c"]
        N = 4 if not deep else 5
        ws = [(a, b) for a in range(N) for b in range(a + 1, N + 1)]
        if CONF[c][1] in cal.FIXED and not deep:
            ws = [w for w in ws if w[1] <= 3]
        for w1, w2 in itertools.product(ws, ws):
            xs = [window(c, *w1), window(c, *w2)]
            run_one(rec, tools.intersect.indices, xs, ["index"], none, "index", False, w=[w1, w2])
            for k, form in enumerate((["index"], ["series"], ["df", "pint"], ["flat"], ["nested", "flat"], ["series", "nested"])):
                if not deep and k and (w1[0] + w2[1] + k) % 3:
                    continue
                fn = tools.intersect.indices_flex if k == 0 else tools.intersect.frames if k <= 2 else pf.intersection
                fl = FLAGS[(w1[0] * 3 + w2[1] + k) % 8]
                run_one(rec, fn, xs, form, fl, False, False, w=[w1, w2])
        for w1, w2, w3 in itertools.product(ws[:: 1 if deep else 2], repeat=3):
            xs = [window(c, *w) for w in (w1, w2, w3)]
            run_one(rec, tools.intersect.indices, xs, ["index"], none, "index", False, w=[w1, w2, w3])
            run_one(rec, tools.intersect.frames, xs, ["series", "df", "pint"], none, False, False, w=[w1, w2, w3])
        # a single object, an empty index
        x = window(c, 0, 2)
        for fl in FLAGS:
            for form, fn in ((["index"], tools.intersect.indices_flex), (["series"], tools.intersect.frames), (["df"], pf.intersection), (["flat"], pf.intersection), (["nested"], pf.intersection)):
                run_one(rec, fn, [x], form, fl, False, False, single=True)
        with rec.case(empty=True):
            i = x.real()
            e = i[:0]
            for a, b in ((i, e), (e, i), (e, e)):
                if len(tools.intersect.indices(a, b)):
                    raise Mismatch("not empty")
                for fl in FLAGS:
                    r = tools.intersect.indices_flex(a, b, **fl)
                    if len(r) != 2 or any(len(x) for x in r):
                        raise Mismatch(f"not empty {r}")
                    r = tools.intersect.frames(pd.Series(1.0, a), pd.DataFrame({"a": 1.0}, b), **fl)
                    if len(r) != 2 or any(len(x) for x in r):
                        raise Mismatch(f"not empty {r}")
            rec.raises(lambda: tools.intersect.indices(), "nothing to intersect")
            rec.raises(lambda: tools.intersect.indices_flex(), "nothing to intersect")
        for c2 in range(len(CONF)):
            if c2 != c:
                xs = [window(c, 0, 2), window(c2, 0, 2)]
                if not xs[0].compatible(xs[1]):
                    run_one(rec, tools.intersect.indices, xs, ["index"], none, "index", False, other=c2)
    elif group["t"] in ("flex", "flex3"):
        confs = (FLEX if group["t"] == "flex" else FLEX3)[group["k"]]
        spans = []
        for cf in confs:
            sp = SPANS[cf[1]][1]
            if cf[1] == "D" and any(o[1] == "h" or o[1] == "D" for o in confs if o is not cf) and not any(cal.rank(o[1]) > 2 for o in confs):
                sp = [(0, 5), (1, 3), (-1, 2), (2, 4), (6, 8)]
            spans.append(sp)
        date = "2020-10-23" if all(cal.rank(c[1]) <= 2 for c in confs) else None
        for s in itertools.product(*spans):
            if group["t"] == "flex3" and not deep and sum(a * 7 + b for a, b in s) % 7:
                continue
            for dd in [date] if date is None else [date, "2020-03-27"]:
                xs = [mk(cf, sp, dd) for cf, sp in zip(confs, s)]
                for kf, fl in enumerate(FLAGS):
                    if group["t"] == "flex" and kf % 2 != group["f"]:
                        continue
                    run_one(rec, tools.intersect.indices_flex, xs, ["index"], fl, False, True, spans=s, date=dd)
                    q = (abs(sum(a * 5 + b * 3 for a, b in s)) + kf) % 4
                    forms = [["series", "df"], ["pint", "series"], ["flat"], ["nested", "pint"]]
                    for form in forms if deep else [forms[q]]:
                        fn = pf.intersection if form[0] in ("flat", "nested") or kf % 2 else tools.intersect.frames
                        run_one(rec, fn, xs, form, fl, False, False, spans=s, date=dd)
    else:
        c = group["c"]
        ws = [(0, 2), (0, 3), (1, 3), (-1, 1), (3, 5), (1, 2)]
        for w1, w2 in itertools.product(ws, ws):
            xs = [window(c, *w1), window(c, *w2)]
            for form in (["state"], ["state", "flat"], ["series", "state"]):
                run_one(rec, pf.intersection, xs, form, FLAGS[(w1[0] + w2[1]) % 8], False, False, w=[w1, w2])
