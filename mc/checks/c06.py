"""C06: operations never change their operands; objects do not change after construction."""

import copy
import itertools
import operator
import os
import pathlib
import tempfile

import numpy as np
import pandas as pd

from .. import pfm, pfsm, real
from ..engine import Mismatch
from .c03 import CONF, window

PROP = "C06"
TECHNIQUE = "exhaustive enumeration of all operations (and of all ordered pairs of operations on shared operands) on the real code, with exact observations of every operand before and after each"
EXPLANATION = (
    "Every operation of the API (about 150: properties, arithmetic with every operand class on both sides, child management,"
    " selection, resampling, hedging, decomposition, export, printing, plotting, comparison, concatenation, intersection,"
    " and all public functions on series and frames) is applied to every class of operand; all participants are observed"
    " bit by bit before and after. All ordered pairs (op1, op2) are run on the same operands, and op1 is repeated afterwards"
    " and must give the same result (also if it is an error). Every input container is changed in every way after an object"
    " has been constructed from it, and so is every result obtained from an object; the object must keep its content."
)


def deep(o, depth=0):
    """exact, bitwise observation"""
    import portfolyo as pf

    if isinstance(o, pf.PfState):
        return ("pfs", deep(o.offtakevolume), deep(o.unsourcedprice), deep(o.sourced))
    if isinstance(o, pf.PfLine):
        ch = tuple((n, deep(o[n])) for n in o) if o.structure is pf.Structure.NESTED else None
        return ("pfl", type(o).__name__, str(o.kind), deep(o.df), ch)
    if isinstance(o, pd.DataFrame):
        return ("df", deep(o.index), deep(o.columns), tuple(deep(o.iloc[:, k], 1) for k in range(o.shape[1])))
    if isinstance(o, pd.Series):
        if hasattr(o.dtype, "units"):
            v = tuple(map(repr, map(float, real.mags(o))))
        else:
            v = tuple(map(repr, o.tolist()))
        return ("s", str(o.dtype), str(o.name), v, deep(o.index) if not depth else None)
    if isinstance(o, pd.DatetimeIndex):
        return ("ix", tuple(o.asi8.tolist()), str(o.tz), str(o.freq), str(o.name), o.unit)
    if isinstance(o, pd.Index):
        return ("ix", tuple(map(repr, o.tolist())), str(o.names))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), deep(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(deep(v) for v in o))
    if isinstance(o, np.ndarray):
        return ("np", tuple(map(repr, o.tolist())))
    if isinstance(o, (int, float, str, bool, type(None), pd.Timestamp, pd.Timedelta)):
        return repr(o)
    if hasattr(o, "magnitude"):
        return ("Q", repr(float(o.magnitude)), str(o.units))
    return type(o).__name__


def call(fn, *a):
    """result of call, as observation; errors are results too"""
    try:
        return ("ok", deep(fn(*a)))
    except RecursionError:
        raise
    except Exception as e:
        return ("error", type(e).__name__)


# ---------------------------------------------------------------- operands


CFG = [1, 0, 3]


def operands(c):
    """name -> fresh object"""
    import portfolyo as pf

    n = CONF[c][4]
    x, y = window(c, 0, n), window(c, -1, n - 1)
    if c == 0:  # contains a complete month, so that hedging is possible
        x, y = window(c, -26, 6), window(c, -27, 5)
    out = {}
    for k in pfm.KINDS:
        out[k] = pfm.build(pfm.make(k, x, 1, zero_q=k == "all"))
        out[k + "_n"] = pfm.build(pfm.nest({"a": pfm.make(k, x, 2), "b": pfm.nest({"z": pfm.make(k, y, 1).restrict(x.starts), "y": pfm.make(k, y, 3).restrict(x.starts)})} if False else {"a": pfm.make(k, x, 2), "b": pfm.nest({"z": pfm.make(k, x, 1), "y": pfm.make(k, x, 3)})}))
        out[k + "_s"] = pfm.build(pfm.nest({"b": pfm.make(k, y, 1), "c": pfm.make(k, y, 2)}))
    out["pfs"] = pfsm.build(pfsm.make(x, 1, "flat", "nested"))
    out["pfs_n"] = pfsm.build(pfsm.make(x, 2, "nested", "flat"))
    out["pfs_0"] = pfsm.build(pfsm.make(y, 1, "flat", "none"))
    i = x.real()
    out["ser"] = pd.Series([float(2 + k % 3) for k in range(len(i))], i, name="s")
    for col in "wqpr":
        out["ser_" + col] = pfm.pint_series([float(5 + k % 4) for k in range(len(i))], i, col).rename(col)
    out["ser_kWh"] = pd.Series([float(5 + k % 4) for k in range(len(i))], i, dtype="pint[kWh]")
    out["df"] = pd.DataFrame({"w": out["ser_w"], "p": out["ser_p"]})
    out["df0"] = pd.DataFrame({"a": out["ser"], "b": out["ser"] * 2})
    gap = out["ser"].copy()
    gap.iloc[1] = np.nan
    out["ser_gap"] = gap
    out["dict"] = {"q": out["ser_q"].copy(), "p": out["ser_p"].copy()}
    out["dict_n"] = {"u": {"q": out["ser_q"].copy()}, "v": out["ser_w"].copy()}
    out["num"] = 2.5
    out["qty"] = pf.Q_(3.0, "MWh")
    out["qtyp"] = pf.Q_(30.0, "Eur/MWh")
    out["none"] = None
    out["ix"] = i
    out["ix_y"] = y.real()
    return out


LINES = [k + s for k in pfm.KINDS for s in ("", "_n", "_s")]
STATES = ["pfs", "pfs_n", "pfs_0"]
SER = ["ser", "ser_w", "ser_q", "ser_p", "ser_r", "ser_kWh", "ser_gap"]


def unary(c):
    """operations on lines and states (those that do not apply raise, which is fine)"""
    import portfolyo as pf

    freq = CONF[c][1]
    down = {"D": "MS", "MS": "QS", "h": "D"}[freq]
    up = {"D": "h", "MS": "D", "h": "15min"}[freq]
    pk = pf.create_peakfn(pd.Timestamp("08:00").time(), pd.Timestamp("20:00").time(), [1, 2, 3, 4, 5])
    U = {}
    for a in ("kind", "structure", "index", "start", "end", "w", "q", "p", "r", "volume", "price", "revenue", "df", "offtake", "offtakevolume", "sourced", "unsourced", "unsourcedprice", "netposition", "pnl_cost", "sourcedfraction", "unsourcedfraction"):
        U["." + a] = lambda o, a=a: getattr(o, a)
    U["flatten"] = lambda o: o.flatten()
    U["neg"] = lambda o: -o
    U["bool"] = lambda o: bool(o)
    U["repr"] = lambda o: repr(o)
    U["str"] = lambda o: str(o)
    U["print"] = lambda o: o.print(flatten=False) if hasattr(o, "print") else None
    U["print2"] = lambda o: o.print(True, 1, color=False)
    U["eqself"] = lambda o: o == o
    U["copy"] = lambda o: copy.copy(o)
    U["deepcopy"] = lambda o: copy.deepcopy(o)
    U["len"] = lambda o: len(o)
    U["list"] = lambda o: list(o)
    U["items"] = lambda o: dict(o.items())
    U["getitem"] = lambda o: o["a"]
    U["getattr"] = lambda o: o.b
    U["asfreq_down"] = lambda o: o.asfreq(down)
    U["asfreq_up"] = lambda o: o.asfreq(up) if freq != "h" else o.asfreq("h")
    U["asfreq_same"] = lambda o: o.asfreq(freq)
    U["loc"] = lambda o: o.loc[o.index[1] :]
    U["slice"] = lambda o: o.slice[: o.index[-1]]
    U["reindex"] = lambda o: o.reindex(o.index[1:])
    U["dataframe"] = lambda o: o.dataframe()
    U["dataframe_nu"] = lambda o: o.dataframe(has_units=False)
    U["dataframe_c"] = lambda o: o.dataframe(["r", "q"], childlevels=1)
    U["po"] = lambda o: o.po(pk, "MS")
    U["set_child"] = lambda o: o.set_child("n", o["a"] * 2)
    U["set_child2"] = lambda o: o.set_child("a", o["b"])
    U["drop_child"] = lambda o: o.drop_child("a")
    U["set_reserved"] = lambda o: o.set_child("q", o["a"])
    U["set_sourced"] = lambda o: o.set_sourced(o.sourced * 2)
    U["add_sourced"] = lambda o: o.add_sourced(o.sourced * 2)
    U["set_off"] = lambda o: o.set_offtakevolume(o.offtakevolume * 0.5)
    U["set_up"] = lambda o: o.set_unsourcedprice(o.unsourcedprice * 0.5)
    U["mtm"] = lambda o: o.mtm_of_sourced()
    for how in ("vol", "val"):
        U["hedge_" + how] = lambda o, how=how: o.hedge_of_unsourced(how, None, "MS")
        U["source_" + how] = lambda o, how=how: o.source_unsourced(how, pk if freq == "h" else None, "MS")
    U["map_year"] = lambda o: pf.map_to_year(o, 2021, "DE")
    U["excel"] = lambda o: o.to_excel(str(pathlib.Path(SCRATCH) / "x.xlsx"))
    U["PfLine"] = lambda o: pf.PfLine(o)
    U["concat"] = lambda o: pf.concat([o.slice[: o.index[1]], o.slice[o.index[1] :]])
    U["plot"] = lambda o: _plot(o)
    U["hash"] = lambda o: hash(o)
    return U


SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")


def _plot(o):
    import matplotlib.pyplot as plt

    try:
        o.plot()
    finally:
        plt.close("all")


def binary(c):
    import portfolyo as pf
    from portfolyo import tools

    B = {n: getattr(operator, n) for n in ("add", "sub", "mul", "truediv", "or_", "eq", "ne")}
    B["set_child"] = lambda a, b: a.set_child("n", b)
    B["set_child_a"] = lambda a, b: a.set_child("a", b)
    B["intersection"] = lambda a, b: pf.intersection(a, b)
    B["concat"] = lambda a, b: pf.concat([a, b])
    B["hedge_with"] = lambda a, b: a.hedge_with(b, "vol", None, "MS")
    B["hedge_val"] = lambda a, b: a.hedge_with(b, "val", None, "MS")
    B["reindex"] = lambda a, b: a.reindex(b.index)
    B["loc"] = lambda a, b: a.loc[b]
    B["PfState"] = lambda a, b: pf.PfState(a, b)
    B["PfState3"] = lambda a, b: pf.PfState(a, b, None)
    B["PfLine2"] = lambda a, b: pf.PfLine({"a": a, "b": b})
    B["PfLineList"] = lambda a, b: pf.PfLine([a, b])
    B["PfLineQP"] = lambda a, b: pf.PfLine({"q": a, "p": b})
    B["set_sourced"] = lambda a, b: a.set_sourced(b)
    B["add_sourced"] = lambda a, b: a.add_sourced(b)
    B["set_off"] = lambda a, b: a.set_offtakevolume(b)
    B["set_up"] = lambda a, b: a.set_unsourcedprice(b)
    B["sum"] = lambda a, b: sum([a, b])
    B["wavg"] = lambda a, b: pf.wavg(a, b)
    B["hedge"] = lambda a, b: pf.hedge(a, b, "vol", None, "MS")
    B["ser_equal"] = lambda a, b: pf.testing.assert_series_equal(a, b)
    B["allclose"] = lambda a, b: tools.frame.series_allclose(a, b)
    return B


def frames(c):
    """public functions on series and frames"""
    import portfolyo as pf
    from portfolyo import tools

    freq = CONF[c][1]
    down = {"D": "MS", "MS": "QS", "h": "D"}[freq]
    up = {"D": "h", "MS": "D", "h": "15min"}[freq]
    pk = pf.create_peakfn(pd.Timestamp("08:00").time(), None, [1, 2, 3, 4, 5])
    F = {}
    for nm, f in (("sum", pf.asfreq_sum), ("avg", pf.asfreq_avg)):
        for fr in (down, up, freq):
            F[f"asfreq_{nm}_{fr}"] = lambda s, f=f, fr=fr: f(s, fr)
    F["aware"] = lambda s: pf.force_aware(s, "Europe/Berlin")
    F["aware_fix"] = lambda s: pf.force_aware(s, "Asia/Kolkata", floating=False)
    F["agnostic"] = lambda s: pf.force_agnostic(s)
    F["standardize"] = lambda s: pf.standardize(s, None)
    F["standardize_aw"] = lambda s: pf.standardize(s, "aware", tz="Europe/Berlin")
    F["standardize_ag"] = lambda s: pf.standardize(s, "agnostic")
    F["map_year"] = lambda s: pf.map_frame_to_year(s, 2022, "DE")
    F["wavg"] = lambda s: pf.wavg(s, [1.0] * len(s))
    F["wavg_ax1"] = lambda s: pf.wavg(s, [1, 2], axis=1)
    F["fill_gaps"] = lambda s: tools.frame.fill_gaps(s, 2)
    F["add_header"] = lambda s: tools.frame.add_header(s, "x")
    F["concat"] = lambda s: tools.frame.concat([s, tools.frame.add_header(s, "y")], 1)
    F["trim"] = lambda s: tools.trim.frame(s, down)
    F["po"] = lambda s: tools.peakconvert.tseries2poframe(s, pk, down, True)
    F["duration"] = lambda s: tools.duration.frame(s)
    F["right"] = lambda s: tools.right.index(s.index)
    F["peak"] = lambda s: pk(s.index)
    F["characterize"] = lambda s: pf.characterize_index(s.index, "DE")
    F["floor"] = lambda s: tools.floor.index(s.index, down)
    F["ceil"] = lambda s: tools.ceil.index(s.index, down)
    F["set_freq"] = lambda s: tools.freq.set_to_frame(s, freq)
    F["guess_freq"] = lambda s: tools.freq.guess_to_frame(s)
    F["PfLine"] = lambda s: pf.PfLine(s)
    F["PfLine_p"] = lambda s: pf.PfLine({"p": s})
    F["intersect"] = lambda s: tools.intersect.frames(s, s.iloc[1:])
    F["split"] = lambda s: tools.unit.split_magn_unit(s)
    F["normalize"] = lambda s: tools.unit.normalize(s)
    F["avoid"] = lambda s: tools.unit.avoid_frame_of_objects(s)
    return F


# ---------------------------------------------------------------- groups


def groups(tier):
    cfgs = CFG if tier == "thorough" else CFG[:1]
    out = [{"t": "unary", "c": c, "o": o} for c in (CFG if tier == "thorough" else CFG[:2]) for o in LINES + STATES]
    out += [{"t": "binary", "c": c, "o": o} for c in CFG[:2] for o in LINES + STATES + ["ser", "ser_p", "dict", "num"] if c == 1 or tier == "thorough" or o in ("vol", "all_n", "pfs")]
    out += [{"t": "frames", "c": c, "o": o} for c in CFG for o in SER + ["df", "df0", "dict"]]
    pairs = [("all_n", 1), ("vol", 0)] if tier == "quick" else [(o, c) for o in LINES + STATES for c in (1, 0)]
    out += [{"t": "pairs", "c": c, "o": o, "m": m} for o, c in pairs for m in range(6)]
    out += [{"t": "mutate", "c": c} for c in CFG]
    out += [{"t": "assign", "c": c} for c in cfgs]
    return out


def run(group, rec, tier):
    {"unary": run_unary, "binary": run_binary, "frames": run_frames, "pairs": run_pairs, "mutate": run_mutate, "assign": run_assign}[group["t"]](group, rec, tier)


def checked(rec, what, fn, objs, twice=True):
    """run fn twice; all objs must be untouched; results identical"""
    before = [deep(o) for o in objs]
    r1 = call(fn, *objs)
    rec.step()
    for k, (b, o) in enumerate(zip(before, objs)):
        if deep(o) != b:
            raise Mismatch(f"{what} changed operand {k}: {diff(b, deep(o))}")
    if twice:
        r2 = call(fn, *objs)
        rec.step()
        if r1 != r2:
            raise Mismatch(f"{what} gives another result the second time: {diff(r1, r2)}")
    rec.outcome(r1[0])
    rec.state(what, repr(r1))
    return r1


def diff(a, b):
    if type(a) is type(b) is tuple and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return f"{str(a)[:150]} -> {str(b)[:150]}"


def run_unary(group, rec, tier):
    o = operands(group["c"])[group["o"]]
    for nm, fn in unary(group["c"]).items():
        with rec.case(op=nm):
            checked(rec, f"{nm}({group['o']})", fn, [o])
    rec.sample({"group": group})


def run_binary(group, rec, tier):
    ops = operands(group["c"])
    a = ops[group["o"]]
    for nm, fn in binary(group["c"]).items():
        for on, b in ops.items():
            if tier == "quick" and nm not in ("add", "sub", "mul", "truediv", "or_", "set_child") and on.endswith("_s"):
                continue
            with rec.case(op=nm, b=on):
                checked(rec, f"{nm}({group['o']},{on})", fn, [a, b], twice=tier == "thorough" or nm in ("add", "mul", "or_", "set_child"))
    rec.sample({"group": group})


def run_frames(group, rec, tier):
    ops = operands(group["c"])
    o = ops[group["o"]]
    if group["o"] == "dict":
        import portfolyo as pf

        for on in ("dict", "dict_n", "df", "df0"):
            for nm, fn in {"PfLine": lambda d: pf.PfLine(d), "list": lambda d: pf.PfLine([s for s in d.values()]), "state": lambda d: pf.PfState(d, d, d), "intersection": lambda d: pf.intersection(*[d[k] for k in d]), "wavg": lambda d: pf.wavg(*[d[k] for k in d])}.items():
                with rec.case(op=nm, o=on):
                    checked(rec, f"{nm}({on})", fn, [ops[on]])
        return
    for nm, fn in frames(group["c"]).items():
        with rec.case(op=nm):
            checked(rec, f"{nm}({group['o']})", fn, [o])
    rec.sample({"group": group})


def run_pairs(group, rec, tier):
    """histories op1, op2, op1 on the same operands"""
    c = group["c"]
    ops = operands(c)
    o = ops[group["o"]]
    slow = {"plot", "excel", "map_year", "print", "print2", "str", "deepcopy", "asfreq_up"}
    U = {k: v for k, v in unary(c).items() if tier == "thorough" or k not in slow or k in ("plot", "map_year")}
    for on in ("vol", "all_n", "pri", "pfs_n", "num", "ser"):
        for nm in ("add", "mul", "truediv", "or_"):
            U[f"{nm}_{on}"] = lambda x, f=getattr(operator, nm), b=ops[on]: f(x, b)
    U = {k: fn for k, fn in U.items() if call(fn, o)[0] == "ok"}
    f0 = deep(o)
    all0 = deep(ops)
    for k, (n1, f1) in enumerate(U.items()):
        if k % 6 != group["m"]:
            continue
        r1 = call(f1, o)
        for n2, f2 in U.items():
            with rec.case(op1=n1, op2=n2):
                call(f2, o)
                r = call(f1, o)
                rec.step(2)
                if r != r1:
                    raise Mismatch(f"{n1} gives another result after {n2}: {diff(r1, r)}")
                if deep(o) != f0:
                    raise Mismatch(f"{n1};{n2};{n1} changed the operand: {diff(f0, deep(o))}")
                rec.state(n1, n2)
        with rec.case(op1=n1, all=True):
            rec.step()
            if deep(ops) != all0:
                raise Mismatch(f"an operand changed by {n1} in combination with another operation: {diff(all0, deep(ops))}")
    rec.outcome("pairs")
    rec.sample({"group": group, "ops": list(U)[:5]})


def mutators(x):
    """ways in which a user may change a container in place"""

    def m_iloc(s):
        s.iloc[0] = s.iloc[0] * 3 + s.iloc[0]

    def m_all(s):
        s[:] = s * 2

    def m_isub(s):
        s *= 5

    def m_values(s):
        v = s.values
        if hasattr(v, "_data"):
            v = v._data
            v = getattr(v, "_ndarray", v)
        v = np.asarray(v)
        v[0] = 12345.0

    def m_rename(s):
        s.name = "other"

    def m_index(s):
        s.index = s.index + pd.Timedelta(days=366)

    def d_set(d):
        d[next(iter(d))] = next(iter(d.values())) if isinstance(d, dict) else d.iloc[:, 0] * 7

    def d_del(d):
        del d[next(iter(d))]

    def d_new(d):
        d["new"] = 3

    def df_iloc(d):
        d.iloc[0, 0] = d.iloc[0, 0] * 9

    def df_loc(d):
        d.loc[:, d.columns[0]] = d[d.columns[0]] * 9

    if isinstance(x, pd.Series):
        return [m_iloc, m_all, m_isub, m_values, m_rename, m_index]
    if isinstance(x, pd.DataFrame):
        return [df_iloc, df_loc, d_set, d_del, d_new, m_index]
    if isinstance(x, dict):
        return [d_set, d_del, d_new]
    if isinstance(x, list):
        return [lambda s: s.clear(), lambda s: s.reverse(), lambda s: s.append(None)]
    return []


def inner(x):
    """all mutable containers inside x"""
    if isinstance(x, dict):
        for v in x.values():
            yield from inner(v)
    if isinstance(x, list):
        for v in x:
            yield from inner(v)
    if isinstance(x, (pd.Series, pd.DataFrame, dict, list)):
        yield x


def constructions(c):
    """name -> (fresh input, constructor)"""
    import portfolyo as pf

    n = CONF[c][4]
    x = window(c, 0, n)
    i = lambda: x.real()
    f = lambda s=5.0: pd.Series([s + k % 4 for k in range(x.n)], i())
    u = lambda col, s=5.0: pfm.pint_series([s + k % 4 for k in range(x.n)], i(), col)
    shared = i()
    C = {}
    for col in "wqpr":
        C["float_" + col] = (lambda col=col: {col: f()}, pf.PfLine)
        C["pint_" + col] = (lambda col=col: {col: u(col)}, pf.PfLine)
        C["series_" + col] = (lambda col=col: u(col), pf.PfLine)
    C["qp"] = (lambda: {"q": u("q"), "p": u("p")}, pf.PfLine)
    C["list"] = (lambda: [u("w"), u("p")], pf.PfLine)
    C["all4"] = (lambda: dict(pfm.build(pfm.make("all", x, 1)).dataframe().items()), pf.PfLine)
    C["df"] = (lambda: pd.DataFrame({"w": u("w"), "p": u("p")}), pf.PfLine)
    C["df_exact"] = (lambda: pfm.build(pfm.make("all", x, 1)).dataframe(), pf.PfLine)
    C["df_one"] = (lambda: pd.DataFrame({"p": u("p")}), pf.PfLine)
    C["df_float"] = (lambda: pd.DataFrame({"w": f(), "p": f(8.0)}), pf.PfLine)
    C["nested"] = (lambda: {"a": {"q": u("q")}, "b": u("w")}, pf.PfLine)
    C["nested_df"] = (lambda: pd.concat({"a": pd.DataFrame({"q": f()}), "b": pd.DataFrame({"q": f(2.0)})}, axis=1), pf.PfLine)
    C["nested_pfl"] = (lambda: {"a": pfm.build(pfm.make("vol", x, 1)), "b": pfm.build(pfm.make("vol", x, 2))}, pf.PfLine)
    C["state"] = (lambda: {"o": u("q"), "u": u("p"), "s": {"q": u("q"), "r": u("r")}}, lambda d: pf.PfState(d["o"], d["u"], d["s"]))
    C["state2"] = (lambda: {"pu": u("p"), "wo": u("w"), "ws": f(), "ps": f()}, lambda d: pf.PfState.from_series(**d))
    C["set_child"] = (lambda: {"q": u("q")}, lambda d: pfm.build(pfm.nest({"a": pfm.make("vol", x, 1)})).set_child("b", d))
    C["plus"] = (lambda: u("q"), lambda s: pfm.build(pfm.make("vol", x, 1)) + s)
    C["times"] = (lambda: f(), lambda s: pfm.build(pfm.make("all", x, 1)) * s)
    C["timesp"] = (lambda: u("p"), lambda s: pfm.build(pfm.make("vol", x, 1)) * s)
    C["union"] = (lambda: u("p"), lambda s: pfm.build(pfm.make("vol", x, 1)) | s)
    return C


def results(c):
    """operations whose (mutable) result a user may change afterwards"""
    pk = None
    R = {
        "dataframe": lambda o: o.dataframe(),
        "dataframe_nu": lambda o: o.dataframe(has_units=False),
        "dataframe_c": lambda o: o.dataframe(["p", "q", "w"]),
        "dataframe_0": lambda o: o.dataframe(childlevels=0),
        "items": lambda o: dict(o.items()),
        "fraction": lambda o: o.sourcedfraction,
        "unfraction": lambda o: o.unsourcedfraction,
        "ratio": lambda o: o / o,
    }
    return R


def run_mutate(group, rec, tier):
    c = group["c"]
    for nm, (make, cons) in constructions(c).items():
        probe = make()
        for k, part in enumerate(inner(probe)):
            for m, _ in enumerate(mutators(part)):
                with rec.case(cons=nm, part=k, mut=m):
                    inp = make()
                    o = cons(inp)
                    before = deep(o)
                    target = list(inner(inp))[k]
                    mut = mutators(target)[m]
                    try:
                        mut(target)
                    except Exception:
                        rec.outcome("mutation not possible")
                        continue
                    rec.step()
                    if deep(o) != before:
                        raise Mismatch(f"object built by {nm} changed by {getattr(mut, '__name__', m)} on its input: {diff(before, deep(o))}")
                    rec.state(nm, k, m)
                    rec.outcome("mutated input")
    ops = operands(c)
    for on in LINES + STATES:
        for nm, fn in results(c).items():
            if call(fn, ops[on])[0] != "ok":
                continue
            probe = fn(ops[on])
            for k, part in enumerate(inner(probe)):
                for m, _ in enumerate(mutators(part)):
                    with rec.case(res=nm, o=on, part=k, mut=m):
                        o = ops[on]
                        before = deep(o)
                        res = fn(o)
                        target = list(inner(res))[k]
                        mut = mutators(target)[m]
                        try:
                            mut(target)
                        except Exception:
                            rec.outcome("mutation not possible")
                        rec.step()
                        after = deep(o)
                        if after != before:
                            ops[on] = operands(c)[on]
                            raise Mismatch(f"{on} changed by {getattr(mut, '__name__', m)} on the result of {nm}: {diff(before, after)}")
                        rec.state(nm, on, k, m)
                        rec.outcome("mutated result")
    rec.sample({"group": group})


def run_assign(group, rec, tier):
    ops = operands(group["c"])
    for on in LINES + STATES:
        o = ops[on]
        before = deep(o)
        for attr in ("df", "children", "kind", "structure", "index", "w", "q", "p", "r", "volume", "price", "offtakevolume", "unsourcedprice", "sourced", "unsourced", "new_attribute", "a"):
            with rec.case(o=on, attr=attr):
                rec.raises(lambda: setattr(o, attr, 5), f"{on}.{attr} = 5")
                rec.raises(lambda: delattr(o, attr), f"del {on}.{attr}")
                rec.step()
                if deep(o) != before:
                    raise Mismatch(f"{on} changed")
                rec.state(on, attr)
        for key in ("a", "w", 0):
            with rec.case(o=on, key=key):
                rec.raises(lambda: operator.setitem(o, key, 5), f"{on}[{key!r}] = 5")
                rec.raises(lambda: operator.delitem(o, key), f"del {on}[{key!r}]")
                rec.step()
                if deep(o) != before:
                    raise Mismatch(f"{on} changed")
        for nm, fn in {"iadd": operator.iadd, "isub": operator.isub, "imul": operator.imul, "itruediv": operator.itruediv, "ior": operator.ior}.items():
            for other in ("num", "ser", "pri", "vol", "pfs", on):
                with rec.case(o=on, aug=nm, other=other):
                    call(fn, o, ops[other])
                    rec.step()
                    if deep(o) != before:
                        raise Mismatch(f"{on} changed by augmented assignment {nm} with {other}")
                    rec.outcome("augmented")
    rec.sample({"group": group})
