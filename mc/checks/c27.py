"""C27: exports contain every value exactly once, under the right label."""

import contextlib
import datetime as dt
import io
import itertools
import os
import re
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import cal, pfm, pfsm, real
from ..engine import Mismatch

PROP = "C27"
TECHNIQUE = "exhaustive enumeration of all kinds x structures x column subsets x child levels x unit flag, and of all index lengths x number of timestamps for text output, on the real exports against the reference model"
EXPLANATION = (
    "Every portfolio line (all kinds, and structures of up to 9 levels) and portfolio state is exported as dataframe for every"
    " subset of columns, number of child levels and unit flag; every column must appear exactly once, under its path, with the"
    " model values, and is read back.  Excel files are written to a scratch folder and read cell by cell; clipboard text is"
    " captured and parsed.  Text output is parsed for every length of the index and every number of timestamps, with and without"
    " color, and its tree structure, rows and numbers are compared with the object."
)
ASSUMPTIONS = [
    "text output shows numbers with 1 (w), 0 (q, r) or 2 (p) decimals",
    "text output of n > k timestamps has k rows, incl. the row with dots",
    "the clipboard itself is replaced by a recorder",
]
CONF = [
    ("Europe/Berlin", "MS", "00:00", "2020-02-01"),
    (None, "h", "00:00", "2020-03-28"),
    ("America/New_York", "D", "06:00", "2020-03-06"),
    ("Asia/Kolkata", "QS", "05:00", "2020-01-01"),
    ("Europe/Berlin", "15min", "00:00", "2020-10-25"),
    ("UTC", "YS", "00:00", "2019-01-01"),
]
SHAPES = ["flat", "one", "two", "deep", "chain", "names"]


def shape(kind, x, s, seed=0, zero=False):
    f = lambda k: pfm.make(kind, x, seed + k, zero_q=zero)
    if s == "flat":
        return f(0)
    if s == "one":
        return pfm.nest({"a": f(0)})
    if s == "two":
        return pfm.nest({"a": f(0), "b": f(1)})
    if s == "deep":
        return pfm.nest({"a": f(0), "b": pfm.nest({"a": f(1), "c": pfm.nest({"d": f(2), "a": f(0)})}), "z": pfm.nest({"y": f(3)})})
    if s == "names":
        return pfm.nest({"Sourced": f(0), "unit MW": pfm.nest({"B (2)": f(1), "a": f(2)}), "Ümlaut/x": f(3)})
    m = f(0)  # chain
    for k in range(8):
        m = pfm.nest({f"l{k}": m, "o": f(k % 3)})
    return m


def win(c, n):
    """n periods; for (quarter)hourly data: n // 3 + 1 days"""
    tz, freq, sod, start = CONF[c]
    if freq in ("h", "15min"):
        d = dt.date.fromisoformat(start)
        a, b = (cal.combine(t, sod, tz) for t in (d, d + dt.timedelta(days=n // 3 + 1 if freq == "h" else 1)))
        n = (b - a) // (3600 if freq == "h" else 900)
    return pfm.ix(tz, freq, sod, start, n)


def groups(tier):
    n = len(CONF) if tier == "thorough" else 4
    out = [{"part": "df", "c": c, "k": k, "s": s} for c in range(n) for k in pfm.KINDS for s in SHAPES if tier == "thorough" or s != "chain" or c == 0]
    out += [{"part": "file", "c": c, "k": k, "s": s} for c in range(len(CONF)) for k in pfm.KINDS for s in SHAPES if tier == "thorough" or s not in ("chain", "one")]
    out += [{"part": "text", "c": c, "k": k, "s": s} for c in range(len(CONF)) for k in pfm.KINDS for s in SHAPES if tier == "thorough" or (c < 4 and (s != "chain" or c == 0))]
    out += [{"part": "pfs", "what": w, "c": c, "o": o} for w in ("df", "file", "text") for c in range(len(CONF) if tier == "thorough" else 4) for o in range(4)]
    return out


# ---- dataframe


def paths(m, levels=-1, path=()):
    """-> path, model of every portfolio line with data"""
    yield path, m
    if m.nested and levels != 0:
        for n, ch in m.children.items():
            yield from paths(ch, levels - 1, (*path, n))


def strip(label):
    t = [label] if not isinstance(label, tuple) else list(label)
    while t and t[-1] == "":
        t.pop()
    return tuple(t)


def want(m, cols, levels):
    """-> {path: (column, values, skip)}"""
    out = {}
    for path, sub in paths(m, levels):
        for c in pfm.COLS[sub.kind]:
            if c in cols:
                skip = [q == 0 for q in sub.data["q"]] if c == "p" and sub.kind == "all" else [False] * sub.ix.n
                out[(*path, c)] = (c, sub.col(c), skip)
    return out


def cmp_frame(df, exp, x, units):
    if not isinstance(df, pd.DataFrame):
        raise Mismatch(f"{type(df)}")
    pfm.cmp_index(df.index, x, "index of dataframe")
    labels = [strip(c) for c in df.columns]
    if sorted(labels) != sorted(exp):
        raise Mismatch(f"columns {labels}, expected {list(exp)}")
    for k, label in enumerate(labels):
        c, vals, skip = exp[label]
        s = df.iloc[:, k]
        if units:
            pfm.cmp_series(s, vals, c, None, str(label), skip)
            continue
        if not pd.api.types.is_float_dtype(s.dtype) or hasattr(s.dtype, "units"):
            raise Mismatch(f"{label}: dtype {s.dtype} without units")
        for j, (a, b) in enumerate(zip(s.values, vals)):
            if not skip[j] and not real.close(float(a), float(b), abs_=1e-8):
                raise Mismatch(f"{label}[{j}]: {a} != {b}")


SUBSETS = [None] + ["".join(t) for r in range(1, 5) for t in itertools.combinations("wqpr", r)]
DETERMINED = {"vol": lambda c: "w" in c or "q" in c, "pri": lambda c: "p" in c, "rev": lambda c: "r" in c, "all": lambda c: ("w" in c or "q" in c) + ("p" in c) + ("r" in c) >= 2}


def read_back(pfl, m, df, path, what):
    import portfolyo as pf

    got = pf.PfLine(df)
    pfm.same(got, pfl.flatten(), f"{what}: dataframe read back")


def run_df(group, rec, tier):
    for n, zero in ((3, False), (2, True)) if tier == "quick" else ((1, False), (3, False), (5, True)):
        x = win(group["c"], n)
        m = shape(group["k"], x, group["s"], 1, zero)
        pfl = pfm.build(m)
        fp = pfm.fingerprint(pfl)
        for nr, cols in enumerate(SUBSETS):
            for form in range(3):
                if form and (cols is None or (tier == "quick" and (nr + form) % 3)):
                    continue
                arg = cols if form == 0 else list(cols)[::-1] if form == 1 else ("x", *cols, "wq")
                for units in (True, False):
                    for lev in (None,) if not m.nested else (None, -1, 0, 1, 2, 3):
                        if tier == "quick" and cols is not None and m.nested and (nr + units + (lev or 5)) % (5 if group["s"] == "chain" else 3):
                            continue
                        with rec.case(n=n, zero=zero, cols=cols, form=form, units=units, levels=lev):
                            kw = {} if lev is None else {"childlevels": lev}
                            df = pfl.dataframe(arg, units, **kw) if nr % 2 else pfl.dataframe(cols=arg, has_units=units, **kw)
                            rec.step()
                            exp = want(m, cols or "wqpr", -1 if lev is None else lev)
                            cmp_frame(df, exp, x, units)
                            if lev == 0 or not m.nested:
                                if [strip(c) for c in df.columns] != [(c,) for c in (arg or "wqpr") if (c,) in exp]:
                                    raise Mismatch(f"order of columns {list(df.columns)} for {arg}")
                                if DETERMINED[group["k"]](cols or "wqpr") and (not zero or cols is None) and form != 2:
                                    read_back(pfl, m, df, (), "line")
                            elif lev is None and cols is None:
                                for path, sub in paths(m):
                                    p = pfl
                                    for name in path:
                                        p = p[name]
                                    part = pd.DataFrame({c: df[(*path, c, *[""] * (df.columns.nlevels - len(path) - 1))] for c in pfm.COLS[sub.kind]})
                                    read_back(p, sub, part, path, str(path))
                            rec.state(m.key(), cols, units, lev)
        with rec.case(n=n, unchanged=True):
            df = pfl.dataframe()
            for k in range(df.shape[1]):
                df.iloc[0, k] = df.iloc[0, k] * 3
            if fp != pfm.fingerprint(pfl):
                raise Mismatch("exporting, or changing the exported frame, changes the portfolio line")


# ---- files


@contextlib.contextmanager
def clipboard():
    import pandas.io.clipboard as cb

    old, got = cb.clipboard_set, []
    cb.clipboard_set = got.append
    try:
        yield got
    finally:
        cb.clipboard_set = old


def grid_of_excel(path, sheet):
    import openpyxl

    wb = openpyxl.load_workbook(path)
    if wb.sheetnames != [sheet]:
        raise Mismatch(f"sheets {wb.sheetnames}")
    ws = wb[sheet]
    grid = [[c.value for c in row] for row in ws.iter_rows()]
    for rng in ws.merged_cells.ranges:
        for r in range(rng.min_row, rng.max_row + 1):
            for c in range(rng.min_col, rng.max_col + 1):
                grid[r - 1][c - 1] = ws.cell(rng.min_row, rng.min_col).value
    return grid


def isdate(v):
    if hasattr(v, "year"):
        return True
    return isinstance(v, str) and re.match(r"\d{4}-\d\d-\d\d", v) is not None


def cmp_grid(grid, exp, x, header=True):
    """header rows, then rows that start with timestamp"""
    rows = [r for r in grid if isdate(r[0])]
    head = [r for r in grid if not isdate(r[0])]
    if len(rows) != x.n:
        raise Mismatch(f"{len(rows)} rows, expected {x.n}")
    for r, s in zip(rows, x.starts):
        e = real.stamp(s, x.tz).tz_localize(None)
        if pd.Timestamp(r[0]) != e:
            raise Mismatch(f"timestamp {r[0]}, expected {e}")
    if not header:
        return
    cols = {}
    for k in range(1, len(rows[0])):
        t = [h[k] for h in head]
        t = [v for v in t if v not in ("", None)]
        if not t:
            raise Mismatch(f"column {k} has no label")
        *path, unit = t
        if tuple(path) in cols:
            raise Mismatch(f"column {path} found twice")
        cols[tuple(path)] = unit, [r[k] for r in rows]
    if set(cols) != set(exp):
        raise Mismatch(f"columns {list(cols)}, expected {list(exp)}")
    for label, (c, vals, skip) in exp.items():
        unit, got = cols[label]
        if not real.unit_is(unit, real.UNIT[c]):
            raise Mismatch(f"{label}: unit {unit}")
        for j, (a, b) in enumerate(zip(got, vals)):
            if not skip[j] and not real.close(float(a), float(b), abs_=1e-8, rel=1e-9):
                raise Mismatch(f"{label}[{j}]: {a} != {b}")


def run_file(obj, exp, x, rec, key):
    d = tempfile.mkdtemp(prefix="c27")
    try:
        for nr, (kw, sheet) in enumerate((({}, "Sheet1"), ({"sheet_name": "Portfolio"}, "Portfolio"))):
            for pos in (False, True):
                with rec.case(key=key, excel=nr, pos=pos):
                    path = os.path.join(d, f"f{nr}{pos}.xlsx")
                    if pos:
                        obj.to_excel(path, *kw.values())
                    else:
                        obj.to_excel(path, **kw)
                    rec.step()
                    cmp_grid(grid_of_excel(path, sheet), exp, x)
                    rec.state(key, nr)
    finally:
        shutil.rmtree(d)
    for kw, sep in (({}, "\t"), ({"sep": ";"}, ";"), ({"excel": True, "sep": "\t"}, "\t")):
        with rec.case(key=key, clipboard=str(kw)):
            with clipboard() as got:
                obj.to_clipboard(**kw)
            rec.step()
            if len(got) != 1:
                raise Mismatch(f"clipboard filled {len(got)} times")
            grid = [line.split(sep) for line in got[0].replace("\r", "").split("\n") if line]
            cmp_grid(grid, exp, x)


# ---- text

ANSI = re.compile(r"\x1b\[[0-9;]*m")
TREE = "─●├└│"
ROW = re.compile(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)( [+-]\d{4})?(.*)")
DEC = {"w": 1, "q": 0, "p": 2, "r": 0}


def lines_of(obj, cols, path, depth, only):
    """-> name, depth, portfolio line, columns, only"""
    yield path, depth, obj, cols, only
    import portfolyo as pf

    if obj.structure is pf.Structure.NESTED:
        for n in obj:
            yield from lines_of(obj[n], cols, n, depth + 1, len(obj) == 1)


def number(v, c):
    return "" if np.isnan(v) else f"{v:,.{DEC[c]}f}".replace(",", "")


def cmp_rows(rows, pfl, cols, k, what):
    n = len(pfl.index)
    stamps = [ts.strftime("%Y-%m-%d %H:%M:%S %z").strip() for ts in pfl.index]
    vals = {c: real.mags(getattr(pfl, c)) for c in cols}
    full = [stamps[j] + "|" + "".join(number(vals[c][j], c) for c in cols) for j in range(n)]
    dots = ".." * (len(cols) + 1)
    if n <= k:
        if rows != full:
            raise Mismatch(f"{what}: rows {rows}, expected {full}")
        return
    if rows.count(dots) != 1:
        raise Mismatch(f"{what}: {rows} without dots for {n} timestamps of which {k} must be shown")
    a = rows.index(dots)
    b = len(rows) - a - 1
    if a + b + 1 != max(k, 1) or not 0 <= a - b <= 1:
        raise Mismatch(f"{what}: {a} rows before and {b} after the dots; {k} must be shown")
    if rows[:a] != full[:a] or rows[a + 1 :] != full[n - b :]:
        raise Mismatch(f"{what}: rows {rows}, expected first and last rows of {full}")


def cmp_text(txt, obj, tops, x, k, flatten, kindtext):
    """tops: [(name, portfolio line, columns)]"""
    txt = ANSI.sub("", txt)
    lines = txt.split("\n")
    head = [line for line in lines if line.startswith(". ")]
    start, end = real.stamp(x.bounds[0], x.tz), real.stamp(x.bounds[-1], x.tz)
    for line, words in (("Start", [str(start), f"Timezone    : {x.tz or 'none'}"]), ("End", [str(end), f"Start-of-day: {x.sod}:00"]), ("Freq", [f"({x.n} datapoints)"])):
        found = [h for h in head if line in h.split(":")[0]]
        if len(found) != 1 or any(w not in found[0] for w in words):
            raise Mismatch(f"header {found}, expected {words}")
    if kindtext not in lines[0]:
        raise Mismatch(f"first line {lines[0]}, expected {kindtext}")
    first = max(i for i, line in enumerate(lines) if line.startswith(". "))
    cols = max((t[2] for t in tops), key=len)
    if lines[first + 1].split() != cols or lines[first + 2].split() != [real.UNIT[c] for c in cols]:
        raise Mismatch(f"column header {lines[first + 1 : first + 3]}, expected {cols}")
    body = lines[first + 3 :]
    # blocks
    blocks, cur = [], None
    if flatten:
        cur = [None, 0, []]
        blocks.append(cur)
    for line in body:
        clean = line.strip("".join([*TREE, " "]))
        if not clean:
            continue
        hit = ROW.match(clean)
        if hit:
            cur[2].append((hit[1] + (hit[2] or "")).strip() + "|" + re.sub(r"\s", "", hit[3]))
        elif clean.startswith(".."):
            cur[2].append(re.sub(r"\s", "", clean))
        elif clean.startswith("(only contributor"):
            cur[2].append("only")
        else:
            pos = [i for i, ch in enumerate(line) if ch in "├└"]
            if len(pos) > 1 or (not pos and line[0] != "─"):
                raise Mismatch(f"line {line!r} does not fit in tree")
            cur = [clean, pos[0] if pos else 0, []]
            blocks.append(cur)
    expect = []
    for name, pfl, cols in tops:
        expect.extend([(None, 0, pfl, cols, False)] if flatten else lines_of(pfl, cols, name, 0, False))
    if [(b[0], b[1]) for b in blocks] != [(e[0], e[1]) for e in expect]:
        raise Mismatch(f"tree {[(b[0], b[1]) for b in blocks]}, expected {[(e[0], e[1]) for e in expect]}")
    for (name, _, rows), (_, _, pfl, cols, only) in zip(blocks, expect):
        if only and rows == ["only"]:
            continue
        cmp_rows(rows, pfl, cols, k, name)


def printed(obj, **kw):
    with contextlib.redirect_stdout(io.StringIO()) as f:
        obj.print(**kw)
    return f.getvalue().rstrip("\n")


KINDTEXT = {"vol": "volume", "pri": "price", "rev": "revenue", "all": "complete"}


def run_text(group, rec, tier):
    kd = KINDTEXT[group["k"]]
    cols = pfm.COLS[group["k"]]
    ks = range(0, 10)
    lengths = (1, 2, 3, 4, 5, 6, 7, 9) if tier == "thorough" else (1, 2, 3, 5, 6, 8)
    short = CONF[group["c"]][1] in ("h", "15min")
    if short:
        lengths = (1, 3)
        ks = [*ks, 23, 24, 25, 46, 47, 48, 50, 51, 99, 100, 101]
    for n in lengths:
        x = win(group["c"], n)
        m = shape(group["k"], x, group["s"], n, n == 3).scale((1000.5, -3.25, 1e7)[n % 3])
        pfl = pfm.build(m)
        for k in ks:
            if tier == "quick" and (group["c"] + n + k) % 2 and k > 2 and k not in (n, n + 1):
                continue
            if tier == "quick" and group["s"] in ("deep", "chain", "names") and (k % 4 > 1 if short else k > n + 2):
                continue
            for flatten in (False, True):
                with rec.case(n=n, num=k, flatten=flatten):
                    plain = printed(pfl, num_of_ts=k, flatten=flatten, color=False)
                    rec.step()
                    cmp_text(plain, pfl, [("(this pfline)", pfl, cols)], x, k, flatten, kd)
                    if (n + k) % (2 if tier == "thorough" else 5) == 1:
                        if ANSI.sub("", printed(pfl, flatten=flatten, num_of_ts=k)) != plain:
                            raise Mismatch("text with color differs")
                    rec.state(m.key(), k, flatten)
        with rec.case(n=n, defaults=True):
            cmp_text(printed(pfl), pfl, [("(this pfline)", pfl, cols)], x, 5, False, kd)
            cmp_text(repr(pfl), pfl, [("", pfl, cols)], x, 20, True, kd)
            if str(pfl) != repr(pfl):
                raise Mismatch("str differs from repr")
    for n in () if short else (20, 21, 22, 45) if tier == "quick" else (19, 20, 21, 22, 39, 41, 45):
        with rec.case(repr=n):
            x = win(group["c"], n)
            pfl = pfm.build(shape(group["k"], x, "flat" if group["s"] == "chain" else group["s"], 2))
            cmp_text(repr(pfl), pfl, [("", pfl, cols)], x, 20, True, kd)
            rec.step()
            if n == 45:
                for k in (1, 2, 4, 22, 23, 44, 45, 46):
                    cmp_text(printed(pfl, num_of_ts=k), pfl, [("(this pfline)", pfl, cols)], x, k, False, kd)


# ---- states


def run_pfs(group, rec, tier):
    off, src, zero = [("flat", "none", False), ("nested", "nested", False), ("flat", "nested", False), ("nested", "flat", True)][group["o"]]
    lengths = {"df": (3,), "file": (2,), "text": (1, 3, 6)}[group["what"]]
    for n in lengths:
        x = win(group["c"], n)
        m = pfsm.make(x, 1, off, src, zero)
        pfs = pfsm.build(m)
        pfsm.compare(pfs, m)

        def expected(cols):
            uns = m.unsourced()
            pnl = pfm.MP("all", x, {c: [a + b for a, b in zip(m.src.data[c], uns.data[c])] for c in "qr"})
            exp = {}
            for name, mod in (("offtakevolume", m.off), ("sourced", m.src), ("unsourced", uns), ("pnl_cost", pnl)):
                for path, v in want(mod, cols, -1).items():
                    exp[(name, *path)] = v
            return exp

        if group["what"] == "df":
            for nr, cols in enumerate(SUBSETS):
                for units in (True, False):
                    if tier == "quick" and cols and (nr + units + group["c"]) % 2:
                        continue
                    with rec.case(n=n, cols=cols, units=units):
                        df = pfs.dataframe(cols, has_units=units)
                        rec.step()
                        cmp_frame(df, expected(cols or "wqpr"), x, units)
                        rec.state(m.key(), cols, units)
                    if cols is not None and (tier == "thorough" or nr % 4 == 1):
                        with rec.case(n=n, cols=cols, units=units, form="list"):
                            cmp_frame(pfs.dataframe(cols=list(cols), has_units=units), expected(cols), x, units)
        elif group["what"] == "file":
            run_file(pfs, expected("wqpr"), x, rec, [n, off, src])
        else:
            for k in range(0, 9) if tier == "thorough" else (0, 1, 2, 3, 5, 6, 7):
                with rec.case(n=n, num=k):
                    tops = [("offtake", pfs.offtakevolume, ["w", "q"]), ("pnl_cost", pfs.pnl_cost, ["w", "q", "p", "r"])]
                    plain = printed(pfs, num_of_ts=k, color=False)
                    rec.step()
                    cmp_text(plain, pfs, tops, x, k, False, "PfState")
                    if k % 3 == 0 and ANSI.sub("", printed(pfs, num_of_ts=k)) != plain:
                        raise Mismatch("text with color differs")
                    if k == 5 and repr(pfs) != plain:
                        raise Mismatch("repr differs from printed text")
                    rec.state(m.key(), k)


def run(group, rec, tier):
    p = group["part"]
    if p == "df":
        run_df(group, rec, tier)
    elif p == "text":
        run_text(group, rec, tier)
    elif p == "pfs":
        run_pfs(group, rec, tier)
    else:
        for n, zero in ((1, False), (3, True)):
            x = win(group["c"], n)
            m = shape(group["k"], x, group["s"], 2, zero)
            run_file(pfm.build(m), want(m, "wqpr", -1), x, rec, [n, zero])
