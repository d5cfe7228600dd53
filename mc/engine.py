"""Explorer core: exhaustive enumeration of groups of cases over worker processes.

A check module defines

* ``PROP``           - property id;
* ``groups(tier)``   - finite list of JSON-able group descriptors (the outer enumeration);
* ``run(group, rec, tier)`` - enumerates every case / operation sequence of one group on the real
  code, comparing with the reference model, and reports to ``rec``.

Nothing is sampled: the set of cases is a pure function of (tier).  Every case has an id (JSON) that is
enough to re-run exactly that case.  ``rec`` counts

* states       - distinct canonical result states (hash of canonical observation);
* transitions  - calls of the real code whose result was compared with the model;
* traces       - complete model traces (case histories) replayed on the implementation.
"""

from __future__ import annotations

import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import sys
import time
import traceback
import warnings

from .bounds import BOUNDS

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"
MAX_FAILS_PER_GROUP = 25


def jkey(obj) -> str:
    return json.dumps(obj, sort_keys=True, default=str)


class Mismatch(AssertionError):
    """Implementation and model disagree."""


class Rec:
    """Recorder for one group."""

    def __init__(self, group, only_case=None):
        self.group = group
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.fails = []
        self.nfails = 0
        self.samples = []
        self.only_case = only_case
        self._case = None

    # --- reporting -------------------------------------------------------
    def state(self, *canon) -> bool:
        """Register canonical state; True if new."""
        h = hashlib.blake2b(jkey(canon).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n: int = 1):
        self.transitions += n

    def outcome(self, tag: str):
        self.outcomes[tag] += 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, msg: str, case=None):
        self.nfails += 1
        if len(self.fails) < MAX_FAILS_PER_GROUP:
            self.fails.append(
                {"group": self.group, "case": case if case is not None else self._case, "msg": str(msg)[:1500]}
            )

    def expect(self, ok, msg):
        """Compare; one transition."""
        self.transitions += 1
        if not ok:
            self.fail(msg() if callable(msg) else msg)
        return ok

    @contextlib.contextmanager
    def case(self, **ident):
        """One case: unexpected exceptions are disagreements (the model said: works)."""
        self._case = ident
        self.traces += 1
        try:
            yield
        except Mismatch as e:
            self.fail(str(e))
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:  # model predicts no error
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in tb[-4:])
            self.fail(f"unexpected {type(e).__name__}: {e} [{where}]")
        finally:
            self._case = None

    # --- helpers ---------------------------------------------------------
    def raises(self, fn, what: str, exc=Exception):
        """fn() must raise (any exception in ``exc``)."""
        self.transitions += 1
        try:
            res = fn()
        except exc:
            self.outcomes["rejected"] += 1
            return True
        except Exception as e:
            raise Mismatch(f"{what}: expected {exc}, got {type(e).__name__}: {e}")
        try:
            shown = str(res)[:300]
        except Exception:
            shown = f"{type(res).__name__} (without text representation)"
        raise Mismatch(f"{what}: expected an error, got {shown}")


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def _run_group(args):
    modname, group, tier, only_case = args
    warnings.simplefilter("ignore")
    mod = importlib.import_module(modname)
    rec = Rec(group, only_case)
    t0 = time.time()
    try:
        with contextlib.redirect_stdout(_Null()):  # libraries print debug output
            mod.run(group, rec, tier)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in tb[-5:])
        rec.fail(f"group aborted by unexpected {type(e).__name__}: {e} [{where}]", case={"abort": True})
    return {
        "group": group,
        "states": rec.states,
        "transitions": rec.transitions,
        "traces": rec.traces,
        "outcomes": dict(rec.outcomes),
        "fails": rec.fails,
        "nfails": rec.nfails,
        "samples": rec.samples,
        "wall": time.time() - t0,
    }


def load_known(prop):
    if not KNOWN.exists():
        return []
    data = json.loads(KNOWN.read_text())
    return [k for k in data.get("findings", []) if k["property"] == prop]


def digest(result) -> str:
    h = hashlib.blake2b(digest_size=8)
    for s in sorted(result["states"]):
        h.update(s)
    h.update(jkey([result["transitions"], result["traces"], result["outcomes"]]).encode())
    return h.hexdigest()


def run_check(modname: str, tier: str, nproc: int | None = None) -> int:
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROP
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nproc = nproc or min(8, os.cpu_count() or 1)
    groups = list(mod.groups(tier))
    # The first group is executed twice: same schedule -> identical observations.
    tasks = [(modname, g, tier, None) for g in groups] + [(modname, groups[0], tier, None)]
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=None) as pool:
        results = pool.map(_run_group, tasks, chunksize=1)
    rerun = results.pop()
    deterministic = digest(rerun) == digest(results[0])

    states, transitions, traces = set(), 0, 0
    outcomes = collections.Counter()
    fails, nfails, samples = [], 0, []
    for r in results:
        states |= r["states"]
        transitions += r["transitions"]
        traces += r["traces"]
        outcomes.update(r["outcomes"])
        fails += r["fails"]
        nfails += r["nfails"]
        samples += r["samples"]
    slow = sorted(results, key=lambda r: -r["wall"])[:3]

    known = load_known(prop)
    new, seen_known = [], {}
    for f in fails:
        k = next(
            (k for k in known if jkey(k["case"]) == jkey([f["group"], f["case"]]) and k["match"] in f["msg"]), None
        )
        if k is None:
            new.append(f)
        else:
            seen_known[k["id"]] = k
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    EVIDENCE.mkdir(exist_ok=True)
    nviol = len(new) + max(0, nfails - len(fails))
    rc = 0
    if new:
        rdir = EVIDENCE / "replay"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}.json"
        path.write_text(
            json.dumps({"property": prop, "module": modname, "tier": tier, "violations": new[:20]}, indent=1, default=str)
        )
        for f in new[:5]:
            print(f"  case {jkey(f['group'])} {jkey(f['case'])}\n    {f['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif not deterministic:
        print(f"  group {jkey(groups[0])} executed twice gave different observations")
        print(f"VIOLATION property={prop} replay=none")
        nviol += 1
        rc = 1

    step = max(1, len(samples) // 12)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples[::step][:12] or [jkey(groups[0])],
            "groups": len(groups),
            "distinct_outcome_tags": dict(outcomes.most_common(40)),
            "exhaustive": True,
            "bounds": BOUNDS[prop][0] if tier == "quick" else f"quick: {BOUNDS[prop][0]}; in addition: {BOUNDS[prop][1]}",
            "explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
            "same_group_twice_identical": deterministic,
            "known_findings_seen": sorted(seen_known),
            "slowest_groups_s": [[jkey(r["group"])[:160], round(r["wall"], 2)] for r in slow],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": nviol,
        "wall_s": round(time.time() - t0, 2),
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(
        f"{prop} {tier}: groups={len(groups)} states={len(states)} transitions={transitions}"
        f" traces={traces} outcomes={len(outcomes)} violations={nviol} wall={ev['wall_s']}s"
    )
    return rc


def replay(path: str) -> int:
    """Re-run only the groups of the recorded violations, print the ones that still fail."""
    data = json.loads(pathlib.Path(path).read_text())
    todo, bad = {}, 0
    for v in data["violations"]:
        todo.setdefault(jkey(v["group"]), (v["group"], set()))[1].add(jkey(v["case"]))
    for group, cases in todo.values():
        r = _run_group((data["module"], group, data["tier"], None))
        for f in r["fails"]:
            if jkey(f["case"]) in cases:
                bad += 1
                print(f"  case {jkey(f['group'])} {jkey(f['case'])}\n    {f['msg']}")
    if bad:
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def main(argv=None):
    import argparse

    p = argparse.ArgumentParser()
    p.add_argument("what", help="property id, or 'replay'")
    p.add_argument("path", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    p.add_argument("--nproc", type=int)
    a = p.parse_args(argv)
    if a.what == "replay":
        return replay(a.path)
    sys.stdout.reconfigure(line_buffering=True)
    return run_check(f"mc.checks.{a.what.lower()}", a.tier, a.nproc)

