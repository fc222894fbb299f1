"""Decides one property on the current tree of /repo."""
import argparse
import collections
import glob
import json
import os
import random
import shlex
import shutil
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

import build
import profiles
import run
import tlc
from cases import dumpable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 12           # rejected cases looked at

# Cases of a quick run, cases of one batch of a thorough run.
QUICK = collections.defaultdict(lambda: 220)
QUICK.update(P01=250, P03=120, P04=300, P05=250, P07=500, P08=120, P09=200, P16=250, P18=90, P19=60, P21=900, P22=250, P23=120)
THOROUGH_S = 600
MODEL_S = 300          # of a thorough run: seconds for the small worlds
EVERY = int(os.environ.get("VERIF_EVERY") or 3)     # the properties of the specification are evaluated on every EVERY-th case
SAN = {"P21"}


class ModelError(Exception):
    pass


def make_cases(args):
    prop, seed, lo, hi = args
    return [profiles.make(prop, random.Random("%s-%d-%d" % (prop, seed, i)), i + 1) for i in range(lo, hi)]


def generate(prop, seed, lo, hi):
    step = max(10, (hi - lo + 7) // 8)
    parts = [(prop, seed, a, min(hi, a + step)) for a in range(lo, hi, step)]
    with ProcessPoolExecutor(min(8, len(parts))) as ex:
        return [c for q in ex.map(make_cases, parts) for c in q]


def canary(case):
    """A run with one finding too many, which must be rejected."""
    c = dict(case, id=0)
    o = dict(c["obs"])
    if c.get("free"):
        o["exit"] = 77
    else:
        o["findings"] = o["findings"] + [{"f": "canary.te", "l": 99999, "id": i, "w": ["canary"], "sev": i[0]}
                                         for i in ("W-001", "W-002", "W-005", "C-005", "S-009", "C-001", "S-001", "W-004", "S-006")]
        o["exit"] = 77
    c["obs"] = o
    return c


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.san = prop in SAN
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.counts = collections.Counter()
        self.exits = collections.Counter()
        self.samples = []
        self.nontrivial = 0
        self.violations = []     # (case, diff)
        self.known = []
        self.models = []         # small worlds run
        self.model_seconds = MODEL_S
        self.edit_seconds = MODEL_S / 2

    def elapsed(self):
        return time.time() - self.t0

    # ---- conformance
    def observe(self, cases, timeout=10):
        obs = run.run_all(self.exe, cases, self.work, timeout=timeout, san=self.san)
        cases = cases[:len(obs)]
        for c, o in zip(cases, obs):
            c["obs"] = o
        return cases

    def tlc_trace(self, cases, with_canary=False, prop=None, every=0):
        q = ([canary(cases[0])] if with_canary else []) + cases
        r = tlc.trace_check(q, prop or self.prop, self.work, dumpable, limit=LIMIT + 1, every=every)
        if r["broken"]:
            raise ModelError("the specification breaks a property: %s" % r["broken"][:3])
        if not (r["killed"] or (r["finished"] and r["rc"] in (0, 10))):
            raise ModelError("TLC failed (%s)\n%s" % (r["rc"], "".join(x for x in r["out"] if not x.startswith("Lint"))[-3000:]))
        rej = {}
        for x in r["rejects"]:
            rej.setdefault(x["case"], x["diff"])
        if with_canary:
            if not rej.pop(0, None) and not r["killed"]:
                raise ModelError("the specification accepted a falsified run")
        return r, rej

    def conform(self, cases, prop=None, with_canary=True):
        """Run the cases and compare; collects violations.  True if there are none."""
        cases = self.observe(cases)
        r, rej = self.tlc_trace(cases, with_canary, prop, EVERY)
        self.states += r["distinct"]
        self.trans += r["states"]
        self.traces += len(cases)
        for c in cases:
            self.exits[c["obs"]["exit"]] += 1
            ids = collections.Counter(f["id"] for f in c["obs"]["findings"])
            self.counts.update(ids)
            self.nontrivial += bool(ids)
        if len(self.samples) < 2:
            small = sorted((c for c in cases if c["obs"]["findings"] or c["obs"]["exit"]), key=lambda c: sum(len(f["text"]) for f in c["files"]))
            self.samples += [self.describe(c) for c in small[len(small) // 4:][:2]]
        if not rej:
            return True
        # a rejection counts if a second run of the program repeats it
        byid = {c["id"]: c for c in cases}
        again = [dict(byid[i]) for i in list(rej)[:LIMIT]]
        for _ in range(3):
            again = self.observe(again, timeout=30)
            _, rej2 = self.tlc_trace(again, False, prop)
            if rej2:
                for c in again:
                    if c["id"] in rej2:
                        self.violations.append((c, rej2[c["id"]], prop or self.prop))
                return False
        print("note: a rejection was not repeated: %s" % json.dumps(list(rej.values())[0])[:500])
        return True

    def describe(self, c):
        return {"command": "selint " + shlex.join(run.command_line(c))[:500],
                "files": {p: c["files"][c["tree"][i - 1]["fid"] - 1]["text"][:700] for i, p in sorted(run.entry_paths(c).items()) if c["tree"][i - 1]["fid"]},
                "exit": c["obs"]["exit"],
                "findings": ["%s:%d %s" % (f["f"], f["l"], f["id"]) for f in c["obs"]["findings"][:20]]}

    # ---- findings that are known and not repaired
    def known_cases(self):
        for path in sorted(glob.glob(os.path.join(ROOT, "known", self.prop + "-*.json"))):
            k = json.load(open(path))
            c = k["case"]
            c["id"] = 1
            c = self.observe([c])[0]
            _, rej = self.tlc_trace([c])
            if not rej:
                continue
            if sorted(map(json.dumps, rej[1])) == sorted(map(json.dumps, k["diff"])):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                self.known.append(k["what"])
            else:
                self.violations.append((c, rej[1], self.prop))

    # ---- outcome
    def replay_file(self):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay-%s.json" % self.prop)
        c, diff, prop = min(self.violations, key=lambda v: len(json.dumps(v[0])))
        with open(path, "w") as f:
            json.dump({"property": prop, "check": self.prop, "diff": diff, "run": self.describe(c), "output": c["obs"]["out"][:5000], "stderr": c["obs"]["err"][-3000:], "case": c}, f, indent=1)
        return path, diff

    def evidence(self):
        if self.san:
            rule = "generated inputs (well-formed, damaged, huge, deep and odd ones), run with address and undefined behaviour sanitizers"
        else:
            rule = "every text of the scopes of the property (models: TLC enumerates them; quick runs the short ones and a sample), then cases drawn by the profile of the property (lib/profiles.py) from the seed, part of them with changed texts"
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces, "samples": self.samples,
               "runs_with_findings": self.nontrivial, "rule": rule + "; non-trivial: the real run reported a finding",
               "findings_compared_by_check": dict(sorted(self.counts.items())), "exit_statuses": {str(k): v for k, v in sorted(self.exits.items())}}
        if self.models:
            cov["models"] = self.models
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": ["the specification reads the texts of the cases itself (Lexer, Grammar); that it reads what their author meant is compared on every third case",
                             "the order in which a directory lists its entries is recorded from the environment",
                             "messages are read from standard output; TLC evaluates the specification correctly"],
             "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        if self.known:
            cov["known_findings"] = self.known
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def random_traces(self):
        n = QUICK[self.prop]
        ok = self.conform(generate(self.prop, self.seed, 0, n))
        at = n
        while ok and self.tier == "thorough" and time.time() - self.t0 < THOROUGH_S:
            step = max(100, n)
            ok = self.conform(generate(self.prop, self.seed, at, at + step))
            at += step

    def main(self):
        self.work = build.scratch("selint-check-")
        try:
            self.exe = build.build(self.work, sanitize=self.san)
            import models
            self.known_cases()
            models.run(self)
            if not self.violations:
                self.random_traces()
            self.evidence()
            if self.violations:
                path, diff = self.replay_file()
                for d in diff[:8]:
                    print("  " + json.dumps(d)[:300])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                return 1
            print("%s: %d runs conform to the specification (%d states, %.1f s)" % (self.prop, self.traces, self.states, time.time() - self.t0))
            return 0
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    try:
        return Check(a.property, a.tier, a.seed).main()
    except (build.BuildError, ModelError, RuntimeError) as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def replay():
    k = json.load(open(sys.argv[1]))
    ck = Check(k["property"], "quick", 0)
    ck.san = k.get("check", k["property"]) in SAN
    ck.work = build.scratch("selint-check-")
    try:
        ck.exe = build.build(ck.work, sanitize=ck.san)
        c = k["case"]
        c["id"] = 1
        c = ck.observe([c], 30)[0]
        _, rej = ck.tlc_trace([c])
        print(json.dumps(ck.describe(c), indent=1))
        print(c["obs"]["out"][:3000])
        for d in rej.get(1, []):
            print("REJECTED: " + json.dumps(d)[:500])
        return 1 if rej else 0
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)
