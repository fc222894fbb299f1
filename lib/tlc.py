"""Runs TLC on the specification."""
import json
import os
import re
import subprocess
import threading

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, work, env=None, workers="8", extra=(), timeout=800, limit=25, heap="6g", cfg=None, stack="64m"):
    """Run TLC; returns dict(states, distinct, rejects, errors, ok, out)."""
    meta = os.path.join(work, "tlc-%s-%d" % (module, threading.get_ident()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-continue", "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    res = {"states": 0, "distinct": 0, "rejects": [], "violations": 0, "finished": False, "killed": False, "out": [], "lines": [], "broken": []}
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    try:
        for line in p.stdout:
            if line.startswith('"REJECT '):
                try:
                    res["rejects"].append(json.loads(json.loads(line)[len("REJECT "):]))
                except ValueError:
                    res["rejects"].append({"case": 0, "diff": [line.strip()]})
                if len(res["rejects"]) >= limit:
                    res["killed"] = True
                    p.kill()
                    break
                continue
            if line.startswith('"BROKEN '):
                res["broken"].append(line.strip())
            if line.startswith('"'):
                res["lines"].append(line)
            if re.search(r"Invariant \S+ is violated|Error: Action property|Temporal properties were violated", line):
                res["violations"] += 1
            m = re.match(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", line)
            if m:
                res["states"], res["distinct"] = int(m.group(1)), int(m.group(2))
            if "Model checking completed" in line or line.startswith("Finished in"):
                res["finished"] = True
            if len(res["out"]) < 4000:
                res["out"].append(line)
    finally:
        timer.cancel()
        p.stdout.close()
        p.wait()
    res["rc"] = p.returncode
    return res


def trace_check(cases, prop, work, dump, workers="8", timeout=800, limit=25, heap="6g", every=0):
    path = os.path.join(work, "cases-%s.ndjson" % prop)
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(dump(c), separators=(",", ":")) + "\n")
    return tlc("Trace", work, {"CASES": path, "PROPERTY": prop, "EVERY": str(every)}, workers=workers, timeout=timeout, limit=limit, heap=heap)
