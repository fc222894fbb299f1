"""Lays out a case in a scratch directory, runs the real checker on it and
turns what it did into the observation the specification is compared with."""
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from render import conf_text

ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")
FINDING = re.compile(r"^([^:|]+): *(\d+): \(([CSWEF])\): (.*) \(([CSWEF]-\d{3})\)$")
WARNID = re.compile(r"^Warning: (.*), (?:disabled|enabled) (?:on command line|in config), is not a valid check id\.$")
COUNT = re.compile(r"^([CSWEF]-\d{3}): (\d+)$")
STRIP = ".,;()'`\":"

LONG = {"d": "--disable", "e": "--enable", "E": "--only-enabled", "F": "--fail", "S": "--summary",
        "r": "--recursive", "s": "--source", "l": "--level", "v": "--verbose", "h": "--help", "V": "--version",
        "c": "--config", "m": "--modules-conf"}


def option_words(x, cfgpath, rng=None):
    """The spellings of one option."""
    o, a = x["o"], x.get("a", "")
    how = x.get("how", 0)
    if o == "so":
        return ["--summary-only"]
    if o == "hidden":
        return ["--scan-hidden-dirs"]
    if o == "dbg":
        return ["--debug-parser"]
    if o == "color":
        return ["--color=" + a] if how % 2 == 0 else ["--color", a]
    if o == "ctx":
        return ["--context=" + a] if how % 2 == 0 else ["--context", a]
    if o == "bad":
        return [a or "--no-such-option"]
    if o == "c":
        a = cfgpath
    if o in ("d", "e", "l", "c"):
        if a == "" and how % 4 == 1:
            how = 0
        return [["-" + o, a], ["-" + o + a], [LONG[o] + "=" + a], [LONG[o], a]][how % 4]
    if o == "m":
        return [["-m"], ["--modules-conf=x"], ["--modules-conf", "x"]][how % 3]
    return ["-" + o] if how % 2 == 0 else [LONG[o]]


def command_line(case):
    opts = []
    for x in case["argv"]:
        opts += option_words(x, case.get("cfgpath", "selint.conf"))
    args = [a["path"] for a in case["args"]]
    if case.get("args_first"):
        return args + opts
    if case.get("dashdash"):
        return opts + ["--"] + args
    return opts + args


# The installed headers and the classes of the kernel, as far as the run sees them.
SYSTEM = (("dev", "<sys>/devel"), ("kern", "<sys>/class"))


def place(d, path):
    """Where an entry is laid out: what belongs to the system lies outside of the run's own directory."""
    return d + ".sys" + path[len("<sys>"):] if path.startswith("<sys>/") else os.path.join(d, path)


def entry_paths(case):
    """Path of every tree entry, relative to the case directory."""
    paths = {}

    def go(i, path):
        paths[i] = path
        for k in case["tree"][i - 1]["kids"]:
            go(k, path + "/" + case["tree"][k - 1]["name"])

    for a in list(case["args"]) + list(case.get("ctx", [])) + [{"t": case.get(k, 0), "path": p} for k, p in SYSTEM]:
        if a["t"] and a["t"] not in paths:
            go(a["t"], os.path.normpath(a["path"]))
    return paths


def lay_out(case, d):
    os.makedirs(d)
    if any(x["o"] == "c" for x in case["argv"]) and case["cfg"]["readable"]:
        p = os.path.join(d, case.get("cfgpath", "selint.conf"))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(case.get("cfgtext") or conf_text(case["cfg"]))
    paths = entry_paths(case)
    for i, path in paths.items():
        e = case["tree"][i - 1]
        p = place(d, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e["dir"]:
            os.makedirs(p, exist_ok=True)
            continue
        if e.get("_missing"):
            if e["_missing"] == "dangling":
                os.symlink("nowhere", p)
            continue
        if e["fid"]:
            text = case["files"][e["fid"] - 1]["text"]
        elif e["sid"]:
            text = case["sups"][e["sid"] - 1]["text"]
        else:
            text = e.get("_text", "junk\n")
        if e.get("_link"):
            real = os.path.join(d, "_real_%d" % i)
            with open(real, "wb") as f:
                f.write(text.encode("utf-8", "surrogateescape"))
            os.symlink(real, p)
            continue
        if os.path.lexists(p):
            continue
        with open(p, "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
    # The order in which a directory lists its entries belongs to the environment: the case records what it is.
    for i, path in paths.items():
        e = case["tree"][i - 1]
        if e["dir"]:
            with os.scandir(place(d, path)) as it:
                at = {x.name: n for n, x in enumerate(it)}
            e["kids"] = sorted(e["kids"], key=lambda k: at.get(case["tree"][k - 1]["name"], len(at)))
    return paths


def parse_output(text):
    out = {"findings": [], "summary": [], "shown": False, "none": False, "f001": [], "warned": [], "swarn": []}
    insum = False
    for line in ANSI.sub("", text).split("\n"):
        if insum:
            m = COUNT.match(line)
            if m:
                out["summary"].append({"id": m.group(1), "n": int(m.group(2))})
                continue
            if line == "(none)":
                out["none"] = True
                continue
        if line == "Found the following issue counts:":
            insum = True
            out["shown"] = True
            continue
        m = FINDING.match(line)
        if m:
            w = [t for t in (x.strip(STRIP) for x in m.group(4).split()) if t]
            r = {"f": m.group(1), "l": int(m.group(2)), "id": m.group(5), "w": w, "sev": m.group(3)}
            (out["f001"] if r["id"] == "F-001" else out["findings"]).append(r)
            continue
        m = WARNID.match(line)
        if m:
            out["warned"].append(m.group(1))
        for key, start in (("av-missing", "Warning: Failed to locate access_vectors"),
                           ("kern-missing", "Note: Failed to load classes and perms"),
                           ("kern-failed", "Warning: Failed to load classes and perms from current kernel"),
                           ("mods-missing", "Warning: Failed to locate modules.conf"),
                           ("spt-missing", "Warning: Failed to locate obj_perm_sets.spt"),
                           ("av-failed", "Warning: Failed to parse access_vectors"),
                           ("mods-failed", "Warning: Failed to load modules"),
                           ("spt-failed", "Warning: Failed to permission and class set macros")):
            if line.startswith(start):
                out["swarn"].append(key)
    return out


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent",
       "ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}


MAXOUT = 64 << 20


def execute(cmd, d, timeout, san=False):
    """Run a command with bounded time, memory and output."""
    if os.path.exists("/usr/bin/prlimit"):
        cmd = ["/usr/bin/prlimit", "--core=0", "--fsize=%d" % MAXOUT] + ([] if san else ["--as=%d" % (4 << 30)]) + cmd
    with open(d + ".out", "w+b") as o, open(d + ".err", "w+b") as e:
        try:
            code = subprocess.run(cmd, cwd=d, env=dict(ENV, SELINT_SYS=d + ".sys"), stdin=subprocess.DEVNULL, stdout=o, stderr=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            code = -999
        o.seek(0)
        e.seek(0)
        out, err = o.read(MAXOUT), e.read(1 << 20)
    return code, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def run_one(exe, case, d, timeout=10, keep=False, san=False):
    try:
        lay_out(case, d)
        code, out, err = execute([exe] + command_line(case), d, timeout, san)
        obs = parse_output(out if len(out) < (8 << 20) else out[:8 << 20])
        obs["findings"] = obs["findings"][:20000]
        obs["exit"] = code
        obs["san"] = bool(re.search(r"AddressSanitizer|runtime error:|LeakSanitizer|stack smashing|malloc\(\)|free\(\)|double free", err))
        obs["err"] = err[-6000:]
        obs["out"] = out[:200000]
        return obs
    finally:
        for f in (d + ".out", d + ".err"):
            try:
                os.unlink(f)
            except OSError:
                pass
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d + ".sys", ignore_errors=True)


def run_all(exe, cases, work, jobs=8, timeout=10, san=False):
    """Observations of the cases, in order.  After a few runs that hang the rest is left out."""
    base = os.path.join(work, "run")
    os.makedirs(base, exist_ok=True)
    out = []
    with ThreadPoolExecutor(jobs) as ex:
        for i in range(0, len(cases), 64):
            out += list(ex.map(lambda c: run_one(exe, c, os.path.join(base, "c%d" % c["id"]), timeout, san=san), cases[i:i + 64]))
            if sum(o["exit"] == -999 for o in out) >= 4:
                break
    return out
