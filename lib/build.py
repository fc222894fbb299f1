"""Builds the checker from the current working tree of /repo, outside of it."""
import glob
import os
import shutil
import subprocess
import tempfile

WRAP = ("fts_open", "access", "opendir", "fopen", "stat", "lstat")      # see stand_in.c
REPO = os.environ.get("SELINT_REPO", "/repo")


class BuildError(Exception):
    pass


def scratch(prefix):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    try:
        if base and shutil.disk_usage(base).free < (1 << 30):
            base = None
    except OSError:
        base = None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))


def build(work, sanitize=False, cc=None):
    """Compile /repo/src into work/selint and return its path."""
    src = os.path.join(work, "src")
    os.makedirs(src)
    for f in os.listdir(os.path.join(REPO, "src")):
        if f.endswith((".c", ".h", ".y", ".l")) and f not in ("lex.c", "parse.c", "parse.h"):
            shutil.copy(os.path.join(REPO, "src", f), src)
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stand_in.c"), os.path.join(src, "verif_stand_in.c"))
    with open(os.path.join(src, "config.h"), "w") as o:
        o.write('#define PACKAGE "selint"\n#define PACKAGE_NAME "SELint"\n'
                '#define PACKAGE_STRING "SELint x"\n#define PACKAGE_VERSION "x"\n#define VERSION "x"\n')
    _run(["bison", "-y", "-d", "-Wno-yacc", "-o", "parse.c", "parse.y"], src)
    _run(["flex", "-o", "lex.c", "lex.l"], src)
    cc = cc or "gcc"
    flags = ["-std=gnu11", "-D_GNU_SOURCE", "-DSYSCONFDIR=\"%s\"" % os.path.join(work, "etc"), "-I.", "-w", "-g", "-DHAVE_CONFIG_H"]
    if sanitize:
        flags += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    else:
        flags += ["-O1"]
    objs = []
    procs = []
    for c in sorted(glob.glob(os.path.join(src, "*.c"))):
        o = c[:-2] + ".o"
        objs.append(o)
        procs.append((c, subprocess.Popen([cc] + flags + ["-c", "-o", o, c], cwd=src,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (c, out.decode("utf-8", "replace")[-4000:]))
    exe = os.path.join(work, "selint")
    _run([cc] + flags + ["-o", exe] + objs + ["-Wl," + ",".join("--wrap=" + x for x in WRAP), "-lconfuse", "-lm"], src)
    shutil.rmtree(src)
    os.chmod(exe, 0o755)
    return exe
