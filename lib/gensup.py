"""Random support files (modules.conf, access_vectors, obj_perm_sets.spt), file
context files and configurations."""
from gen import CLASSES, PERMS, MACROS, ALL_IDS

SUFFIXES = ["dir", "file", "lnk_file", "chr_file", "term", "blk_file", "sock_file", "fifo_file"]
FILEPERMS = ["ioctl", "read", "write", "create", "getattr", "setattr", "lock", "relabelfrom", "relabelto", "append", "map", "unlink",
             "link", "rename", "execute", "mounton", "open", "watch", "add_name", "remove_name", "reparent", "search", "rmdir",
             "execute_no_trans", "entrypoint"]


# ---- modules.conf
def mods_conf(rng, mods, wild=.5, bad=0.0):
    lines = []

    def put(s):
        lines.append(s)

    for m in mods:
        r = rng.random()
        if r < .1:
            continue
        st = rng.choice(["base", "module", "off", "module", "base"])
        if rng.random() < .05:
            st = rng.choice(["Base", "on", "module2", "both", "bas", "base_", "mod", "offf", "1"])
        a, b, c, d = [rng.choice(["", " ", "\t", "  "]) if rng.random() < wild else " " for _ in range(4)]
        put((a if rng.random() < .3 else "") + m + b + "=" + c + st + (d if rng.random() < .3 else ""))
        if rng.random() < .1:
            put(m + " = " + rng.choice(["base", "module", "off"]))
        if rng.random() < wild * .4:
            put(rng.choice(["# comment", "", "   ", "  # kernel = off", "\t", "#", "# x = base"]))
    if rng.random() < .3:
        rng.shuffle(lines)
    if bad and rng.random() < bad:
        lines.insert(rng.randint(0, len(lines)), rng.choice(["junk line", "a b c", "x = module = base", "foo", "bar ="]))
    crlf = rng.random() < .1
    final = rng.random() < .85 or not lines or len(lines[-1]) < 2
    text, recs = "", []
    for j, s in enumerate(lines):
        nl = final or j < len(lines) - 1
        t = s + ("\r" if crlf else "")
        recs.append({"s": t, "nl": nl})
        text += t + ("\n" if nl else "")
    return {"lines": recs, "text": text}


# ---- access_vectors
def access_vectors(rng, classes=None, perms=None, bad=0.0, full=False):
    classes = list(classes if classes is not None else (CLASSES if full else [c for c in CLASSES if rng.random() < .75]))
    perms = list(perms if perms is not None else (PERMS if full else [p for p in PERMS if rng.random() < .8]))
    if not classes:
        classes = ["file"]
    defs, text = [], ""
    badat = 0
    if not (rng.random() < .1):
        k = [p for p in perms if rng.random() < .7] or perms[:1] or ["x_perm"]
        defs.append({"cls": "", "perms": k, "_head": "common base_file"})
    left = [p for p in perms if not defs or p not in defs[0]["perms"]]
    for c in classes:
        q = [p for p in left if rng.random() < .5]
        if rng.random() < .3:
            q += [p for p in perms if rng.random() < .2]
        r = rng.random()
        if r < .3 or not q:
            defs.append({"cls": c, "perms": q if q and r < .25 else [], "_head": "class %s inherits base_file" % c})
        else:
            defs.append({"cls": c, "perms": q, "_head": "class %s" % c})
    if left and rng.random() < .8:
        defs.append({"cls": rng.choice(classes), "perms": left, "_head": None})
        defs[-1]["_head"] = "class " + defs[-1]["cls"]
    if bad and rng.random() < bad:
        badat = rng.randint(1, len(defs))
    for j, d in enumerate(defs):
        if badat == j + 1:
            text += rng.choice(["class { }\n", "class foo file bar\n", "junk\n", "inherits\n", "class x { y ; }\n"])
            if text.endswith("y ; }\n"):
                pass
        lay = rng.choice(["\n", " ", "\n\t", "\n  "])
        body = ""
        if d["perms"]:
            body = lay + "{" + lay + (rng.choice([" ", "\n\t", "\n"])).join(d["perms"]) + rng.choice(["\n", " "]) + "}"
        text += d["_head"] + body + "\n"
        if rng.random() < .15:
            text += rng.choice(["# comment\n", "\n", "# class notaclass { notaperm }\n"])
    # a broken definition may already have defined the permissions read before the error
    defs2 = [{"cls": d["cls"], "perms": d["perms"]} for d in defs]
    if badat and "class x { y ; }" in text:
        defs2.insert(badat - 1, {"cls": "", "perms": ["y"]})
        badat += 1
    return {"defs": defs2, "badat": badat, "text": text}


# ---- obj_perm_sets.spt
def macro_defs(rng, n=8, rec=.05):
    out, names = [], []
    for _ in range(n):
        suf = rng.choice(SUFFIXES + ["file", "file", "dir", "process", "socket"])
        nm = rng.choice(["read", "rw", "create", "manage", "exec", "write", "del_entry", "list", "x", "getattr", "map"]) + "_" + suf + "_perms"
        k = rng.randint(1, 7)
        items = rng.sample(FILEPERMS, min(k, len(FILEPERMS)))
        if names and rng.random() < .35:
            items[rng.randrange(len(items))] = rng.choice(names)
        if rng.random() < .08:
            items.append(rng.choice(["audit_access", "nosuch_perm", "quotaon"]))
        if rng.random() < rec:
            items.append(nm)
        out.append({"name": nm, "items": items, "warn": rng.random() < .1})
        names.append(nm)
    return out


STD_MACROS = [
    ("getattr_file_perms", "getattr"), ("read_file_perms", "getattr open read ioctl lock"), ("rw_file_perms", "getattr open read write append ioctl lock"),
    ("create_file_perms", "getattr create open"), ("manage_file_perms", "create open getattr setattr read write append rename link unlink ioctl lock"),
    ("exec_file_perms", "getattr open map read execute ioctl execute_no_trans"), ("list_dir_perms", "getattr search open read lock ioctl"),
    ("rw_dir_perms", "open read getattr lock search ioctl add_name remove_name write"), ("create_dir_perms", "getattr create"),
    ("read_lnk_file_perms", "getattr read"), ("rw_lnk_file_perms", "getattr read write lock ioctl"), ("rw_term_perms", "getattr open read write append ioctl"),
    ("rw_chr_file_perms", "getattr open read write append ioctl lock"), ("read_blk_file_perms", "getattr open read lock ioctl"),
    ("write_sock_file_perms", "getattr write open append"), ("rw_fifo_file_perms", "getattr open read write append ioctl lock"),
    ("rw_socket_perms", "ioctl read getattr write setattr append bind"), ("signal_perms", "sigchld sigkill sigstop signull signal"),
    ("a_perms", "read write"), ("all_foo_perms", "read"), ("file_perms", "getattr read")]
STD_SETS = [("file_class_set", "file lnk_file sock_file fifo_file chr_file blk_file"), ("dir_file_class_set", "dir file_class_set"), ("socket_class_set", "tcp_socket udp_socket")]


def obj_perm_sets(rng, defs=None, std=.5, bad=0.0):
    if defs is None:
        defs = []
        for nm, it in STD_MACROS:
            if rng.random() < std:
                defs.append({"name": nm, "items": it.split(), "warn": rng.random() < .06})
        defs += macro_defs(rng, rng.choice([0, 2, 6, 12]))
        for nm, it in STD_SETS:
            if rng.random() < .6:
                defs.append({"name": nm, "items": it.split(), "warn": False})
        if rng.random() < .3:
            rng.shuffle(defs)
    if not defs:
        defs = [{"name": "read_file_perms", "items": ["read", "open"], "warn": False}]
    badat = 0
    if bad and rng.random() < bad:
        badat = rng.randint(1, len(defs))
    text = ""
    for j, d in enumerate(defs):
        if rng.random() < .12 and j:
            text += rng.choice(["# comment\n", "#\n# define(`no_such_perms',`{ read }')\n", "\n"])
        if badat == j + 1:
            text += rng.choice(["define(`x_perms')\n", "junk\n", "define(x_perms,`{ read }')\n", "define(`ifndef',`ifdef(`$1',`$3',`$2')')\n"])
        it = d["items"]
        body = it[0] if len(it) == 1 and rng.random() < .3 and not d["warn"] else "{ " + (rng.choice([" ", "\n\t"])).join(it) + " }"
        lay = rng.choice(["", " ", "\n\t"])
        if d["warn"]:
            text += "define(`%s',%s`\n\t%s\n\trefpolicywarn(`%s is deprecated')\n')\n" % (d["name"], lay, body, d["name"])
        else:
            text += "define(`%s',%s`%s')\n" % (d["name"], lay, body)
    return {"defs": [{"name": d["name"], "items": d["items"], "warn": d["warn"]} for d in defs], "badat": badat, "text": text}


# ---- file contexts
def fc_path(rng, mod):
    r = rng.random()
    parts = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        parts.append(rng.choice([mod, "etc", "usr", "bin", "a\\.conf", "lib.*", "[^/]*", "x(/.*)?", "foo\\.so\\.[0-9]+", "b.", "c*", "d+", ".*",
                                 "(a|b)+", "[ab]*", "x.y", "\\.cfg", "[^.]+", "e?", ".+", ".?", "\\*", "\\\\.", "a\\+", "[[]x]", "[.*+]", "()", "x{2}",
                                 "..", "s0", "-x", "9", "\\[x.", "a]*", "b)*", "..*", "**", "*", "[", "[a", "[]a]", "\\[*", "+"]))
    p = "/" + "/".join(parts)
    if rng.random() < .25:      # punctuation next to punctuation
        i = rng.randint(1, len(p))
        p = p[:i] + "".join(rng.choice(".*+?()[]\\a|^{}") for _ in range(rng.choice([1, 2, 3, 5]))) + p[i:]
    if r < .03:
        p = p[1:]
    if r > .99:
        p += "x" * rng.choice([100, 1000, 5000])
    return p


def fc_level(rng):
    return rng.choice(["s0", "s0", "mls_systemhigh", "s0 - mls_systemhigh", "s0-s15:c0.c255", "s0:c1", "mcs_allcats", ""])


def fc_line(rng, w, mod, users, roles, types, bad=.1):
    r = rng.random()
    if r < .06:
        return rng.choice(["", "# comment", "#", "ifdef(`distro_x',`", "ifndef(`hide', `", "')", "', `", "',`", "',`x", "') dnl end", "# /x -- foo",
                           "ifdef(`distro_x',`/x gen_context(a:b:c,s0)')"])
    if r < .1:
        return rng.choice(["long_named_fc_macro(x)", "fc(x)", "my(x)", "m (x)", "long_named(x)", "my_fc_macro(x)", "other_macro(/x, y)", "my_fc_macro (x)", "my_fc_macro", "amy_fc_macro(x)", "m(a)", "m2(a)"])

    def sp():
        return rng.choice(["\t", " ", "\t\t", "   ", " \t", "\t"])

    path = fc_path(rng, mod)
    obj = rng.choice(["", "", "--", "-d", "-l", "-s", "-p", "-b", "-c"])
    u, ro, t = rng.choice(users), rng.choice(roles), rng.choice(types)
    k = rng.random()
    if k < .12:
        c = "<<none>>"
    elif k < .3:
        c = ":".join([u, ro, t] + ([rng.choice(["s0", "s0-s15", "SystemLow"])] if rng.random() < .6 else []))
    else:
        lv = []
        z = rng.random()
        if z < .75:
            lv = [fc_level(rng) or "s0"]
        elif z < .9:
            lv = [fc_level(rng) or "s0", rng.choice(["mcs_allcats", "c0.c1"])]
        c = "gen_context(" + (rng.choice([",", ", "])).join([":".join([u, ro, t])] + lv) + ")"
    ln = path + sp() + (obj + sp() if obj else "") + c
    if rng.random() < .08:
        ln = rng.choice([" ", "\t"]) + ln
    if rng.random() < .15:
        ln += rng.choice([" ", "\t", "  ", " \t "])
    if rng.random() < bad:
        z = rng.randrange(17)
        if z == 0:
            ln = path
        elif z == 1:
            ln = path + sp() + obj
        elif z == 2:
            ln = path + sp() + rng.choice(["-", "---", "-dx", "--x"]) + sp() + c
        elif z == 3:
            ln = path + sp() + ":".join([u, ro])
        elif z == 4:
            ln = path + sp() + ":".join([u, ro, t, "s0", "x"])
        elif z == 5:
            ln = path + sp() + "gen_context(" + ":".join([u, ro, t]) + ",s0"
        elif z == 6:
            ln = path + sp() + "gen_context()"
        elif z == 7:
            ln = path + sp() + "system_u:object_r:gen_context(%s)" % t
        elif z == 8:
            ln = path + sp() + "gen_context(%s:%s,s0)" % (u, ro)
        elif z == 9:
            ln = rng.choice([" ", "\t ", "  "])
        elif z == 10:
            ln = path + sp() + rng.choice(["<<none>>x", "<<None>>", "<none>", "<<none>> x", "none"])
        elif z == 11:
            ln = path + sp() + rng.choice(["gen_context", "gen_context(", "gen_contextx(%s:%s:%s,s0)" % (u, ro, t), "gen_context(,)", "gen_context(,,)", ")"])
        elif z == 12:
            ln = path + sp() + "gen_context(" + ":".join([u, ro, t]) + ",s0,mcs_allcats,x)"
        elif z == 13:
            ln = path + sp() + u + "::" + ro + ":" + t
        elif z == 14:
            ln = path + sp() + "gen_context(" + ":".join([u, ro, t]) + ",s0) # trailing"
        elif z == 15:
            ln = path + sp() + ":" * rng.randint(1, 4)
        else:
            ln = rng.choice(["junk", "- -", "/x -", "/x - ", "-- gen_context(a:b:c,s0)", "/x --", "ifdefx", " ifdef(`x',`", " # c", "' )"])
    return ln


def fc_text(rng, n, **kw):
    return [fc_line(rng, **kw) for _ in range(n)]


# ---- configuration
def some_ids(rng, hi=6, bad=.1):
    q = rng.sample(ALL_IDS, rng.randint(0, hi))
    if q and rng.random() < bad:
        q.append(rng.choice(["W-099", "X-001", "W-000", "foo", "E-1", "w-001", "C-008", "S-011", "W-0001", "F-001", "F-002", "W-012", "E-011", "C-0x1", "W-001x"]))
    return q
