"""Random cases for each property."""
import copy

import gensup
from cases import Builder
from gen import World, Gen, random_style, ALL_IDS, MODNAMES, WORDS, CLASSES, PERMS
from render import Style, PLAIN

ORDERS = ["", "refpolicy", "refpolicy-light", "refpolicy-lax"]
FLAVORS = ["attribute", "attribute_role", "bool", "class", "role", "type"]
BOOLS = ["", "true", "True", "TRUE", "yes", "Yes", "YES", "false", "False", "FALSE", "no", "No", "NO"]


def rnd_config(rng, b, valid=True, **kw):
    """A random valid configuration."""
    c = {}
    if rng.random() < .4:
        c["severity"] = rng.choice(["convention", "style", "warning", "error", "fatal", "convention", "style"])
    if rng.random() < .5:
        c["disable"] = gensup.some_ids(rng)
    if rng.random() < .4:
        c["en_normal"] = gensup.some_ids(rng)
    if rng.random() < .4:
        c["en_source"] = gensup.some_ids(rng)
    if rng.random() < .6:
        c["users"] = rng.sample(["system_u", "staff_u", "root", "user_u", "x_u"], rng.randint(0, 4))
    if rng.random() < .6:
        c["roles"] = rng.sample(["object_r", "system_r", "staff_r", "user_r", "foo_r"], rng.randint(0, 4))
    if rng.random() < .4:
        c["fcm"] = rng.sample(["my_fc_macro", "other_macro", "m", "fc", "long_named_fc_macro", "my"], rng.randint(1, 4))
    if rng.random() < .5:
        c["tem"] = rng.sample(["ok_macro"] + WORDS, rng.randint(0, 3))
    if rng.random() < .7:
        c["order"] = rng.choice(ORDERS)
    if rng.random() < .4:
        c["oreqset"], c["oreq"] = True, rng.sample(FLAVORS, 6)
    if rng.random() < .4:
        c["same"] = rng.choice(BOOLS)
    if rng.random() < .4:
        c["skipgen"] = rng.choice(BOOLS)
    c.update(kw)
    return b.config(**c)


def support(rng, b, w, base="", bad=0.0, av=.8, mods=.85, spt=.85, full=False, std=.5):
    """Support files below base; returns their paths."""
    out = []
    if rng.random() < av:
        b.sup(base + "access_vectors", gensup.access_vectors(rng, bad=bad, full=full))
        out.append(base + "access_vectors")
    if rng.random() < mods:
        names = list(w.mods) + [m for m in MODNAMES if m not in w.mods and rng.random() < .2]
        b.sup(base + "modules.conf", gensup.mods_conf(rng, names, bad=bad))
        out.append(base + "modules.conf")
    if rng.random() < spt:
        b.sup(base + "obj_perm_sets.spt", gensup.obj_perm_sets(rng, bad=bad, std=std))
        out.append(base + "obj_perm_sets.spt")
    return out


def system(rng, b, w, g, mods, kernel=.75, headers=.75):
    """What a run outside of source mode finds on the system: classes of the kernel, headers of the given modules."""
    if rng.random() < kernel:
        b.mkdir("sys/class")
        empty = rng.random() < .1
        for c in CLASSES:
            if rng.random() < .7:
                d = "sys/class/" + c
                b.mkdir(d)
                if rng.random() < .8:
                    b.other(d + "/index", "1\n")
                if rng.random() < .9:
                    b.mkdir(d + "/perms")
                    for p in PERMS:
                        if not empty and rng.random() < .35:
                            b.other(d + "/perms/" + p, "1\n")
    if rng.random() < headers:
        b.mkdir("sys/devel")
        for m in mods:
            g.m = m
            d = "sys/devel/" + rng.choice(["", "include/", "include/kernel/", "include/system/", "include/apps/", "include/.old/"])
            b.policy(d + m + ".if", g.iff())
        if rng.random() < .5:
            b.other("sys/devel/" + rng.choice(["Makefile", "include/x.xml", "include/modules.conf", "include/obj_perm_sets.spt", "include/a.te", "x.if.bak"]))
        if rng.random() < .2:
            b.mkdir("sys/devel/" + rng.choice(["old.if", "include/apps/dir.if"]))
        if rng.random() < .05:
            b.bad("sys/devel/include/broken.if", "interface(`x',`\n", 2)


def policy(rng, b, w, g, base="", n=(1, 4, 8, 16), te=.95, iff=.8, fc=0.0, style=None, args=True, layers=False):
    """Files of every module of w, as arguments."""
    st = style or (lambda: random_style(rng))
    out = []
    for m in w.mods:
        g.m = m
        d = base
        if layers:
            d = base + rng.choice(["kernel", "system", "services", "apps"]) + "/"
        if rng.random() < te:
            b.policy(d + m + ".te", g.te(rng.choice(n)), st())
            out.append(d + m + ".te")
        if rng.random() < iff:
            b.policy(d + m + ".if", g.iff(), st())
            out.append(d + m + ".if")
        if rng.random() < fc:
            fcfile(rng, b, w, d + m + ".fc", m)
            out.append(d + m + ".fc")
    if not out:
        g.m = w.mods[0]
        b.policy(base + "only.te", g.te(3), st())
        out.append(base + "only.te")
    if args:
        rng.shuffle(out)
        b.arg(*out)
    return out


def fcfile(rng, b, w, path, m, n=None, bad=.1):
    users = ["system_u", "system_u", "staff_u", "root", "nosuch_u", "x_u"]
    roles = ["object_r", "object_r"] + w.pool(w.roles) + ["system_r", "nosuch_r"] + w.pool(w.types)[:1] + w.pool(w.rattrs)[:2] + w.pool(w.attrs)[:1]
    types = w.pool(w.types) + w.pool(w.types, m) * 2 + w.pool(w.attrs)[:2] + ["nosuch_t", "$1_t"]
    lines = gensup.fc_text(rng, rng.choice([0, 1, 3, 8, 16, 30]) if n is None else n, w=w, mod=m, users=users, roles=roles, types=types, bad=bad)
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    final = rng.random() < .8
    while lines and not final and lines[-1] == "":
        lines.pop()
    b.fc(path, lines, nl, final)


def presentation(rng, b):
    if rng.random() < .15:
        b.opt("v", how=rng.randint(0, 1))
    if rng.random() < .2:
        b.opt("color", rng.choice(["on", "off", "auto"]), rng.randint(0, 1))


# ---------------------------------------------------------------------------
def p_general(rng, kinds=None, nmods=(1, 2, 3), n=(1, 4, 8, 16), src=.5, conf=.4, sup=.7, only=None, fc=0.0, iff=.8, te=.95, wild=.5, world=None,
              std=.5, full=False, layers=False, gen=None, style=None, **gk):
    b = Builder()
    w = world or World(rng, rng.choice(nmods))
    g = (gen or Gen)(rng, w, kinds=kinds, **gk)
    source = rng.random() < src
    if source:
        b.opt("s", how=rng.randint(0, 1))
    paths = policy(rng, b, w, g, n=n, fc=fc, iff=iff, te=te, args=False, style=style or (lambda: random_style(rng, wild)),
                   layers=layers)
    if source and rng.random() < sup:
        paths += support(rng, b, w, full=full, std=std)
    rng.shuffle(paths)
    b.arg(*paths)
    if layers and rng.random() < .7:
        b.args = ["."]
        b.opt("r")
    elif not source and rng.random() < .4:
        system(rng, b, w, g, [m for m in w.mods if rng.random() < .3])
    if rng.random() < conf:
        rnd_config(rng, b, severity="", disable=[], en_normal=[], en_source=[])
    if only:
        b.opt("E", how=rng.randint(0, 1))
        for i in only:
            b.opt("e", i, rng.randint(0, 3))
    presentation(rng, b)
    return b


def rich(rng, b):
    """A policy with findings of nearly every check."""
    w = World(rng, 2, names=["foo", "bar"])
    w.types = {"foo": ["foo_t", "foo_x_t"], "bar": ["bar_t", "bar_x_t"]}
    w.ifs = {"foo": ["foo_read", "foo_stub"], "bar": ["bar_read"]}
    w.tmpls = {"foo": ["foo_template"], "bar": []}
    A = lambda src, tgt, cls, perms, av="allow": {"k": "AV", "av": av, "src": src, "tgt": tgt, "cls": cls, "perms": perms}
    call = lambda nm, *a: {"k": "CALL", "name": nm, "args": list(a), "sp": [False] * len(a)}
    D = lambda fl, nm: {"k": "DECL", "fl": fl, "name": nm, "attrs": []}
    R = lambda fl, *nm: {"k": "REQDECL", "fl": fl, "names": list(nm), "attrs": []}
    te = [{"k": "HEADER", "name": "foox", "bare": True},
          D("type", "foo_t"), D("type", "foo_x_t"), D("type", "foo_read"), D("attribute", "foo_attr"),
          A(["foo_t"], ["bar_t"], ["file"], ["write", "read"]), A(["foo_t"], ["foo_t"], ["process"], ["signal"]),
          A(["foo_t"], ["foo_x_t"], ["file"], ["*"]), A(["foo_t"], ["self"], ["nosuchclass"], ["read"]),
          A(["foo_t"], ["self"], ["dir"], ["nosuchperm"]), A(["foo_t"], ["foo_x_t"], ["file"], ["getattr", "open", "read"]),
          A(["foo_t"], ["foo_x_t"], ["dir"], ["read_file_perms"]),
          call("bar_read", "foo_t"), call("bar_nosuch", "foo_t"), call("bar_read"),
          {"k": "CALL", "name": "bar_read", "args": ["foo_t", "foo_x_t"], "sp": [False, True]},
          {"k": "SEMICOLON"}, {"k": "WORD", "name": "stray"}, {"k": "OPTIONAL", "kids": [{"k": "SEMICOLON"}]},
          {"k": "OPTIONAL", "kids": [{"k": "GENREQ", "unq": False, "kids": [R("type", "bar_x_t")]}]},
          {"k": "GENREQ", "unq": True, "kids": [R("type", "bar_x_t", "bar_t"), R("attribute", "zz")]}]
    iff = [{"k": "INTERFACE", "name": "foo_read", "kids": [
              {"k": "GENREQ", "unq": False, "kids": [R("type", "foo_t", "foo_x_t"), R("attribute", "nosuch_attr"), R("type", "foo_t")]},
              D("type", "foo_y_t"), call("foo_template", "$1"), A(["$1"], ["foo_x_t"], ["file"], ["read"]), A(["$1"], ["bar_t"], ["file"], ["read"])]},
           {"k": "COMMENT", "_node": True, "_text": "## x"},
           {"k": "TEMPLATE", "name": "foo_template", "kids": [D("type", "$1_foo_t")]}]
    bif = [{"k": "INTERFACE", "name": "bar_read", "kids": [{"k": "GENREQ", "unq": False, "kids": [R("type", "bar_t")]}, A(["$1"], ["bar_t"], ["file"], ["read"])]}]
    bte = [{"k": "HEADER", "name": "bar", "bare": False}, D("type", "bar_t"), D("type", "bar_x_t")]
    paths = []
    for p, s in (("foo.te", te), ("foo.if", iff), ("bar.if", bif), ("bar.te", bte)):
        b.policy(p, s)
        paths.append(p)
    b.fc("foo.fc", ["/foo.x -- gen_context(system_u:object_r:foo_t)", "/bar gen_context(nosuch_u:object_r:bar_t,s0)", "/baz gen_context(system_u:nosuch_r:nosuch_t,s0)", "bad line here"])
    b.sup("modules.conf", {"lines": [{"s": "foo = base", "nl": True}, {"s": "bar = module", "nl": True}], "text": "foo = base\nbar = module\n"})
    b.sup("access_vectors", gensup.access_vectors(rng, classes=["file", "dir", "process"], perms=["read", "write", "open", "getattr", "signal"]))
    b.sup("obj_perm_sets.spt", gensup.obj_perm_sets(rng, [{"name": "read_file_perms", "items": ["getattr", "open", "read"], "warn": False}]))
    return paths + ["foo.fc"], ["modules.conf", "access_vectors", "obj_perm_sets.spt"]


def p01(rng):
    b = Builder()
    paths, sups = rich(rng, b)
    rng.shuffle(paths)
    source = rng.random() < .55
    opts = []
    if source:
        opts.append(("s", ""))
        paths += [s for s in sups if rng.random() < .92]
    if rng.random() < .7:
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            opts.append(("d", (gensup.some_ids(rng, 1, .05) or ["W-001"])[-1]))
    if rng.random() < .7:
        for _ in range(rng.choice([1, 1, 2, 4, 8, 20])):
            opts.append(("e", (gensup.some_ids(rng, 1, .05) or ["W-002"])[-1]))
    if rng.random() < .3 and any(o[0] == "e" for o in opts):
        opts.append(("E", ""))
    if rng.random() < .5:
        opts.append(("l", rng.choice("CSWEFCSWCCSS") + rng.choice(["", "", "x", "onvention"])))
    if rng.random() < .1:
        opts.append(("l", rng.choice("CSWEF")))
    if rng.random() < .15:
        opts += [("S", "")]
    conf = rng.random() < .65
    rng.shuffle(opts)
    for o, a in opts:
        b.opt(o, a, rng.randint(0, 3))
    if conf:
        c = {}
        if rng.random() < .5:
            c["severity"] = rng.choice(["convention", "style", "warning", "error", "fatal", "convention", "style"])
        for k in ("disable", "en_normal", "en_source"):
            if rng.random() < .65:
                c[k] = gensup.some_ids(rng, rng.choice([2, 6, 30]), .05)
        if c.get("disable") and rng.random() < .5:
            for k in ("en_normal", "en_source"):
                c[k] = list(c.get(k, [])) + rng.sample(c["disable"], rng.randint(0, len(c["disable"])))
        b.config(**c)
    if rng.random() < .1:
        b.extra["args_first"] = True
    b.arg(*paths)
    return b


COMMON_IDS = ["W-001", "W-002", "W-003", "W-011", "C-001", "C-005", "C-006", "C-007", "W-005", "W-006", "W-010", "S-001", "S-003", "S-008", "C-004", "E-009", "E-010",
              "S-005", "S-009", "W-007", "W-008"]


def p02(rng):
    wide = rng.random() < .5
    return p_general(rng, nmods=(1, 2), n=(4, 8, 12), ex=rng.choice([.2, .5, .9]), exids=COMMON_IDS if wide else ALL_IDS, conf=.3, src=.5)


def p03(rng):
    b = p_general(rng, nmods=(1, 2, 3), n=(0, 1, 4, 12), src=.4, conf=.3, fc=.4, ex=rng.choice([0, 0, .2]))
    for o, p in (("S", .5), ("so", .3), ("F", .5)):
        if rng.random() < p:
            b.opt(o, how=rng.randint(0, 1))
    if rng.random() < .4:
        b.opt("l", rng.choice("CSWEF"), rng.randint(0, 3))
    if rng.random() < .3:
        b.opt("E")
        for _ in range(rng.choice([1, 2, 5])):
            b.opt("e", rng.choice(ALL_IDS), rng.randint(0, 3))
    if rng.random() < .04:
        # many findings of one check
        n = rng.choice([99, 100, 255, 256, 257, 300, 512, 999, 1000, 1001])
        lines = ["/x%d gen_context(nosuch_u:object_r:foo_t,s0)" % i for i in range(n)]
        b.fc("many.fc", lines)
        b.arg("many.fc")
    rng.shuffle(b.argv)
    return b


def small_world(rng, k=2):
    return World(rng, k)


def p05(rng):
    """Random trees."""
    b = Builder()
    w = World(rng, rng.choice([2, 3, 4, 5]))
    g = Gen(rng, w, dup=False)
    names = list(w.mods)
    dirs = [""]
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        d = rng.choice(dirs) + rng.choice(["d", "kernel", "system", ".hid", ".git", "..x"[:1] + "h", "a.te", "b.if", "c.fc", "x.y", "deep", "modules.conf", "access_vectors", "obj_perm_sets.spt", ".te", "te"]) + str(rng.choice(["", "", 1, 2]))
        if d not in dirs and not d.endswith("/"):
            d += "/"
            if d not in dirs:
                dirs.append(d)
                b.mkdir(d)
    used = set(d.strip("/") for d in dirs)
    for m in names:
        g.m = m
        for suf in ("te", "if", "fc") * rng.choice([1, 1, 1, 1, 2]):
            if rng.random() < .6:
                d = rng.choice(dirs)
                p = d + m + "." + suf
                if p in used:
                    continue
                used.add(p)
                if suf == "te":
                    b.policy(p, g.te(rng.choice([1, 2, 4])))
                elif suf == "if":
                    b.policy(p, g.iff())
                else:
                    fcfile(rng, b, w, p, m, rng.choice([1, 3]))
    for _ in range(rng.choice([0, 1, 3])):
        p = rng.choice(dirs) + rng.choice(["README", "x.txt", "te", "if", ".te", ".fc", "foo.te.bak", "x.tex", "te.", "foo.TE", ".if", "a.fc~", "xte"]) + rng.choice(["", ""])
        if p not in used and p.split("/")[-1] not in (".te", ".if", ".fc"):
            used.add(p)
            b.other(p)
    src = rng.random() < .5
    if src:
        b.opt("s")
        for nm, f in (("access_vectors", lambda: gensup.access_vectors(rng)), ("modules.conf", lambda: gensup.mods_conf(rng, w.mods)), ("obj_perm_sets.spt", lambda: gensup.obj_perm_sets(rng))):
            if rng.random() < .6:
                p = rng.choice(dirs) + nm
                if p not in used:
                    used.add(p)
                    b.sup(p, f())
    elif rng.random() < .3:
        p = rng.choice(dirs) + "modules.conf"
        if p not in used:
            b.sup(p, gensup.mods_conf(rng, w.mods))
    if rng.random() < .75:
        b.opt("r", how=rng.randint(0, 1))
    if rng.random() < .35:
        b.opt("hidden")
    # arguments: disjoint subtrees
    top = []

    def args(path, node):
        if not isinstance(node, dict) or "fid" in node:
            if rng.random() < .9:
                top.append(path)
            return
        r = rng.random()
        if path and r < .6:
            top.append(path + rng.choice(["", "", "/"]))
        elif r < .9 or not path:
            for k in node:
                args((path + "/" if path else "") + k, node[k])

    if rng.random() < .3:
        top.append(rng.choice([".", "./"]))
    else:
        args("", b.root)
        top = [rng.choice(["", "", "./"]) + p for p in top]
    if not top:
        top = ["."]
    if rng.random() < .06:
        top.append(rng.choice(["nosuch", "nosuch.te", "nosuch/x.if", "nodir/"]))
    rng.shuffle(top)
    b.arg(*top)
    if rng.random() < .2:
        b.opt("v")
    b.shuf = True
    return b


def p06(rng):
    b = Builder()
    w = World(rng, rng.choice([2, 3, 4]))
    g = Gen(rng, w, fresh=.15, dup=False)
    main, ctx = w.mods[:1], w.mods[1:]
    if len(ctx) > 1 and rng.random() < .4:
        main, ctx = w.mods[:2], w.mods[2:]
    paths = []
    sysmode = rng.random() < .35
    inner = rng.random() < .4     # analysed files below the context
    base = "pol/" if inner else "main/"
    for m in main:
        g.m = m
        if rng.random() < .9:
            b.policy(base + m + ".te", g.te(rng.choice([3, 8, 14])))
            paths.append(base + m + ".te")
        if rng.random() < .7 or not paths:
            b.policy(base + m + ".if", g.iff())
            paths.append(base + m + ".if")
        if rng.random() < .3:
            fcfile(rng, b, w, base + m + ".fc", m, 4)
            paths.append(base + m + ".fc")
    cdirs = ["pol/", "pol/sub/", "pol/.hid/", "ctx2/"]
    for m in ctx:
        g.m = m
        d = rng.choice(cdirs)
        if rng.random() < .9:
            b.policy(d + m + ".te", g.te(rng.choice([2, 4])))
        if rng.random() < (.3 if sysmode else .9):
            b.policy(d + m + ".if", g.iff())
        if rng.random() < .3:
            fcfile(rng, b, w, d + m + ".fc", m, 3)
    if rng.random() < .35:        # another module of the same name elsewhere
        g.m = rng.choice(main)
        d = rng.choice(["pol/sub/", "pol/.hid/", "ctx2/"])
        if rng.random() < .6:
            b.policy(d + g.m + ".te", g.te(rng.choice([2, 4])))
        if rng.random() < .8:
            b.policy(d + g.m + ".if", g.iff())
    if rng.random() < .3:
        b.other(rng.choice(cdirs) + "README")
    sup = rng.random() < .7
    if sup:
        support(rng, b, w, rng.choice(cdirs), av=.6, mods=.6, spt=.6)
    if rng.random() < .3 and not inner:
        paths += support(rng, b, w, "main/", av=.4, mods=.4, spt=.4)
    b.mkdir("pol")
    b.mkdir("ctx2")
    r = rng.random() if not sysmode or rng.random() < .2 else .55     # a context means source mode
    if r == .55:
        pass
    elif r < .7:
        b.context("pol", rng.randint(0, 1))
    elif r < .8:
        b.context("pol/", rng.randint(0, 1))
    if r > .6:
        b.context("ctx2", rng.randint(0, 1))
    if r > .97:
        b.context("nosuchdir")
    if rng.random() < (.1 if sysmode else .2):
        b.opt("s")
    if sysmode:
        system(rng, b, w, g, [m for m in w.mods if rng.random() < (.8 if m in ctx else .3)])
    whole = rng.random()
    if whole < .25 and not inner:
        b.arg("main")
        b.opt("r")
    elif whole < .4 and inner and "pol" in b.ctx:
        b.arg("pol")
        b.opt("r")
    else:
        rng.shuffle(paths)
        b.arg(*paths)
    if rng.random() < .3:
        rnd_config(rng, b)
    b.shuf = True
    return b


def p07(rng):
    b = Builder()
    w = World(rng, 1)
    g = Gen(rng, w)
    g.m = w.mods[0]
    b.policy("a.te", g.te(3))
    args = ["a.te"]
    r = rng.random()
    opts = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        opts.append(rng.choice([("d", "W-001"), ("e", "W-002"), ("F", ""), ("S", ""), ("so", ""), ("r", ""), ("s", ""), ("v", ""), ("hidden", ""),
                                ("l", rng.choice(["C", "S", "W", "E", "F", "W-001", "Error"])), ("color", rng.choice(["on", "off", "auto"])), ("m", ""), ("dbg", "")]))
    if r < .45:
        opts.append(rng.choice([("bad", ""), ("bad", "-x"), ("bad", "-l"), ("bad", "--level"), ("l", rng.choice(["X", "c", "s", "w", "e", "1", "-", "warning", "G", "x", "-W", "-E", "--C", "=W", " W", ",E", ":F", "\"C", "0W", "~S"])),
                                ("color", rng.choice(["ON", "maybe", "o", "onn", "autox", "always", "1", "-on", "--off", " on", "on ", "of", "auto,"])), ("h", ""), ("V", ""), ("E", ""), ("bad", "--fail=x"), ("bad", "-Z"),
                                ("bad", "--context"), ("bad", "-c"), ("bad", "--disable"), ("bad", "-vQ"), ("d", "nonsense"), ("e", ""), ("d", ""), ("e", "W-099"), ("d", "F-001")]))
    rng.shuffle(opts)
    last = [o for o in opts if o[0] == "bad" and o[1] in ("-l", "--level", "--context", "-c", "--disable")]
    opts = [o for o in opts if o not in last]
    if last:
        b.extra["args_first"] = True
    if rng.random() < .08:
        args = []
    if rng.random() < .6:
        v = rng.random()
        c = {}
        if rng.random() < .5:
            c["severity"] = rng.choice(["convention", "style", "warning", "error", "fatal"])
        if rng.random() < .5:
            c["order"] = rng.choice(ORDERS)
        if rng.random() < .5:
            c["oreqset"], c["oreq"] = True, rng.sample(FLAVORS, 6)
        if rng.random() < .5:
            c["same"] = rng.choice(BOOLS)
        if rng.random() < .5:
            c["skipgen"] = rng.choice(BOOLS)
        if rng.random() < .5:
            c["disable"] = gensup.some_ids(rng, 4, .4)
        if rng.random() < .5:
            c["en_source"] = gensup.some_ids(rng, 4, .4)
        if rng.random() < .5:
            c["en_normal"] = gensup.some_ids(rng, 4, .4)
        if v < .5:
            k = rng.randrange(8)
            if k == 0:
                c["severity"] = rng.choice(["Warning", "C", "none", "WARNING", "errors", "warn", "conventions", "fatal "])
            elif k == 1:
                c["order"] = rng.choice(["refpolicy-", "Refpolicy", "lax", "refpolicy-strict", "refpolicy-light2", "refpolic", " refpolicy"])
            elif k == 2:
                q = rng.sample(FLAVORS, 6)
                z = rng.randrange(5)
                if z == 0:
                    q = q[:rng.randint(0, 5)]
                elif z == 1:
                    q.append(rng.choice(FLAVORS))
                elif z == 2:
                    q[rng.randrange(6)] = rng.choice(["types", "Type", "user", "perm", "roles", "xattribute", "typ", "attribute_rol"])
                elif z == 3:
                    i, j = rng.sample(range(6), 2)
                    q[i] = q[j]
                else:
                    q[rng.randrange(6)] = "sensitivity"
                c["oreqset"], c["oreq"] = True, q
            elif k == 3:
                c["same"] = rng.choice(["1", "0", "on", "tRUE", "y", "truee", "tru", "false ", "Nope"])
            elif k == 4:
                c["skipgen"] = rng.choice(["1", "0", "off", "fALSE", "n", "yess", "t", "noo"])
            elif k in (5, 6):
                c["syntax"] = False
                c["text"] = rng.choice(["severity = \n", "severity = {\n", "nosuch = 1\n", "disable = { \"W-001\"\n", "severity convention\n", "= x\n", "disable = { \"a\" \"b\" }\n", "garbage\n",
                                        "severity = \"style\"\nunknown_key = \"x\"\n", "severity = \"a\" \"b\" }\n", "ordering_rules = }\n"])
            else:
                c["readable"] = False
        b.config(**c)
        if c.get("readable") is False and rng.random() < .5:
            b.extra["cfgpath"] = "nodir/selint.conf"
    for o, a in opts + last:
        b.opt(o, a, rng.randint(0, 3))
    rng.shuffle(b.argv) if not last else None
    if rng.random() < .15 and args and not last:
        b.extra["args_first"] = True
    elif rng.random() < .1 and args and not last:
        b.extra["dashdash"] = True
    if rng.random() < .06:
        args = rng.choice([[""], ["", "a.te"], ["a.te", ""]])
    elif rng.random() < .05 and not last:
        b.context("")
    b.arg(*args)
    return b


def p08(rng):
    r = rng.random()
    loose = rng.choice([0, .1, .3, .6])
    # a disable comment reaches the statement before it: none where statements are followed by carriage returns
    crlf = rng.random() < .2
    mk = lambda: Style(rng, loose=loose, comments=rng.choice([0, .2, .6]), blanks=rng.choice([0, .3, .7]), same_line=rng.choice([0, .2, .6]), crlf=crlf,
                       final_newline=rng.random() < .6, dnl=rng.choice([0, .1, .3]), forms=.3)
    b = p_general(rng, nmods=(1, 2), n=(3, 8, 14), fc=.4, style=mk, ex=0 if crlf else rng.choice([0, 0, .1]))
    if r < .08:
        big(rng, b)
    return b


def big(rng, b):
    """Long lines and large numbers of lines."""
    k = rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000])
    kind = rng.randrange(4)
    D = lambda nm: {"k": "DECL", "fl": "type", "name": nm, "attrs": []}
    if kind == 0:      # a long line
        perms = ["p%05d" % i for i in range(max(1, k // 7))]
        s = [{"k": "HEADER", "name": "big", "bare": False}, D("big_t"),
             {"k": "AV", "av": "allow", "src": ["big_t"], "tgt": ["self"], "cls": ["file"], "perms": perms}, {"k": "SEMICOLON"}, {"k": "SEMICOLON"}]
        b.policy("big.te", s)
    elif kind == 1:    # many lines before the finding
        s = [{"k": "HEADER", "name": "big", "bare": False}] + [{"k": "COMMENT", "_node": False, "_text": "#" * (i % 7 + 1)} for i in range(min(k, 8192))] + [{"k": "SEMICOLON"}]
        b.policy("big.te", s)
    elif kind == 2:    # a long name
        nm = "big_" + "x" * k
        s = [{"k": "HEADER", "name": "big", "bare": False}, D(nm), {"k": "AV", "av": "allow", "src": [nm], "tgt": [nm], "cls": ["file"], "perms": ["read"]}, {"k": "SEMICOLON"}]
        b.policy("big.te", s)
    else:              # one statement over many lines
        perms = ["p%05d" % i for i in range(max(2, min(k, 4100) // 2))]
        b.policy("big.te", [{"k": "HEADER", "name": "big", "bare": False}, D("big_t"),
                 {"k": "AV", "av": "allow", "src": ["big_t"], "tgt": ["self"], "cls": ["file"], "perms": perms}, {"k": "SEMICOLON"}], Style(rng, loose=1.0))
    b.arg("big.te")
    b.opt("d", "C-001")
    b.opt("d", "C-005")


def p10(rng):
    return templates(rng)


class TGen(Gen):
    """Templates that declare, and call each other."""
    PAR = ["$1", "$1_t", "$2", "$2_t", "$1_$2_t", "$1$1", "x_$1_y", "$3_t", "$1_exec_t", "$2_$1_$2", "$10_t", "$1_r", "$12", "$9_t", "$11_$1", "$1_a_$1_b", "$1_x_t"]

    def decl_in(self):
        fl = self.rng.choices(["type", "attribute", "role", "attribute_role", "bool"], [6, 2, 2, 1, 2])[0]
        nm = self.pick(self.PAR) if self.rng.random() < .85 else self.m + "_fix_" + self.ident(2)
        s = {"k": "DECL", "fl": fl, "name": nm, "attrs": []}
        if fl == "type" and self.rng.random() < .3:
            s["aliases"] = [self.pick(self.PAR) for _ in range(self.rng.randint(1, 2))]
        if fl == "bool":
            s["_form"] = self.rng.choice(["gen_tunable", "gen_bool", "bool"])
        return s

    def targs(self, inside):
        n = self.rng.choice([0, 1, 1, 2, 2, 3, 10, 12]) if self.rng.random() < .3 else self.rng.choice([1, 2, 2])
        pool = (["$1", "$2", "$1_sub", "a_$1", "$2_$1"] if inside else []) + ["alpha", "beta", "gam_x", "foo", "bar", "x1", "d"]
        return [self.pick(pool) if self.rng.random() < .94 else "" for _ in range(n)]

    def tcall(self, name, inside):
        a = self.targs(inside)
        return {"k": "CALL", "name": name, "args": a, "sp": [False] * len(a), "_groups": [(x, False) for x in a]}

    def body(self, callees, depth=2):
        out = []
        for _ in range(self.rng.choice([0, 1, 2, 3])):
            r = self.rng.random()
            if r < .55 or not callees:
                out.append(self.decl_in())
            elif r < .85:
                out.append(self.tcall(self.rng.choice(callees), True))
            elif depth > 0:
                k = self.rng.choice(["OPTIONAL", "IFDEF", "TUNABLE"])
                inner = self.body(callees, depth - 1)
                if not inner:
                    continue
                if k == "OPTIONAL":
                    out.append({"k": k, "kids": inner})
                elif k == "IFDEF":
                    out.append({"k": k, "kids": [{"k": "M4ARG", "kids": inner}]})
                else:
                    out.append({"k": k, "_cond": ["x_bool"], "kids": [{"k": "M4ARG", "kids": inner}]})
        return out


def templates(rng, stress=False):
    b = Builder()
    w = World(rng, rng.choice([2, 3]))
    g = TGen(rng, w, fresh=.1)
    tm = []
    for m in w.mods:
        w.tmpls[m] = [m + "_" + x for x in ("template", "role_template", "sub_template", "t4") if rng.random() < .6]
        tm += w.tmpls[m]
    order = list(tm)
    rng.shuffle(order)
    cyc = rng.random() < .15
    out = []
    known = []
    # expansions that will be declared, to be used in rules
    for m in w.mods:
        g.m = m
        body = []
        for t in w.tmpls[m]:
            i = order.index(t)
            callees = order if cyc else order[:i]
            kids = []
            if rng.random() < .3:
                g.ctx = "tmpl"
                kids.append(g.g_GENREQ(1))
                g.ctx = "te"
            kids += g.body(callees)
            body.append({"k": "COMMENT", "_node": True, "_text": "# t"})
            body.append({"k": "TEMPLATE", "name": t, "kids": kids})
        for i_ in w.ifs[m][:1]:
            body.append({"k": "INTERFACE", "name": i_, "kids": [{"k": "AV", "av": "allow", "src": ["$1"], "tgt": ["self"], "cls": ["file"], "perms": ["read"]}]})
        if body:
            b.policy(m + ".if", body)
            out.append(m + ".if")
        # the te file: calls, then uses
        st = [{"k": "HEADER", "name": m, "bare": False}]
        for nm in w.types[m]:
            st.append(g.g_DECL(0, "type", nm))
        calls = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if tm:
                c = g.tcall(rng.choice(tm), False)
                calls.append(c)
                if rng.random() < .25:
                    c = {"k": "OPTIONAL", "kids": [c]}
                st.append(c)
        known += [(c["name"], c["args"]) for c in calls]
        w.types.setdefault(m, [])
        b_ = st
        b_uses = (m, st)
        out.append(b_uses)
    paths = []
    guess = []
    for _, args in known:
        for par in TGen.PAR:
            x = par
            for j in range(12, 0, -1):
                x = x.replace("$%d" % j, args[j - 1] if j <= len(args) else "")
            if x and x[0].isalpha():
                guess.append(x)
    guess = guess or ["alpha_t"]
    for o in out:
        if isinstance(o, str):
            paths.append(o)
            continue
        m, st = o
        g.m = m
        for _ in range(rng.choice([2, 5, 9])):
            q = [rng.choice(guess) for _ in range(rng.choice([1, 1, 2]))]
            r = rng.random()
            if r < .7:
                st.append({"k": "AV", "av": "allow", "src": q, "tgt": [rng.choice(guess + w.pool(w.types))], "cls": ["file"], "perms": ["read"]})
            elif r < .85:
                st.append({"k": "GENREQ", "unq": False, "kids": [{"k": "REQDECL", "fl": rng.choice(["type", "role", "attribute", "bool"]), "names": [q[0]], "attrs": []}]})
            else:
                st.append({"k": "RTYPES", "role": rng.choice(guess), "types": q})
        b.policy(m + ".te", st)
        paths.append(m + ".te")
    if rng.random() < .4:
        b.fc("zz.fc", ["/x%d gen_context(system_u:%s:%s,s0)" % (i, rng.choice(["object_r"] + guess), rng.choice(guess)) for i in range(6)])
        paths.append("zz.fc")
    # an if file that is only used in a requirement
    if rng.random() < .5:
        b.policy("uses.if", [{"k": "INTERFACE", "name": "uses_x", "kids": [
            {"k": "GENREQ", "unq": False, "kids": [{"k": "REQDECL", "fl": rng.choice(["type", "role", "attribute", "bool"]), "names": [x], "attrs": []} for x in rng.sample(guess, min(4, len(guess)))]}]
            + [{"k": "AV", "av": "allow", "src": ["$1"], "tgt": [rng.choice(guess)], "cls": ["file"], "perms": ["read"]} for _ in range(2)]}])
        paths.append("uses.if")
    rng.shuffle(paths)
    b.arg(*paths)
    if rng.random() < .3:
        b.opt("s")
    return b


def chains(rng):
    """What an interface is (a transition, an association, a file transition) follows from a chain of calls through other files."""
    b = Builder()
    w = World(rng, rng.choice([3, 4, 5]))
    w.chain = w.links()
    paths = []
    call = lambda f, *a: {"k": "CALL", "name": f, "args": list(a), "sp": [False] * len(a), "_groups": [(x, False) for x in a]}
    links = [x[0] for m in w.mods for x in w.chain[m]]
    for m in w.mods:
        if w.chain[m]:
            b.policy(m + ".if", [x for n, req, body in w.chain[m] for x in ({"k": "COMMENT", "_node": True, "_text": "## <summary>x</summary>"}, {"k": "INTERFACE", "name": n, "kids": [copy.deepcopy(r) for r in req] + [dict(body)]})])
            paths.append(m + ".if")
    m = w.mods[0]
    st = [{"k": "HEADER", "name": m, "bare": False}, {"k": "DECL", "fl": "type", "name": m + "_t", "attrs": []}]
    st += [rng.choice([call(rng.choice(links), m + "_t", rng.choice([m + "_t", m + "_r"])), {"k": "AV", "av": "allow", "src": [m + "_t"], "tgt": ["self"], "cls": ["file"], "perms": ["read"]}]) for _ in range(rng.choice([2, 4, 8]))]
    b.policy(m + ".te", st)
    paths.append(m + ".te")
    rng.shuffle(paths)
    b.arg(*paths)
    b.config(order=rng.choice(ORDERS[1:]))
    return b


def p09(rng):
    r = rng.random()
    if r < .3:
        b = templates(rng)
    elif r < .45:
        b = p16(rng)
    elif r < .55:
        return chains(rng)
    else:
        b = p_general(rng, nmods=(2, 3, 4), fc=.4, n=(2, 6), dup=False)
    for o in ("v", "dbg"):
        if rng.random() < .3:
            b.opt(o)
    if rng.random() < .3:
        b.opt("color", rng.choice(["on", "off", "auto"]), rng.randint(0, 1))
    if r >= .3 and rng.random() < .4 and not any(x["o"] == "r" for x in b.argv):
        b.args = ["."] if rng.random() < .5 else ["./"]
        b.opt("r")
        b.shuf = True
    return b


def p11(rng):
    return p_general(rng, nmods=(2, 3, 4), iff=.5, n=(6, 12, 20), own=.3, kinds={"RAW": .1, "SEMICOLON": .1, "WORD": .1, "REQUIRE": 2, "GENREQ": 3, "OPTIONAL": 4, "COMMENT": .3},
                     depth=rng.choice([1, 3, 5]), conf=.2, src=.2)


def p12(rng):
    w = None
    if rng.random() < .25:
        w = World(rng, 3, names=["kernel"] + rng.sample([m for m in MODNAMES if m != "kernel"], rng.choice([1, 2])))
        rng.shuffle(w.mods)
    return p_general(rng, world=w, nmods=(1, 2, 3), te=.6, iff=1, n=(1, 3), params=rng.choice([.2, .5]), kinds={"GENREQ": 3, "REQUIRE": 2, "OPTIONAL": 3, "RTYPES": 2, "RT": 2, "RALLOW": 2, "DECL": 2}, conf=.2, src=.2)


def p13(rng):
    return p_general(rng, nmods=(2, 3, 4), src=.75, sup=.9, n=(4, 10), kinds={"CALL": 30, "OPTIONAL": 6, "IFDEF": 2, "BOOLEAN": 2, "TUNABLE": 2}, badsp=.3, conf=.2, depth=4)


def p14(rng):
    return p_general(rng, nmods=(1, 2), src=.8, sup=.95, n=(6, 14), kinds={"AV": 30, "XAV": 8, "TT": 4, "RT": 4, "GENREQ": 4, "DECL": 3}, conf=.2,
                     full=rng.random() < .6, fresh=.2)


class PGen(Gen):
    """Access rules near the permission macros that are defined."""
    FCL = ["file", "dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"]
    DEFS = []

    def g_AV(self, depth):
        s = Gen.g_AV(self, depth)
        if self.rng.random() < .8:
            s["av"] = "allow"
            s["cls"] = [self.pick(self.FCL)]
            if self.DEFS and self.rng.random() < .8:
                near = [x for x in self.DEFS if x["name"].endswith(s["cls"][0] + "_perms")] or self.DEFS
                d = self.pick(near)
                q = [p for p in d["items"] if self.rng.random() < .85]
                if self.rng.random() < .4:
                    q += self.rng.sample(gensup.FILEPERMS, self.rng.randint(1, 3))
                if self.rng.random() < .2:
                    q.append(self.pick([x["name"] for x in self.DEFS]))
                if self.rng.random() < .1:
                    q.append(self.pick(["audit_access", "quotaon", "nosuch"]))
                q = list(dict.fromkeys(q)) if self.rng.random() < .9 else q
                if self.rng.random() < .5:
                    self.rng.shuffle(q)
                s["perms"] = q or ["read"]
            else:
                s["perms"] = self.rng.sample(gensup.FILEPERMS, self.rng.choice([1, 2, 3, 5, 8]))
        if self.rng.random() < .2:
            s["cls"] = [self.pick(CLASSES) for _ in range(self.rng.choice([1, 2, 3]))]
            s["perms"] = [self.pick(["read_file_perms", "rw_socket_perms", "signal_perms", "rw_term_perms", "create_netlink_socket_perms", "rw_lnk_file_perms", "read_fifo_file_perms",
                                     "r_netlink_route_socket_perms", "all_capability_perms", "x_foo_class_perms", "rw_file_perms", "file_perms", "xfile_perms", "create_stream_socket_perms",
                                     "rw_socket_x_perms", "list_dir_perms", "manage_chr_file_perms", "rw_tcp_socket_perms", "socket_perms", "a_socket_perms", "rw_unix_stream_socket_perms",
                                     "rw_process_perms", "read", "write"]) for _ in range(self.rng.choice([1, 1, 2]))]
        return s


def p15(rng):
    b = Builder()
    w = World(rng, 1)
    g = PGen(rng, w, kinds={"AV": 60})
    defs = []
    for nm, it in gensup.STD_MACROS:
        if rng.random() < .5:
            defs.append({"name": nm, "items": it.split(), "warn": rng.random() < .05})
    defs += gensup.macro_defs(rng, rng.choice([0, 3, 8, 20]))
    if rng.random() < .4:
        rng.shuffle(defs)
    if not defs:
        defs = gensup.macro_defs(rng, 2)
    g.DEFS = defs
    if rng.random() < .9:
        b.opt("s")
    b.sup("obj_perm_sets.spt", gensup.obj_perm_sets(rng, defs))
    b.arg("obj_perm_sets.spt")
    policy(rng, b, w, g, n=(12, 25), iff=.3, te=1)
    if rng.random() < .4:
        b.sup("access_vectors", gensup.access_vectors(rng))
        b.arg("access_vectors")
    b.opt("d", "C-001")
    return b


class OGen(Gen):
    """Statements for the ordering check: few names, so that groups meet."""

    def carg(self):
        if self.stems and self.rng.random() < .3:
            return self.pick(self.w.mods if self.rng.random() < .3 else [self.m]) + self.pick(["_r", "_t", "", "_roles", "_x", "r", "_admin_r"])
        return Gen.carg(self)


def p16(rng):
    b = Builder()
    w = World(rng, rng.choice([2, 3, 4]))
    for m in w.mods:
        w.types[m] = w.types[m][:rng.choice([1, 2, 4])]
    kinds = {"AV": 8, "CALL": 8, "DECL": 3, "RAW": .2, "SEMICOLON": .3, "WORD": .5, "COMMENT": .3, "GENREQ": .5, "OPTIONAL": 3, "TUNABLE": 2, "IFDEF": 2, "BOOLEAN": 1, "TT": 2}
    if rng.random() < .3:
        kinds = {"AV": 6, "CALL": 10, "OPTIONAL": 4, "TUNABLE": 2, "IFDEF": 2}
        kinds = dict({k: .1 for k in Gen.KINDS}, **kinds)
    g = OGen(rng, w, kinds=kinds, own=.75, depth=rng.choice([1, 2, 3]), multi=.15, fresh=.1, ex=rng.choice([0, 0, .1, .4]), exids=["C-001", "C-001", "C-005", "W-001"], dup=False)
    g.stems = rng.random() < .4
    src = rng.random() < .8
    if src:
        b.opt("s")
        b.sup("modules.conf", gensup.mods_conf(rng, w.mods, wild=.1))
    paths = policy(rng, b, w, g, n=(4, 8, 12, 18), te=1, iff=.8, layers=True, args=False)
    if rng.random() < .75:
        if rng.random() < .6:
            b.arg(".")
        else:                     # the layers themselves
            dirs = sorted({p.split("/")[0] for p in paths})
            rng.shuffle(dirs)
            b.arg(*(dirs + (["modules.conf"] if src else [])))
        b.opt("r")
        b.shuf = True
    else:
        b.arg(*(paths + (["modules.conf"] if src else [])))
    if not src and "." not in b.args:
        system(rng, b, w, g, [m for m in w.mods if rng.random() < .7], kernel=.2, headers=.9)
    rnd = rng.random()
    if rnd < .85:
        b.config(order=rng.choice(ORDERS[1:]))
    return b


def p17(rng):
    b = p_general(rng, nmods=(1, 2), n=(4, 8), conf=.8, kinds={"REQUIRE": 4, "GENREQ": 6, "SEMICOLON": 1.5, "WORD": 3, "IFELSE": 4, "OPTIONAL": 5, "DECL": 4, "AV": 4, "CALL": 4, "COMMENT": 3}, src=.2)
    return b


def p18(rng, bad=.35):
    b = Builder()
    w = World(rng, 2)
    g = Gen(rng, w)
    paths = policy(rng, b, w, g, n=(1, 2), iff=.2, te=.7, args=False)
    for m in w.mods:
        fcfile(rng, b, w, m + ".fc", m, rng.choice([1, 5, 20, 60, 120]), bad=bad)
        paths.append(m + ".fc")
    b.arg(*paths)
    if rng.random() < .6:
        rnd_config(rng, b, severity="", disable=[], en_normal=[], en_source=[])
    b.opt("d", "C-001")
    return b


def p19(rng):
    b = p18(rng, bad=.05)
    if rng.random() < .4:
        w = World(rng, 1)
        for nm in ("base.fc", "all_mods.fc", "x.mod.fc", "xbase.fc", "base.mod.fc", ".mod.fc", "mod.fc"):
            if rng.random() < .4:
                fcfile(rng, b, w, nm, w.mods[0], 6, bad=.02)
                b.arg(nm)
        for m in w.mods:
            if not any(a in (m + ".te",) for a in b.args):
                g = Gen(rng, w)
                g.m = m
                b.policy(m + ".te", g.te(2))
                b.arg(m + ".te")
    return b


def p20(rng):
    b = Builder()
    w = World(rng, rng.choice([1, 2, 3]))
    alln = w.pool(w.ifs) + w.pool(w.tmpls) or ["foo_read"]
    g = Gen(rng, w, kinds={"DECL": 10, "GENREQ": 5, "REQUIRE": 3, "AV": 1, "CALL": 1, "OPTIONAL": rng.choice([2.5, 8]), "IFDEF": rng.choice([1, 4]), "TUNABLE": rng.choice([1, 4]), "BOOLEAN": rng.choice([1, 4]), "IFELSE": 1}, fresh=.2)
    paths = []
    for m in w.mods:
        g.m = m
        fn = rng.choice([m, m, m, m + ".v2", m.upper(), m + "-x", m[:-1] or "q", "a.te", m + "x"])
        hd = rng.choice([m, fn if "." not in fn and "-" not in fn else m, m + "x", m[:-1] or "z", m.upper(), m])
        st = g.te(rng.choice([2, 5]), header=hd, bare=rng.random() < .4)
        for s in st:
            if s["k"] == "DECL" and rng.random() < .15 and s["fl"] != "class":
                s["name"] = rng.choice(alln)
        if fn + ".te" not in paths:
            b.policy(fn + ".te", st, random_style(rng))
            paths.append(fn + ".te")
        if rng.random() < .85:
            b.policy(m + ".if", g.iff(), random_style(rng))
            paths.append(m + ".if")
    rng.shuffle(paths)
    b.arg(*paths)
    if rng.random() < .3:
        b.opt("s")
    return b


def p22(rng):
    b = Builder()
    w = World(rng, rng.choice([2, 3]))
    g = Gen(rng, w, kinds={"CALL": 12, "AV": 12, "TT": 2}, depth=2)
    b.opt("s" if rng.random() < .85 else "v")
    paths = policy(rng, b, w, g, n=(4, 10), args=False)
    if not any(x["o"] == "s" for x in b.argv):
        system(rng, b, w, g, [m for m in w.mods if rng.random() < .5], kernel=.9)
    paths += support(rng, b, w, bad=.25, std=.3) if rng.random() < .7 else support(rng, b, w, av=.5, mods=.5, spt=.5, std=.3)
    rng.shuffle(paths)
    b.arg(*paths)
    if rng.random() < .35:        # others of a context, which count only where there are none
        for d in rng.choice([["ctx/"], ["ctx/"], ["ctx/", "ctx/sub/"], ["ctx/", "ctx2/"]]):
            support(rng, b, w, d, bad=.1, std=.3)
            b.mkdir(d[:-1])
            if d != "ctx/sub/":
                b.context(d[:-1], rng.randint(0, 1))
    b.opt("d", "C-001")
    return b


def p23(rng):
    r = rng.random()
    if r < .2:
        return templates(rng)
    return p_general(rng, nmods=(2, 3, 4), n=(4, 8), fc=.5, kinds={"DECL": 10, "TYPEALIAS": 3, "TATTR": 3, "RATTR": 3, "GENREQ": 4, "REQUIRE": 2, "OPTIONAL": 3}, conf=.4, fresh=.5, src=.3)


def p24(rng):
    r = rng.random()
    deep = rng.choice([2, 4, 6])
    k = {"OPTIONAL": 8, "BOOLEAN": 5, "TUNABLE": 5, "IFDEF": 5, "IFELSE": 4, "USERDEBUG": 2}
    b = p_general(rng, nmods=(1, 2), n=(1, 3, 6), kinds=k, depth=deep, src=.5, conf=.3)
    return b


# ---- policy files that do not parse
BADSTMT = [")", "}", ",", ":", "allow ;", "type ;", "allow a b:c ;", "allow a b c d;", "policy_module(x,1.0)", "module x 1.0;", "attribute ,;", "type a b;", "role x y;",
           "allow a b:c d", "optional_policy(x)", "gen_require(`)", "interface", "typealias a b;", "type_transition a b:c;", "bool;", "ifdef(", "]", "allow a { } : c d;",
           "permissive;", "tunable_policy(`', `x')", "require { }", "if ( ) { allow a b:c d; }", "-", "class", "\"x\"", "gen_bool(x)", "alias", "1.0", "' '", "` x",
           "allow a b:c { };", "allowxperm a b:c read 0x1;;x=", "sid", "portcon tcp", "@", "\\", "allow a b:c d; }", "\"unterminated", "&&", "refpolicywarn(x)",
           "auditallow a b;", "neverallow a b;", "dontaudit a b;", "role_transition a b:c d e;", "type_change a b c;", "range_transition a b c d;", "attribute a, b;", "roleattribute a;", "typebounds a;",
           "role a types;", "bool a true;", "gen_tunable(a)", "allowxperm a b;", "permissive a b;", "fs_use_task a b:c:d", "common a { b }", "else { ; }", "template(`a',`;')", "class a inherits b"]


def p04(rng):
    b = Builder()
    w = World(rng, rng.choice([1, 2, 3]))
    g = Gen(rng, w, ex=rng.choice([0, 0, .2]))
    paths = policy(rng, b, w, g, n=(1, 4, 8), fc=.3, args=False)
    for o, p in (("S", .4), ("so", .2), ("F", .4)):
        if rng.random() < p:
            b.opt(o)
    r = rng.random()
    where = "ctx/" if rng.random() < .3 else ""
    if where:
        b.context("ctx")
        b.mkdir("ctx")
        g.m = w.mods[0]
        b.policy("ctx/good.te", g.te(2))
    extra = []
    if r < .12:
        pass
    elif r < .2:
        nm = rng.choice(["nosuch.te", "nosuch.if", "nosuch.fc"])
        if rng.random() < .5:
            b.other(where + nm, _missing="dangling")
        if not where:
            extra.append(nm)
    elif r < .35:
        kind = rng.choice(["te-as-if", "if-as-te", "av-as-te", "spt-as-te", "av-as-if", "common-as-te", "te-twice", "if-in-te", "te-in-if"])
        from render import render
        g.m = w.mods[0]
        te, _ = render(g.te(2, bare=rng.random() < .5))
        iff, _ = render(g.iff())
        if kind == "te-as-if":
            b.bad(where + "wrong.if", te)
            nm = "wrong.if"
        elif kind == "if-as-te":
            b.bad(where + "wrong.te", iff)
            nm = "wrong.te"
        elif kind in ("av-as-te", "av-as-if"):
            nm = "wrong." + kind[-2:]
            b.bad(where + nm, "class file { read }\n")
        elif kind == "common-as-te":
            nm = rng.choice(["wrong.te", "wrong.if"])
            b.bad(where + nm, "common file { read }\n")
        elif kind == "spt-as-te":
            nm = rng.choice(["wrong.te", "wrong.if"])
            b.bad(where + nm, "define(`x_perms',`{ read }')\n" if nm.endswith("if") else "define(`x_perms',`{ read }')\n")
        elif kind == "te-twice":
            nm = "wrong.te"
            b.bad(where + nm, te + te)
        elif kind == "if-in-te":
            nm = "wrong.te"
            b.bad(where + nm, te + iff)
        else:
            nm = "wrong.if"
            b.bad(where + nm, iff + te)
        if not where:
            extra.append(nm)
    else:
        # a file with one broken statement at a known line
        from render import render
        g.m = w.mods[0]
        isif = rng.random() < .3
        st = g.iff() if isif else g.te(rng.choice([1, 4, 10]))
        text, nodes = render(st, Style(rng, blanks=.2, comments=.2))
        lines = text.split("\n")
        if isif:
            line = 0
            text = text + rng.choice(["allow a b:c d;", "interface(`x')", "')", "x", "interface(`x',`", "template(`x,`')", "interface(x,`allow a b:c d;')", "type x;", ";"]) + "\n"
        else:
            bad = rng.choice(BADSTMT)
            line = len(lines) if lines[-1] == "" else len(lines) + 1
            if lines[-1] != "":
                text += "\n"
            one_tok = bad in (")", "}", ",", ":", "]", "-", "@", "\\", "\"x\"", "1.0", "alias", "&&", "' '", "interface", "allow ;", "type ;", "policy_module(x,1.0)", "module x 1.0;")
            text = text + bad + "\n"
            if rng.random() < .5 and bad not in ("` x", "\"unterminated"):
                text += rng.choice(["type after_t;\n", "allow foo_t bar_t:file read;\n"] + ([";\n"] if bad != "allow a b:c d" else []))
            line = line if one_tok else 0
        nm = "broken.if" if isif else "broken.te"
        b.bad(where + nm, text, line)
        if not where:
            extra.append(nm)
    paths += extra
    rng.shuffle(paths)
    b.arg(*paths)
    b.shuf = True
    return b


def p21(rng):
    """Everything else, and damaged, huge and odd inputs."""
    import stress
    r = rng.random()
    if r < .22:
        return PROFILES[rng.choice([p for p in PROFILES if p not in ("P21", "P03")])](rng)
    if r < .3:
        b = PROFILES[rng.choice(["P12", "P13", "P14", "P15", "P15", "P16", "P20"])](rng)
        b.after = stress.stretch
        return b
    if r < .6:
        b = PROFILES[rng.choice([p for p in PROFILES if p not in ("P21", "P08")])](rng)
        b.after = stress.damage if rng.random() < .75 else stress.stretch
        return b
    if r < .85:
        return stress.stress(rng)
    if r < .88:
        return stress.long_macros(rng)
    if r < .92:
        return stress.bytes_only(rng)
    return stress.odd_args(rng)


PROFILES = {"P21": p21, "P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12,
            "P13": p13, "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18, "P19": p19, "P20": p20, "P22": p22, "P23": p23, "P24": p24}


# property -> (share of the cases with changed texts, which files, gentle edits, share of the files)
CHANGED = {"P04": (.5, ("te", "if"), False, .1), "P24": (.35, ("te", "if"), None, .2), "P08": (.3, ("te", "if"), True, .3), "P02": (.25, ("te", "if"), True, .2),
           "P22": (.4, ("sup",), None, .5), "P03": (.15, ("te", "if"), True, .2), "P17": (.2, ("te", "if"), True, .2), "P23": (.15, ("te", "if"), True, .2)}
CHANGED.update((p, (.15, ("te", "if"), True, .2)) for p in ("P10", "P11", "P12", "P13", "P14", "P15", "P20", "P16"))


def make(prop, rng, cid):
    b = PROFILES[prop](rng)
    c = b.finish(cid, shuffle=rng if getattr(b, "shuf", False) else None)
    if getattr(b, "after", None):
        b.after(rng, c)
    if not c.get("free") and prop in CHANGED:
        share, which, gentle, files = CHANGED[prop]
        if rng.random() < share:
            import mutate
            mutate.texts(rng, c, which, files, gentle)
    return c
