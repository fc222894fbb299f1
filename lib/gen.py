"""Random abstract policies.  A World holds the names of a few modules; Gen
draws statements over them.  Everything is derived from one random source."""
import copy

from render import Style

ALL_IDS = ["C-001", "C-004", "C-005", "C-006", "C-007"] + ["S-%03d" % i for i in range(1, 11)] + \
          ["W-%03d" % i for i in range(1, 12)] + ["E-%03d" % i for i in range(2, 11)]

MODNAMES = ["foo", "bar", "baz", "quxd", "kernel", "init", "net_a", "net_b", "apache", "sysa", "fs", "foo_bar",
            "corecommands", "mls", "mcs", "userdom", "zed", "filesystem", "devices", "foobar", "bazooka", "net", "sysadm", "apachectl", "initrc", "kernelx", "kernel_x", "a_module_with_quite_a_long_name"]
RELATED = [q for a in MODNAMES for q in [[b for b in MODNAMES if b.startswith(a)]] if len(q) > 1]
CLASSES = ["file", "dir", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file", "process", "tcp_socket",
           "udp_socket", "netlink_route_socket", "socket", "capability", "filesystem", "unix_stream_socket", "foo_class",
           "netlink_x", "socket_x"]
PERMS = ["append", "create", "execute", "getattr", "ioctl", "lock", "map", "open", "read", "relabelfrom", "rename",
         "setattr", "unlink", "write", "search", "add_name", "remove_name", "associate", "mounton", "entrypoint",
         "signal", "transition", "sigchld", "watch", "link", "rmdir", "reparent", "execute_no_trans", "relabelto"]
MACROS = ["read_file_perms", "rw_file_perms", "create_dir_perms", "manage_file_perms", "exec_file_perms",
          "list_dir_perms", "rw_lnk_file_perms", "read_lnk_file_perms", "write_sock_file_perms", "rw_fifo_file_perms",
          "rw_term_perms", "rw_chr_file_perms", "read_blk_file_perms", "rw_socket_perms", "rw_stream_socket_perms",
          "create_netlink_socket_perms", "signal_perms", "r_netlink_route_socket_perms", "all_foo_perms", "xfile_perms",
          "a_perms", "file_perms", "create_socket_perms", "r_netlink_socket_perms", "rw_process_perms", "install_all_perms", "all_perms", "all_", "x_all_y_perms"]
WORDS = ["word", "some_word", "stray_macro", "ok_macro", "enableaudit", "x86"]
IDENTCH = "abcdefghijklmnopqrstuvwxyz0123456789_"


class World:
    def __init__(self, rng, nmods=3, names=None, small=False, extra=()):
        self.rng = rng
        self.mods = names or rng.sample(MODNAMES, nmods)
        if not names and rng.random() < .06:                   # a long name
            self.mods[-1] = "long_" + "".join(rng.choice("abcdexyz_") for _ in range(rng.choice([15, 20, 27, 60, 123, 200]))) + "z"
        if not names and nmods > 1 and rng.random() < .3:      # names of which one begins with another
            rel = rng.sample(rng.choice(RELATED), 2)
            rng.shuffle(rel)
            self.mods = (rel + [m for m in self.mods if m not in rel])[:nmods]
            rng.shuffle(self.mods)
        self.types, self.attrs, self.roles, self.rattrs, self.bools = {}, {}, {}, {}, {}
        self.ifs, self.tmpls = {}, {}
        for m in self.mods:
            r = rng.random
            self.types[m] = [m + "_t"] + [m + x for x in ("_exec_t", "_conf_t", "_a_t", "x_t", "_s", "", "_T") if r() < .35]
            self.attrs[m] = [m + x for x in ("_domain", "_attr", "_filetype") if r() < .6]
            self.roles[m] = [m + x for x in ("_r", "_admin_r") if r() < .4]
            self.rattrs[m] = [m + x for x in ("_roles",) if r() < .5]
            self.bools[m] = [m + x for x in ("_can_x", "_use_y") if r() < .5]
            if m == "kernel":
                self.roles[m] = self.roles[m] or ["kernel_r"]
                self.rattrs[m] = self.rattrs[m] or ["kernel_roles"]
            if rng.random() < .04:                             # a long name
                rng.choice([self.types[m], self.roles[m], self.attrs[m]]).append(m + "_" + "".join(rng.choice("abcxyz") for _ in range(rng.choice([20, 31, 32, 63, 64, 127, 128, 250]))))
            if rng.random() < .2:                              # one name in several flavours
                tabs = [t for t in (self.types[m], self.attrs[m], self.roles[m], self.rattrs[m], self.bools[m])]
                src = rng.choice([t for t in tabs if t])
                rng.choice(tabs).append(rng.choice(src))
            self.ifs[m] = [m + "_" + x for x in ("read_conf", "domtrans", "filetrans", "type", "file", "run_role", "stub",
                                                 "x_stub", "etc_filetrans", "manage", "exemption", "signal") if r() < .35]
            self.tmpls[m] = [m + "_" + x for x in ("template", "role_template", "sub_template", "stub", "x_stub") if r() < (.4 if x[-1] == "e" else .15) and m + "_" + x not in self.ifs[m]]
        self.chain = self.links() if rng.random() < .35 else {m: [] for m in self.mods}
        if nmods > 1 and rng.random() < .15:                   # an interface defined twice
            m, k = rng.sample(self.mods, 2) if len(self.mods) > 1 else (self.mods[0], self.mods[0])
            names = [x for x in self.ifs[m] if x not in self.ifs[k] + self.tmpls[k]]
            if m != k and names:
                self.ifs[k].append(rng.choice(names))
        self.unknown = ["nosuch_t", "nosuch", "thing", "nosuch_r"]

    def links(self):
        """Interfaces each of which only calls the next one; the last one decides what the first one is."""
        rng = self.rng
        out = {m: [] for m in self.mods}
        n = rng.choice([1, 2, 3, 4, 6])
        own = [rng.choice(self.mods) for _ in range(n)]
        nm = ["%s_link%d" % (o, i) for i, o in enumerate(own)]

        def call(f, *a):
            return {"k": "CALL", "name": f, "args": list(a), "sp": [False] * len(a), "_groups": [(x, False) for x in a]}

        end = rng.choice([
            {"k": "AV", "av": "allow", "src": ["$1"], "tgt": ["self"], "cls": ["filesystem"], "perms": ["associate"]},
            {"k": "TT", "_kw": "type_transition", "src": ["$1"], "tgt": ["$2"], "cls": ["process"], "def": "$3"},
            {"k": "RTYPES", "role": "$1", "types": ["$2"]}, call("filetrans_pattern", "$1", "$2", "$3", "file"), call("domtrans_pattern", "$1", "$2")])
        def need():
            r = {"k": rng.choice(["GENREQ", "GENREQ", "REQUIRE"]), "unq": False, "kids": [{"k": "REQDECL", "fl": "type", "names": ["nosuch_t"], "attrs": []}]}
            return [r] * rng.choice([0, 0, 0, 1, 1, 2])

        for i in range(n):
            out[own[i]].append((nm[i], need(), end if i == n - 1 else call(nm[i + 1], "$1")))
            self.ifs[own[i]].append(nm[i])
        return out

    def pool(self, tab, m=None, other=None):
        out = []
        for k in self.mods:
            if m is not None and k != m:
                continue
            if other is not None and k == other:
                continue
            out += tab[k]
        return out


class Gen:
    """Draws statements of module m in a te or if file."""

    KINDS = {"AV": 10, "XAV": 1, "TT": 2, "RT": 1, "RALLOW": 1, "RTYPES": 1, "CALL": 8, "DECL": 4, "TYPEALIAS": 1,
             "TATTR": 2, "RATTR": 1, "PERMISSIVE": 1, "SEMICOLON": .5, "WORD": .5, "OPTIONAL": 2.5, "BOOLEAN": 1,
             "TUNABLE": 1, "IFDEF": 1, "IFELSE": .7, "DEFINE": .2, "REQUIRE": .7, "GENREQ": 1.5, "COMMENT": 1,
             "RAW": .5, "USERDEBUG": .3}

    def __init__(self, rng, world, kinds=None, own=.45, req_t=.5, ex=0.0, exids=None, depth=3, fresh=.3, params=.5,
                 multi=.3, dup=True, badsp=.12):
        self.rng, self.w = rng, world
        self.kinds = dict(self.KINDS)
        self.kinds.update(kinds or {})
        self.own, self.ex, self.exids, self.depth = own, ex, exids or ALL_IDS, depth
        self.fresh, self.params, self.multi, self.badsp = fresh, params, multi, badsp
        self.count = 0
        self.dup = dup
        self.m = world.mods[0]
        self.ctx = "te"

    # ---- names
    def pick(self, q, default="nosuch"):
        return self.rng.choice(q) if q else default

    def ident(self, n=6):
        self.count += 1
        return "".join(self.rng.choice(IDENTCH[:26]) for _ in range(n)) + str(self.count)

    def ty(self, target=False):
        r = self.rng.random()
        w = self.w
        if self.ctx != "te" and self.rng.random() < self.params:
            return self.pick(["$1", "$1_t", "$2", "$1", "$1"])
        if r < self.own:
            return self.pick(w.types[self.m] + w.attrs[self.m])
        if r < self.own + .3:
            return self.pick(w.pool(w.types) + w.pool(w.attrs))
        if r < self.own + .34:
            return self.pick(w.pool(w.rattrs) + w.pool(w.roles), "other_r")
        if r < self.own + .40:
            return self.pick(w.unknown)
        if target and r < self.own + .48:
            return "self"
        return self.pick(w.types[self.m])

    def role(self):
        w = self.w
        if self.ctx != "te" and self.rng.random() < self.params:
            return self.pick(["$1", "$1_r", "$2"])
        if self.rng.random() < .2:
            return "system_r"
        return self.pick(w.pool(w.roles, self.m) if self.rng.random() < .5 else w.pool(w.roles) + w.pool(w.rattrs), "nosuch_r")

    def tlist(self, target=False, role=False):
        one = (lambda: self.role()) if role else (lambda: self.ty(target))
        r = self.rng.random()
        if r > self.multi:
            return [one()]
        if r < .03:
            return ["*"]
        if r < .06:
            return ["~", one()]
        n = self.rng.randint(1, 4)
        q = [one() for _ in range(n)]
        if target and self.rng.random() < .12:
            q.insert(self.rng.choice([0, 0, len(q)]), "self")
        elif n > 1 and self.rng.random() < .4:
            j = self.rng.randrange(1, n)
            if not q[j].startswith("-") and len(q[j]) > 1:
                q[j] = "-" + q[j]
        return (["~"] + q) if r < .1 else q

    def clist(self):
        n = 1 if self.rng.random() < .75 else self.rng.randint(2, 3)
        q = self.rng.sample(CLASSES, n)
        r = self.rng.random()
        if r < .06:
            q[0] = self.pick(["file_class_set", "dir_file_class_set", "$1", "$2_class", "nosuchclass", "$x", "x_class_set_y"])
        if r > .98:
            return ["~"] + q
        return q

    def plist(self):
        r = self.rng.random()
        n = self.rng.choice([1, 1, 2, 2, 3, 4, 6])
        q = self.rng.sample(PERMS, n)
        if self.rng.random() < .35:
            q[self.rng.randrange(n)] = self.pick(MACROS)
        if self.rng.random() < .55:
            q.sort()
        if self.rng.random() < .07 and n > 1:
            q[1] = q[0]
        if self.rng.random() < .04:
            q[0] = self.pick(["nosuchperm", "all_x_perms", "$3", "Read", "all_perms"])
        if r < .04:
            return ["*"]
        if r < .08:
            return ["~"] + q
        return q

    def exids_for(self):
        n = self.rng.choice([1, 1, 1, 2, 3, 6])
        return self.rng.sample(self.exids, min(n, len(self.exids)))

    def deco(self, s):
        """A disable comment now and then."""
        if self.ex and self.rng.random() < self.ex:
            s["ex"] = self.exids_for()
            s["_exsp"] = self.rng.choice([" ", "", "\t", "  "])
            s["_exlead"] = self.rng.choice(["", " "])
            s["_exsep"] = self.rng.choice([",", ", "])
        return s

    # ---- statements
    def stmts(self, n, depth=None, ctxkind=None):
        depth = self.depth if depth is None else depth
        return [self.stmt(depth) for _ in range(n)]

    def some(self, depth, lo=1, hi=3):
        return self.stmts(self.rng.randint(lo, hi), depth - 1)

    def stmt(self, depth=2, kind=None):
        kinds = self.kinds
        ks = [k for k in kinds if kinds[k] > 0 and (depth > 0 or k not in
              ("OPTIONAL", "BOOLEAN", "TUNABLE", "IFDEF", "IFELSE", "USERDEBUG"))]
        k = kind or self.rng.choices(ks, [kinds[x] for x in ks])[0]
        s = getattr(self, "g_" + k)(depth)
        return s

    def g_AV(self, depth):
        return self.deco({"k": "AV", "av": self.rng.choices(["allow", "dontaudit", "auditallow", "neverallow"], [10, 2, 1, 1])[0],
                          "src": self.tlist(), "tgt": self.tlist(True), "cls": self.clist(), "perms": self.plist()})

    def g_XAV(self, depth):
        p = self.rng.choice([["0x8910"], ["0x10", "0x20"], ["0x20", "0x10"], ["0x10", "-", "0x20"], ["0x30", "-", "0x20"],
                             ["~", "0x10", "0x20"], ["0x11", "0x11"], ["unpriv_ioctls"], ["10", "9"], ["0x1", "0x2", "-", "0x5", "0x4"]])
        return self.deco({"k": "XAV", "av": self.rng.choice(["allow", "dontaudit", "auditallow", "neverallow"]),
                          "src": self.tlist(), "tgt": self.tlist(True), "cls": self.clist(), "perms": p, "_brace": self.rng.random() < .3})

    def g_TT(self, depth):
        kw = self.rng.choices(["type_transition", "type_member", "type_change", "range_transition"], [5, 1, 1, 1])[0]
        s = {"k": "TT", "_kw": kw, "src": self.tlist(), "tgt": self.tlist(True), "cls": self.clist(), "def": self.ty()}
        if kw == "range_transition":
            s["def"] = self.rng.choice(["s0", "mls_systemhigh"])
        elif kw == "type_transition" and self.rng.random() < .2:
            s["_file"] = self.rng.choice(["name", "a.b", "x-y", "."])
        return self.deco(s)

    def g_RT(self, depth):
        return self.deco({"k": "RT", "src": self.tlist(role=True), "tgt": self.tlist(), "def": self.role(),
                          "cls": self.clist() if self.rng.random() < .5 else []})

    def g_RALLOW(self, depth):
        return self.deco({"k": "RALLOW", "from": self.tlist(role=True), "to": self.tlist(role=True)})

    def g_RTYPES(self, depth):
        return self.deco({"k": "RTYPES", "role": self.role(), "types": self.tlist()})

    def callee(self):
        w = self.w
        r = self.rng.random()
        # the expansion of a template called by an interface depends on the order of the files
        tm = w.tmpls if self.dup or self.ctx != "if" else {m: [] for m in w.mods}
        if r < .25:
            return self.pick(w.pool(w.ifs, self.m) + w.pool(tm, self.m), "foo_read")
        if r < .7:
            return self.pick(w.pool(w.ifs) + w.pool(tm), "foo_read")
        if r < .85:
            return self.pick(w.mods) + "_" + self.pick(["nosuch", "no_such_if", ""])
        return self.pick(["filetrans_pattern", "read_files_pattern", "domain_auto_transition_pattern", "domain_transition_pattern",
                          "filetrans_add_pattern", "fs_getattr", "corecmd_exec_bin", "dev_read", "libs_use", "seutil_x", "auth_use",
                          "unknown_macro", "term_use", "sysnet_x", "nounderscore", "x_"])

    def carg(self):
        r = self.rng.random()
        if r < .75:
            return self.ty()
        if r < .8:
            return ""
        if r < .85:
            return self.pick(['"name"', '"a.b"'])
        return self.pick(["file", "dir", "s0", "mls_systemhigh", "s0:c0"[:2], "thing", "1024"])

    def g_CALL(self, depth, name=None, tmpl=False):
        name = name or self.callee()
        n = self.rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
        if self.rng.random() < .02:
            n = self.rng.choice([8, 9, 10, 11, 12, 16, 17])
        args, sp, groups = [], [], []
        j = 0
        istm = tmpl or any(name in q for q in self.w.tmpls.values())
        badsp = self.rng.random() < self.badsp and not istm
        brace = not badsp and not istm
        while j < n:
            if brace and self.rng.random() < .12:
                q = [self.ty() for _ in range(self.rng.randint(1, 3))]
                groups.append((q, False))
                args += q
                sp += [False] * len(q)
                j += 1
                continue
            a = self.carg()
            if j and badsp and self.rng.random() < .5 and a:
                x = True
                if a[0] not in '"' and self.rng.random() < .4 and len(a) > 1 and not a[0].isdigit():
                    a = "-" + a
                if a[0].isdigit():
                    a = "x" + a
            else:
                x = False
            args.append(a)
            sp.append(x)
            groups.append((a, x))
            j += 1
        return self.deco({"k": "CALL", "name": name, "args": [a.strip('"') if False else a for a in args], "sp": sp, "_groups": groups})

    def newname(self, fl):
        w, m = self.w, self.m
        if self.ctx != "te" and (self.dup or self.ctx == "tmpl") and self.rng.random() < self.params:
            return self.pick(["$1", "$1_t", "$1_x_t", "$2_t", "x_$1_t", "$1_$2"])
        tab = {"type": w.types, "attribute": w.attrs, "role": w.roles, "attribute_role": w.rattrs, "bool": w.bools}.get(fl)
        if tab is None:
            return self.pick(CLASSES)
        r = self.rng.random()
        if not self.dup and r >= self.fresh and tab[m]:
            return self.pick(tab[m])
        if not self.dup:
            r = 0
        if r < self.fresh or not w.pool(tab):
            return m + "_" + self.ident(3) + {"type": "_t", "role": "_r"}.get(fl, "")
        if r < self.fresh + .06:
            return self.pick(w.pool(w.ifs) + w.pool(w.tmpls), "foo_read_conf")
        if r < self.fresh + .12:
            return self.pick(w.pool(tab))
        return self.pick(tab[m] or w.pool(tab))

    def alias(self):
        w, m = self.w, self.m
        r = self.rng.random()
        if self.dup and r < .15:
            return self.pick(w.pool(w.attrs) + w.pool(w.roles) + w.pool(w.types), m + "_al_t")
        n = m + "_" + self.ident(3) + "_t"
        if r < .6:
            w.types[m].append(n)
        return n

    def g_DECL(self, depth, fl=None, name=None):
        if self.ctx == "tmpl" and not self.dup:
            return self.g_AV(depth)      # the first caller would own the name
        fl = fl or self.rng.choices(["type", "attribute", "role", "attribute_role", "bool", "class"], [6, 2, 2, 1, 2, .3])[0]
        s = {"k": "DECL", "fl": fl, "name": name or self.newname(fl), "attrs": []}
        if fl == "type":
            if self.rng.random() < .3:
                s["attrs"] = [self.pick(self.w.pool(self.w.attrs), "x_attr") for _ in range(self.rng.randint(1, 3))]
            if self.rng.random() < .12:
                s["aliases"] = [self.alias() for _ in range(self.rng.randint(1, 2))]
        elif fl == "bool":
            s["_form"] = self.rng.choice(["gen_tunable", "gen_bool", "bool", "gen_tunable_q"])
        elif fl == "class":
            s["attrs"] = self.plist()
        return self.deco(s)

    def g_TYPEALIAS(self, depth):
        if self.ctx == "tmpl" and not self.dup:
            return self.g_AV(depth)
        return self.deco({"k": "TYPEALIAS", "str": self.ty(), "aliases": [self.alias() for _ in range(self.rng.randint(1, 2))]})

    def g_TATTR(self, depth):
        return self.deco({"k": "TATTR", "type": self.ty(), "attrs": [self.pick(self.w.pool(self.w.attrs), "x_attr") for _ in range(self.rng.randint(1, 2))]})

    def g_RATTR(self, depth):
        return self.deco({"k": "RATTR", "type": self.role(), "attrs": [self.pick(self.w.pool(self.w.rattrs), "x_roles") for _ in range(self.rng.randint(1, 2))]})

    def g_PERMISSIVE(self, depth):
        return self.deco({"k": "PERMISSIVE", "str": self.ty()})

    def g_SEMICOLON(self, depth):
        return self.deco({"k": "SEMICOLON"})

    def g_WORD(self, depth):
        return self.deco({"k": "WORD", "name": self.pick(WORDS)})

    def g_COMMENT(self, depth):
        return {"k": "COMMENT", "_node": False, "_text": self.pick(["# c", "## doc", "#", "# selint-disable: W-001", "########"])}

    def g_RAW(self, depth):
        ctx = self.pick([["gen_context", "(", "system_u", ":", "object_r", ":", "foo_t", ",", "s0", ")"],
                         ["system_u", ":", "object_r", ":", "foo_t", ":", "s0"], ["system_u", ":", "object_r", ":", "foo_t"],
                         ["gen_context", "(", "system_u", ":", "object_r", ":", "foo_t", ",", "s0", "-", "mls_systemhigh", ",", "mcs_allcats", ")"],
                         ["gen_context", "(", "system_u", ":", "object_r", ":", "foo_t", ")"],
                         ["gen_context", "(", "system_u", ":", "object_r", ":", "foo_t", ",", "s0", ",", ")"]])
        return self.deco({"k": "RAW", "toks": self.pick([
            ["genfscon", "proc", "/net"] + ctx, ["sid", "kernel"] + ctx, ["portcon", "tcp", "80"] + ctx,
            ["portcon", "udp", "1000-1001"] + ctx, ["netifcon", "eth0"] + ctx + ctx,
            ["nodecon", "127.0.0.1", "255.255.255.255"] + ctx, ["fs_use_xattr", "ext4"] + ctx + [";"],
            ["fs_use_task", "pipefs"] + ctx + [";"], ["fs_use_trans", "devpts"] + ctx + [";"],
            ["typebounds", "foo_t", "bar_t", ";"], ["refpolicywarn", "(", "`", "text", "is", "(", "here", ")", ",", "ok", ".", "'", ")"],
            ["gen_user", "(", "user_u", ",", "user", ",", "foo_r", "bar_r", ",", "s0", ",", "s0", ")"],
            ["gen_user", "(", "system_u", ",", ",", "foo_r", ",", "s0", ",", "s0", "-", "mls_systemhigh", ",", "mcs_allcats", ")"]])})

    def g_USERDEBUG(self, depth):
        return {"k": "USERDEBUG", "kids": self.some(depth, 1, 2)}

    def g_OPTIONAL(self, depth):
        s = {"k": "OPTIONAL", "kids": self.some(depth, 0 if self.rng.random() < .2 else 1, 3)}
        if s["kids"] and self.rng.random() < .25:
            s["else"] = self.some(depth, 1, 2)
        if self.rng.random() < .15:
            s["kids"] = [self.g_GENREQ(depth)] + s["kids"]
        return self.deco(s)

    COND = [["x_bool"], ["foo_can_x"], ["!", "x_bool"], ["x_bool", "&&", "y_bool"], ["x_bool", "||", "(", "y_bool", "^", "z_bool", ")"],
            ["x_bool", "==", "y_bool"], ["x_bool", "!=", "y_bool"]]

    def g_BOOLEAN(self, depth):
        s = {"k": "BOOLEAN", "_cond": self.pick(self.COND), "kids": self.some(depth)}
        if self.rng.random() < .4:
            s["else"] = self.some(depth, 1, 2)
        return self.deco(s)

    def m4args(self, depth, lo=1, hi=2):
        out = []
        for _ in range(self.rng.randint(lo, hi)):
            r = self.rng.random()
            if r < .8:
                out.append({"k": "M4ARG", "kids": self.some(depth, 1, 2)})
            elif r < .9:
                out.append({"k": "M4ARG", "kids": []})
            else:
                out.append({"k": "M4ARG", "kids": [], "_str": "word"})
        return out

    def g_TUNABLE(self, depth):
        return self.deco({"k": "TUNABLE", "_cond": self.pick(self.COND), "_quoted": self.rng.random() < .8,
                          "kids": self.m4args(depth)})

    def g_IFDEF(self, depth):
        return self.deco({"k": "IFDEF", "_kw": self.pick(["ifdef", "ifdef", "ifndef"]), "_name": self.pick(["distro_x", "enable_mls", "hide_broken"]),
                          "kids": self.m4args(depth)})

    def g_IFELSE(self, depth):
        n = self.rng.choice([3, 3, 4, 5, 6, 7])
        kids = []
        for j in range(n):
            r = self.rng.random()
            if r < .35:
                kids.append({"k": "M4ARG", "kids": [self.g_WORD(0)]})
                kids[-1]["kids"][0].pop("ex", None)
            elif r < .5:
                kids.append({"k": "M4ARG", "kids": [], "_str": "word"})
            elif r < .6:
                kids.append({"k": "M4ARG", "kids": []})
            else:
                kids.append({"k": "M4ARG", "kids": self.some(depth, 1, 2)})
        return self.deco({"k": "IFELSE", "kids": kids})

    def g_DEFINE(self, depth):
        return self.deco({"k": "DEFINE"})

    # ---- require blocks
    def reqdecl(self, fl=None):
        w = self.w
        fl = fl or self.rng.choices(["type", "attribute", "role", "attribute_role", "bool", "class"], [6, 2, 1, 1, 1, 2])[0]
        tab = {"type": w.types, "attribute": w.attrs, "role": w.roles, "attribute_role": w.rattrs, "bool": w.bools}.get(fl)
        if fl == "class":
            return self.deco({"k": "REQDECL", "fl": fl, "names": [self.pick(CLASSES)], "attrs": self.plist()})
        n = self.rng.choice([1, 1, 1, 2, 3])
        names = []
        for _ in range(n):
            r = self.rng.random()
            if r < .5:
                names.append(self.pick(tab[self.m] or w.pool(tab), self.m + "_" + fl))
            elif r < .55 and "kernel" in w.mods:
                names.append(self.pick(tab["kernel"], "other_" + fl))
            elif r < .8:
                names.append(self.pick(w.pool(tab), "other_" + fl))
            elif r < .9:
                names.append(self.pick(w.unknown + (["$1", "$1_t"] if self.ctx != "te" else [])))
            elif r < .93:
                names.append(self.pick(w.pool(w.ifs), "foo_read_conf"))
            else:
                names.append(self.pick(w.pool(w.types) + w.pool(w.attrs) + ["system_r"]))
        s = {"k": "REQDECL", "fl": fl, "names": names, "attrs": []}
        return self.deco(s)

    def reqs(self, depth, nest=True):
        q = [self.reqdecl() for _ in range(self.rng.choice([1, 1, 2, 3, 4]))]
        if self.rng.random() < .3:
            q.sort(key=lambda s: (s["fl"], s["names"][0]))
        if nest and self.rng.random() < .08:
            q.insert(self.rng.randint(0, len(q)), {"k": "IFDEF", "_req": self.pick(["quoted", "bare"]), "kids": self.reqs(0, False)})
        if self.rng.random() < .1:
            q.insert(self.rng.randint(0, len(q)), {"k": "COMMENT", "_node": False, "_text": "# c"})
        return q

    def g_REQUIRE(self, depth):
        return self.deco({"k": "REQUIRE", "kids": self.reqs(depth)})

    def g_GENREQ(self, depth):
        s = self.deco({"k": "GENREQ", "unq": self.rng.random() < .15, "kids": self.reqs(depth)})
        if s.get("ex"):
            s["_excmd"] = self.pick(["early", "late"])
            if s["unq"]:
                s["_excmd"] = "early"
        return s

    # ---- files
    def te(self, n=10, header=None, bare=None):
        self.ctx = "te"
        m = self.m
        out = []
        if self.rng.random() < .3:
            out += [{"k": "COMMENT", "_text": "# top"} for _ in range(self.rng.randint(1, 3))]
        out.append({"k": "HEADER", "name": header or (m if self.rng.random() < .9 else self.pick([m + "x", "other", m.upper()])),
                    "bare": self.rng.random() < .1 if bare is None else bare, "_ver": self.pick(["1.0", "2", "1.2.3", "11.22"])})
        decls = []
        w = self.w
        for fl, tab in (("bool", w.bools), ("attribute", w.attrs), ("type", w.types), ("role", w.roles), ("attribute_role", w.rattrs)):
            for nm in tab[m]:
                if self.rng.random() < .92:
                    decls.append(self.g_DECL(0, fl, nm))
        if self.rng.random() < .2:
            self.rng.shuffle(decls)
        body = self.stmts(max(1, n))
        if self.rng.random() < .15:
            for d in decls:
                body.insert(self.rng.randint(0, len(body)), d)
            decls = []
        return out + decls + body

    def iface(self, name, kind="INTERFACE", n=None, depth=2):
        self.ctx = "if" if kind == "INTERFACE" else "tmpl"
        kids = []
        if self.rng.random() < .06:
            n, depth = 0, 0
        elif self.rng.random() < .75:
            kids.append(self.g_GENREQ(depth))
        kids += self.stmts(self.rng.choice([0, 1, 1, 2, 3, 5]) if n is None else n, depth)
        s = self.deco({"k": kind, "name": name, "kids": kids})
        self.ctx = "te"
        return s

    def iff(self):
        """An if file; at least one definition."""
        out = []
        m = self.m
        chain = self.w.chain[m]
        names = [(x, "INTERFACE") for x in self.w.ifs[m] if x not in [c[0] for c in chain]] + [(x, "TEMPLATE") for x in self.w.tmpls[m]]
        self.rng.shuffle(names)
        if not names:
            names = [(m + "_only", "INTERFACE")]
        for nm, req, body in chain:
            out.append({"k": "COMMENT", "_node": True, "_text": "## <summary>x</summary>"})
            out.append({"k": "INTERFACE", "name": nm, "kids": [copy.deepcopy(r) for r in req] + [dict(body)]})
        for j, (nm, k) in enumerate(names):
            if self.rng.random() < .8:
                for _ in range(self.rng.randint(1, 2)):
                    out.append({"k": "COMMENT", "_node": True, "_text": self.pick(["## <summary>x</summary>", "# c", "########"])})
            out.append(self.iface(nm, k))
        # leading comments of a file are nodes as well
        if self.rng.random() < .2:
            out.append({"k": "COMMENT", "_node": True, "_text": "# end"})
        return out


def random_style(rng, wild=.5):
    if rng.random() > wild:
        return Style(rng, forms=.3)
    return Style(rng, loose=rng.choice([0, 0, .05, .2]), comments=rng.choice([0, .1, .3]), blanks=rng.choice([0, .1, .3]),
                 same_line=rng.choice([0, 0, .2]), crlf=False, final_newline=rng.random() < .85,
                 dnl=rng.choice([0, 0, .08]), forms=rng.choice([0, .3, .7]))
