"""Abstract policy files -> text, together with the tree the specification uses.

A statement is a dict {k: kind, ...fields, kids: [...], ex: [ids]}.  Keys that
start with an underscore only choose between spellings.  Rendering writes the
text and, in the same pass, the list of nodes in preorder with their lines.
"""

BLOCKS = {"OPTIONAL", "OPTELSE", "BOOLEAN", "TUNABLE", "IFDEF", "IFELSE", "M4ARG", "DEFINE",
          "REQUIRE", "GENREQ", "INTERFACE", "TEMPLATE"}
WORDCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$*/-.")


class Style:
    """Layout choices.  rng None: the plain layout."""

    def __init__(self, rng=None, loose=0.0, comments=0.0, blanks=0.0, same_line=0.0,
                 crlf=False, final_newline=True, dnl=0.0, forms=0.0, tabs=True):
        self.rng, self.loose, self.comments, self.blanks = rng, loose, comments, blanks
        self.same_line, self.crlf, self.final_newline, self.dnl = same_line, crlf, final_newline, dnl
        self.forms, self.tabs = forms, tabs

    def p(self, x):
        return self.rng is not None and x > 0 and self.rng.random() < x

    def form(self, *alts):
        """One of several spellings of the same thing; the first one in the plain layout."""
        return self.rng.choice(alts) if self.p(self.forms) else alts[0]


PLAIN = Style()


class Out:
    def __init__(self, style):
        self.st = style
        self.parts = []
        self.line = 1
        self.last = ""          # last character written
        self.bol = True         # at the beginning of a line
        self.need_nl = False    # a comment was written
        self.nodes = []
        self.last_tok_line = 1
        self.depth = 0

    def raw(self, s):
        self.parts.append(s)
        self.line += s.count("\n")
        if s:
            self.last = s[-1]
            self.bol = s[-1] == "\n"
            if self.bol:
                self.need_nl = False

    def newline(self):
        self.raw("\n")

    def tok(self, s, space=None):
        """One token; space: put a blank before it in the plain layout."""
        st = self.st
        must = self.last != "" and self.last in WORDCH and s[0] in WORDCH and not self.bol
        if self.need_nl:
            self.newline()
        elif not self.bol and st.p(st.loose):
            self.raw(st.rng.choice(["\n", "\n\t", " \n", "\n\n  ", "  ", "\t", " \t ", "\n"]))
        elif must or (space and not self.bol and not self.last.isspace()):
            self.raw(" ")
        elif space is None and not self.bol and st.p(st.loose):
            self.raw(st.rng.choice([" ", "\t"]))
        ln = self.line
        self.last_tok_line = ln
        self.raw(s)
        return ln

    def toks(self, *ss):
        ln = None
        for s in ss:
            l = self.tok(s)
            ln = l if ln is None else ln
        return ln

    def comment(self, text):
        """A comment up to the end of the line."""
        if self.need_nl:
            self.newline()
        if not self.bol and not self.last.isspace():
            self.raw(" ")
        ln = self.line
        self.raw(text)
        self.need_nl = True
        return ln

    def between(self, inside=True):
        """Layout between two statements."""
        st = self.st
        if self.bol and not self.parts:
            pass
        elif self.need_nl or not st.p(st.same_line):
            if not self.bol:
                self.newline()
        else:
            self.raw(st.rng.choice([" ", "  ", "\t"]))
        while st.p(st.blanks):
            if not self.bol:
                self.newline()
            self.raw(st.rng.choice(["\n", "  \n", "\t\n", "\n\n"]))
        if inside and st.p(st.comments):
            if not self.bol:
                self.newline()
            self.comment(st.rng.choice(["# note", "#", "## <desc> allow a b:c d; </desc>", "# type foo_t;", "\t# it's `quoted' {",
                                        "# selint-disable: C-001", "#selint-disable: nothing", "#selint-disable:C-001 trailing"]))
            self.newline()
        if st.p(st.dnl):
            if not self.bol:
                self.newline()
            self.raw(st.rng.choice(["dnl\n", "dnl this is skipped; allow a b:c d;\n", "dnl # `quoted\n"]))
        if self.bol and self.depth and st.tabs:
            self.raw("\t" * min(self.depth, 8))

    # ---- nodes
    def node(self, k, parent, ln, ex=(), **f):
        n = {"k": k, "p": parent, "pv": 0, "nx": 0, "ch": 0, "ln": ln, "ex": list(ex)}
        n.update(f)
        self.nodes.append(n)
        return len(self.nodes)


def slist(o, items, style, want_braces=False):
    """string_list: x, ~x, *, { x y }, ~{ x y }."""
    items = list(items)
    while items and items[0] == "~" and len(items) > 1:
        o.tok("~", space=True)
        items = items[1:]
    if len(items) == 1 and (items[0] == "*" or (not want_braces and style.form(True, True, False))):
        item_tok(o, items[0])
        return
    o.tok("{", space=True)
    for x in items:
        item_tok(o, x)
    o.tok("}", space=True)


def item_tok(o, x):
    if x.startswith("-") and len(x) > 1:
        o.tok("-", space=True)
        if o.st.p(o.st.loose):
            o.raw(" ")
        o.raw(x[1:])
    else:
        o.tok(x, space=True)


def clist(o, items):
    for j, x in enumerate(items):
        if j:
            o.tok(",", space=False)
        o.tok(x, space=True)


class TeRender:
    def __init__(self, style=PLAIN):
        self.st = style
        self.o = Out(style)
        self.lastkid = {}

    def add(self, k, parent, ln, ex=(), **f):
        i = self.o.node(k, parent, ln, ex, **f)
        prev = self.lastkid.get(parent, 0)
        if prev:
            self.o.nodes[prev - 1]["nx"] = i
            self.o.nodes[i - 1]["pv"] = prev
        elif parent:
            self.o.nodes[parent - 1]["ch"] = i
        self.lastkid[parent] = i
        return i

    def block(self, k, parent, ln, ex=(), **f):
        i = self.add(k, parent, ln, ex, **f)
        self.add("START", i, ln)
        return i

    def disable(self, s):
        """Trailing disable comment of statement s."""
        if s.get("ex"):
            self.o.raw(s.get("_exsp", " "))
            self.o.raw(self.extext(s))
            self.o.need_nl = True

    def extext(self, s):
        sep = s.get("_exsep", ", ")
        return "#selint-disable:" + s.get("_exlead", " ") + sep.join(s["ex"])

    def stmts(self, kids, parent):
        o = self.o
        o.depth += 1
        for s in kids:
            o.between(inside=s["k"] != "COMMENT")
            self.stmt(s, parent)
        o.depth -= 1
        if kids:
            if o.need_nl or not self.st.p(self.st.same_line):
                if not o.bol:
                    o.newline()

    def cmd_open(self, s):
        """Disable comment right after the opening of a block."""
        if s.get("ex"):
            if not self.o.last.isspace():
                self.o.raw(s.get("_exsp", ""))
            ln = self.o.line
            self.o.raw(self.extext(s))
            self.o.need_nl = True
            return ln
        return None

    def m4args(self, args, parent, first_line):
        """args: list of M4ARG statements; each node lies on the line of the token before."""
        o = self.o
        ln = first_line
        for j, a in enumerate(args):
            if j:
                ln = o.tok(",", space=False)
            i = self.block("M4ARG", parent, ln)
            if "_str" in a:
                o.tok(a["_str"], space=True)
            elif a["kids"]:
                o.tok("`", space=j > 0)
                self.stmts(a["kids"], i)
                o.tok("'", space=False)
            elif a.get("_empty") == "none":
                pass
            else:
                o.tok("`", space=False)
                o.tok("'", space=False)

    def condition(self, c):
        for t in c:
            self.o.tok(t, space=True)

    def stmt(self, s, parent):
        o, st, k = self.o, self.st, s["k"]
        ex = s.get("ex", [])
        kids = s.get("kids", [])
        if k == "HEADER":
            if s["bare"]:
                ln = o.toks("module", s["name"], s.get("_ver", "1.0"), ";")
            else:
                ln = o.toks("policy_module", "(", s["name"], ",", s.get("_ver", "1.0"), ")")
            self.add(k, parent, ln, name=s["name"], bare=s["bare"])
            return
        if k == "COMMENT":
            ln = o.comment(s.get("_text", "## <summary>text</summary>"))
            if s.get("_node", True):
                self.add(k, parent, ln)
            return
        if k == "AV":
            ln = o.tok(s["av"])
            slist(o, s["src"], st)
            slist(o, s["tgt"], st)
            o.tok(":", space=False)
            slist(o, s["cls"], st)
            slist(o, s["perms"], st)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, av=s["av"], src=s["src"], tgt=s["tgt"], cls=s["cls"], perms=s["perms"])
        elif k == "XAV":
            ln = o.tok(s["av"] + "xperm")
            slist(o, s["src"], st)
            slist(o, s["tgt"], st)
            o.tok(":", space=False)
            slist(o, s["cls"], st)
            o.tok(s.get("_op", "ioctl"), space=True)
            p = s["perms"]
            if p[0] == "~":
                o.tok("~", space=True)
                p = p[1:]
            if len(p) == 1 and not s.get("_brace"):
                o.tok(p[0], space=True)
            else:
                o.tok("{", space=True)
                for x in p:
                    o.tok(x, space=True)
                    if x == "-":
                        o.raw(" ")
                o.tok("}", space=True)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, av=s["av"], src=s["src"], tgt=s["tgt"], cls=s["cls"], perms=s["perms"])
        elif k == "TT":
            ln = o.tok(s.get("_kw", "type_transition"))
            slist(o, s["src"], st)
            slist(o, s["tgt"], st)
            o.tok(":", space=False)
            slist(o, s["cls"], st)
            o.tok(s["def"], space=True)
            if s.get("_file"):
                o.tok('"%s"' % s["_file"], space=True)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, src=s["src"], tgt=s["tgt"], cls=s["cls"], **{"def": s["def"]})
        elif k == "RT":
            ln = o.tok("role_transition")
            slist(o, s["src"], st)
            slist(o, s["tgt"], st)
            if s["cls"]:
                o.tok(":", space=False)
                slist(o, s["cls"], st)
            o.tok(s["def"], space=True)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, src=s["src"], tgt=s["tgt"], cls=s["cls"], **{"def": s["def"]})
        elif k == "RALLOW":
            ln = o.tok("allow")
            slist(o, s["from"], st)
            slist(o, s["to"], st)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, **{"from": s["from"], "to": s["to"]})
        elif k == "RTYPES":
            ln = o.tok("role")
            o.tok(s["role"], space=True)
            o.tok("types", space=True)
            slist(o, s["types"], st)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, role=s["role"], types=s["types"])
        elif k == "CALL":
            ln = self.call(s)
            self.add(k, parent, ln, ex, name=s["name"], args=s["args"], sp=s["sp"])
        elif k == "DECL":
            self.decl(s, parent)
        elif k == "REQDECL":          # a statement of a require block: several declarations
            fl = s["fl"]
            if fl == "class":
                ln = o.tok("class")
                o.tok(s["names"][0], space=True)
                slist(o, s["attrs"], st, want_braces=len(s["attrs"]) > 1)
                o.tok(";", space=False)
                self.add("DECL", parent, ln, ex, fl=fl, name=s["names"][0], attrs=s["attrs"])
            else:
                ln = o.tok(fl)
                clist(o, s["names"])
                o.tok(";", space=False)
                for nm in s["names"]:
                    self.add("DECL", parent, ln, ex, fl=fl, name=nm, attrs=[])
        elif k == "TYPEALIAS":
            ln = o.tok("typealias")
            o.tok(s["str"], space=True)
            o.tok("alias", space=True)
            slist(o, s["aliases"], st)
            o.tok(";", space=False)
            i = self.add(k, parent, ln, ex, str=s["str"])
            for a in s["aliases"]:
                self.add("ALIAS", i, ln, (), str=a)
        elif k in ("TATTR", "RATTR"):
            ln = o.tok("typeattribute" if k == "TATTR" else "roleattribute")
            o.tok(s["type"], space=True)
            clist(o, s["attrs"])
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, type=s["type"], attrs=s["attrs"])
        elif k == "PERMISSIVE":
            ln = o.tok("permissive")
            o.tok(s["str"], space=True)
            o.tok(";", space=False)
            self.add(k, parent, ln, ex, str=s["str"])
        elif k == "SEMICOLON":
            ln = o.tok(";")
            self.add(k, parent, ln, ex)
        elif k == "WORD":
            ln = o.tok(s["name"])
            self.add(k, parent, ln, ex, name=s["name"])
        elif k == "RAW":              # a statement that leaves no node
            for t in s["toks"]:
                o.tok(t, space=s.get("_space", True))
        elif k == "USERDEBUG":
            o.toks("userdebug_or_eng", "(", "`")
            self.stmts(kids, parent)
            o.toks("'", ")")
        elif k == "OPTIONAL":
            ln = o.toks("optional_policy", "(", "`")
            i = self.block(k, parent, ln, ex)
            self.cmd_open(s)
            self.stmts(kids, i)
            o.tok("'", space=False)
            if "else" in s:
                o.tok(",", space=False)
                ln2 = o.tok("`", space=False)
                j = self.block("OPTELSE", parent, ln2)
                self.stmts(s["else"], j)
                o.tok("'", space=False)
            o.tok(")", space=False)
            if s.get("_after"):
                self.disable({"ex": s["_after"]})
            return
        elif k == "BOOLEAN":
            ln = o.toks("if", "(")
            i = self.block(k, parent, ln, ex)
            self.cmd_open(s)
            self.condition(s["_cond"])
            o.tok(")", space=False)
            o.tok("{", space=True)
            self.stmts(kids, i)
            o.tok("}", space=False)
            if "else" in s:
                o.tok("else", space=True)
                o.tok("{", space=True)
                self.stmts(s["else"], i)
                o.tok("}", space=False)
            return
        elif k == "TUNABLE":
            o.tok("tunable_policy")
            ln = o.tok("(", space=False)
            if s.get("_quoted", True):
                ln = o.tok("`", space=False)
            i = self.block(k, parent, ln)
            self.condition(s["_cond"])
            if s.get("_quoted", True):
                o.tok("'", space=False)
            ln2 = o.tok(",", space=False)
            self.m4args(kids, i, ln2)
            o.tok(")", space=False)
            self.after(s, i)
        elif k == "IFDEF":
            o.tok(s.get("_kw", "ifdef"))
            o.toks("(", "`", s.get("_name", "distro_x"), "'")
            ln = o.tok(",", space=False)
            if s.get("_req"):
                if s["_req"] == "quoted":
                    ln = o.tok("`", space=False)
                i = self.block(k, parent, ln)
                self.stmts(kids, i)
                if s["_req"] == "quoted":
                    o.tok("'", space=False)
            else:
                i = self.block(k, parent, ln)
                self.m4args(kids, i, ln)
            o.tok(")", space=False)
            self.after(s, i)
        elif k == "IFELSE":
            o.tok("ifelse")
            ln = o.tok("(", space=False)
            i = self.block(k, parent, ln)
            self.m4args(kids, i, ln)
            o.tok(")", space=False)
            self.after(s, i)
        elif k == "DEFINE":
            o.tok("define")
            ln = o.tok("(", space=False)
            i = self.block(k, parent, ln)
            for t in s.get("_toks", ["`", "mymacro", "'", ",", "`", "read", "'"]):
                o.tok(t, space=False)
            o.tok(")", space=False)
            self.after(s, i)
        elif k == "REQUIRE":
            o.tok("require")
            ln = o.tok("{", space=True)
            c = self.cmd_open(s)
            i = self.block(k, parent, c or ln, ex)
            self.stmts(kids, i)
            o.tok("}", space=False)
        elif k == "GENREQ":
            ln = o.toks("gen_require", "(")
            early = s.get("_excmd") == "early"
            i = self.block(k, parent, ln, ex, unq=s["unq"])
            if early:
                self.cmd_open(s)
            if not s["unq"]:
                o.tok("`", space=False)
                if not early:
                    self.cmd_open(s)
            self.stmts(kids, i)
            if not s["unq"]:
                o.tok("'", space=False)
            o.tok(")", space=False)
        elif k in ("INTERFACE", "TEMPLATE"):
            ln = o.toks("interface" if k == "INTERFACE" else "template", "(", "`", s["name"], "'", ",", "`")
            i = self.block(k, parent, ln, ex, name=s["name"])
            self.cmd_open(s)
            self.stmts(kids, i)
            o.toks("'", ")")
            return
        else:
            raise ValueError(k)
        if k not in ("REQUIRE", "GENREQ", "TUNABLE", "IFDEF", "IFELSE", "DEFINE", "USERDEBUG"):
            self.disable(s)

    def after(self, s, i):
        """Disable comment after a macro block belongs to the block node."""
        if s.get("ex"):
            self.o.nodes[i - 1]["ex"] = list(s["ex"])
            self.disable(s)

    def call(self, s):
        o = self.o
        ln = o.tok(s["name"])
        o.tok("(", space=False)
        groups = s.get("_groups")     # [[tokens...]] spelled arguments
        if groups is None:
            groups = []
            for a, sp in zip(s["args"], s["sp"]):
                groups.append((a, sp))
        for j, (a, sp) in enumerate(groups):
            if j and not sp:
                o.tok(",", space=False)
            if isinstance(a, list):
                br = s.get("_br", "{}")
                o.tok(br[0], space=j > 0)
                for x in a:
                    o.tok(x, space=True)
                o.tok(br[1], space=True)
            elif a == "":
                o.tok("`", space=j > 0)
                o.tok("'", space=False)
            elif a.startswith("-") and len(a) > 1:
                o.tok("-", space=True)
                o.raw(a[1:])
            else:
                o.tok(a, space=j > 0)
        o.tok(")", space=False)
        return ln

    def decl(self, s, parent):
        o, st, fl, ex = self.o, self.st, s["fl"], s.get("ex", [])
        al = s.get("aliases", [])
        if fl == "type":
            ln = o.tok("type")
            o.tok(s["name"], space=True)
            if al:
                o.tok("alias", space=True)
                slist(o, al, st)
            if s["attrs"]:
                o.tok(",", space=False)
                clist(o, s["attrs"])
            o.tok(";", space=False)
        elif fl == "bool":
            form = s.get("_form", "gen_tunable")
            if form == "bool":
                ln = o.tok("bool")
                o.tok(s["name"], space=True)
                o.tok(";", space=False)
            elif form == "gen_tunable_q":
                ln = o.toks("gen_tunable", "(", "`", s["name"], "'", ",", "false", ")")
            else:
                ln = o.toks(form, "(", s["name"], ",", "false", ")")
        elif fl == "class":
            ln = o.tok("class")
            o.tok(s["name"], space=True)
            slist(o, s["attrs"], st)
            o.tok(";", space=False)
        else:
            ln = o.tok(fl)
            o.tok(s["name"], space=True)
            o.tok(";", space=False)
        i = self.add("DECL", parent, ln, ex, fl=fl, name=s["name"], attrs=s["attrs"])
        for a in al:
            self.add("ALIAS", i, ln, (), str=a)

    def finish(self):
        o = self.o
        if o.need_nl or (self.st.final_newline and not o.bol):
            o.newline()
        t = "".join(o.parts)
        if self.st.crlf:
            t = t.replace("\n", "\r\n")
        return t, o.nodes


def render(stmts, style=PLAIN):
    r = TeRender(style)
    o = r.o
    for s in stmts:
        o.between(inside=False if s["k"] in ("HEADER", "INTERFACE", "TEMPLATE", "COMMENT") else True)
        if s["k"] == "COMMENT" and not o.bol:
            o.newline()
        r.stmt(s, 0)
    return r.finish()


# ---- configuration file
def conf_text(cfg):
    if cfg.get("text") is not None:
        return cfg["text"]
    out = []

    def lst(key, q):
        if q:
            out.append("%s = { %s }" % (key, ", ".join('"%s"' % x for x in q)))

    for key, name in (("severity", "severity"), ("order", "ordering_rules"),
                      ("same", "ordering_requires_same_flavor"), ("skipgen", "skip_checking_generated_fcs")):
        if cfg.get(key):
            out.append('%s = "%s"' % (name, cfg[key]))
    for key, name in (("disable", "disable"), ("en_normal", "enable_normal"), ("en_source", "enable_source"),
                      ("users", "assume_users"), ("roles", "assume_roles"), ("fcm", "custom_fc_macros"),
                      ("tem", "custom_te_simple_macros")):
        lst(name, cfg.get(key, []))
    if cfg.get("oreqset"):
        out.append("ordering_requires = { %s }" % ", ".join('"%s"' % x for x in cfg["oreq"]))
    return "\n".join(out) + "\n"
