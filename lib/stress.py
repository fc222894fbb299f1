"""Inputs for the robustness property: damaged, huge, deep and odd ones."""
import os

from cases import Builder
from render import render, conf_text, PLAIN

SIZES = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
         8191, 8192, 8193, 16384, 16385, 40000]
TOKENS = ["(", ")", "{", "}", "`", "'", ",", ";", ":", "-", "*", "~", "$1", "$2", "$*", "$", "\"", "#", "\n", "\r\n", "\t", "\0", "\xff", "\x80",
          "optional_policy(`", "')", "gen_require(`", "interface(`x',`", "template(`x',`", "ifdef(`x',`", "ifelse(`a',`b',`", "tunable_policy(`x',`", "define(`x',`",
          "allow a b:c d;", "type x_t;", "policy_module(x,1.0)", "module x 1.0;", "require {", "if (x) {", "} else {", "attribute a;", "#selint-disable: C-001", "# selint-disable:",
          "#selint-disable: W-001, , C-001", "class file { read };", "dnl x", "gen_context(a:b:c,s0)", "s0 - s0:c0.c1023", "refpolicywarn(`x')", "userdebug_or_eng(`", "alias", "self",
          "true", "false", "&&", "||", "==", "!", "^", "0x1", "1.0", "::", "..", "/", "\\", "<<none>>"]


def mutate(rng, text):
    """Damage a text."""
    for _ in range(rng.choice([1, 1, 2, 4, 10, 40])):
        n = len(text)
        i = rng.randint(0, n)
        j = min(n, i + rng.choice([1, 1, 2, 5, 20, 200, 5000]))
        r = rng.random()
        if r < .2:
            text = text[:i] + text[j:]
        elif r < .35:
            text = text[:j] + text[i:j] * rng.choice([1, 1, 2, 30]) + text[j:]
        elif r < .65:
            text = text[:i] + rng.choice(TOKENS) * rng.choice([1, 1, 1, 2, 3, 50]) + text[i:]
        elif r < .75:
            text = text[:i]
        elif r < .85:
            text = text[:i] + chr(rng.choice([0, 1, 9, 10, 13, 27, 35, 36, 39, 40, 41, 44, 58, 59, 92, 96, 123, 125, 127])) + text[j:]
        elif r < .95:
            k = rng.randint(0, n)
            text = text[:i] + text[k:k + 80] + text[i:]
        else:
            text = text[:i] + rng.choice(["a", "_", "$1", "x y ", "0", " ", "\n", "{", "(", "`"]) * rng.choice(SIZES) + text[i:]
        if len(text) > 400000:
            text = text[:400000]
    return text


def stretch(rng, c):
    """Make some words of a finished case very long, in all files alike."""
    import re
    docs = [f for f in c["files"]] + [s for s in c["sups"]]
    words = sorted({w for d in docs for w in re.findall(r"[a-z][a-z0-9_]{3,}", d["text"])} - KEYWORDS)
    spt = sorted({w for d in c["sups"] if "define(" in d["text"] for w in re.findall(r"[a-z][a-z0-9_]{3,}", d["text"])} & set(words) & set(
        w for f in c["files"] for w in re.findall(r"[a-z][a-z0-9_]{3,}", f["text"])))
    if words:
        q = [rng.choice(spt if spt and rng.random() < .6 else words) for _ in range(rng.choice([1, 1, 2, 5]))]
        if rng.random() < .4:
            q += [w for w in spt if w.endswith("_perms")]
        for w in q:
            n = rng.choice([40, 100, 300, 1000, 3000, 8100])
            i = rng.choice([0, len(w), w.rfind("_") + 1, w.find("_") + 1])
            if w.endswith("_perms") and rng.random() < .7:
                i = 0
            v = w[:i] + rng.choice(["x", "long_", "_y"]) * (n // 2) + w[i:]
            for d in docs:
                d["text"] = re.sub(r"(?<![a-z0-9_])%s(?![a-z0-9_])" % re.escape(w), v, d["text"])
    c["free"] = True
    return c


KEYWORDS = set("""policy_module type attribute role allow neverallow auditallow dontaudit interface template optional_policy ifdef ifelse tunable_policy require gen_require
class common inherits define alias typealias typeattribute roleattribute attribute_role type_transition role_transition range_transition gen_tunable gen_bool bool boolean
refpolicywarn userdebug_or_eng optional module types gen_context self summary disable""".split())


def damage(rng, c):
    """Damage some files of a finished case; what it does is left open."""
    docs = [f for f in c["files"]] + [s for s in c["sups"]]
    for d in docs:
        if rng.random() < .5:
            d["text"] = mutate(rng, d["text"])
    if any(x["o"] == "c" for x in c["argv"]) and rng.random() < .5:
        c["cfgtext"] = mutate(rng, conf_text(c["cfg"]))
    c["free"] = True
    return c


def nest(rng, depth):
    """Nested blocks of one or several kinds, possibly unbalanced."""
    kinds = [("optional_policy(`\n", "')\n"), ("ifdef(`x',`\n", "')\n"), ("tunable_policy(`x',`\n", "')\n"), ("if (x) {\n", "}\n"), ("ifdef(`x',`\n',`\n", "')\n"),
             ("optional_policy(`\n',`\n", "')\n"), ("ifelse(`a',`b',`\n", "')\n"), ("optional {\n", "}\n"), ("if (x) {\n} else {\n", "}\n")]
    if rng.random() < .6:
        kinds = [rng.choice(kinds)]
    q = [rng.choice(kinds) for _ in range(depth)]
    body = rng.choice(["allow foo_t bar_t:file read;\n", "type x_t;\n", "", "foo_read(x)\n", ";\n"])
    t = "".join(a for a, _ in q) + body + "".join(b for _, b in reversed(q))
    if rng.random() < .2:
        t = t[:rng.randint(0, len(t))]
    return t


def lists(rng, k):
    names = ["n%d_t" % i for i in range(k)]
    j = " ".join(names)
    c = ", ".join(names)
    return rng.choice([
        "allow { %s } self:file read;\n" % j, "allow foo_t { %s }:file { read };\n" % j, "allow foo_t self:{ %s } { read };\n" % j, "allow foo_t self:file { %s };\n" % j,
        "type foo_t, %s;\n" % (c or "a"), "type foo_t alias { %s };\n" % j, "typeattribute foo_t %s;\n" % (c or "a"), "gen_require(`\n type %s;\n')\n" % (c or "a_t"),
        "foo_read(%s)\n" % c, "require { type %s; }\n" % (c or "a_t"), "role foo_r types { %s };\n" % j, "allow foo_t " + "{ " * k + "a" + " }" * k + ":file read;\n",
        "allow { foo_t " + " ".join("-" + x for x in names) + " } self:file read;\n", "foo_read({ %s }, x)\n" % j, "attribute_role %s;\n" % (c or "r"),
        "typealias foo_t alias { %s };\n" % j, "type_transition { %s } { %s }:file foo_t;\n" % (j[:2000], j[:2000]), "allowxperm foo_t self:file ioctl { %s };\n" % " ".join("0x%x" % i for i in range(k)),
        "if (" + " && ".join(names or ["x"]) + ") { allow a b:c d; }\n", "if (" + "(" * k + "x" + ")" * k + ") { allow a b:c d; }\n", "if (" + "!" * k + "x) { allow a b:c d; }\n",
        "tunable_policy(`" + " || ".join(names or ["x"]) + "',`\n allow a b:c d;\n')\n"])


def names(rng, k):
    n = rng.choice(["a", "a_", "a.b", "A-", "$1_", "a$1"]) * max(1, k // 2)
    return rng.choice([
        "type %s;\n" % n, "allow %s %s:%s %s;\n" % (n, n, n, n), "%s(%s)\n" % (n, n), "policy_module(%s, 1.0)\n" % n, "%s\n" % n, "#selint-disable: %s\n" % n,
        "allow a b:c d; #selint-disable: %s\n" % n, "bool %s true;\n" % n, "\"%s\"\n" % n, "foo_read(\"%s\")\n" % n, "foo_read(`%s')\n" % n, "ifdef(`%s',`\n allow a b:c d;\n')\n" % n,
        "type a_t; # %s\n" % n, "refpolicywarn(`%s')\n" % n, "genfscon proc /%s gen_context(system_u:object_r:%s,s0)\n" % (n, n), "filetrans_pattern(a, b, c, %s, \"%s\")\n" % (n, n),
        "type_transition a b:file c \"%s\";\n" % n, "sid %s gen_context(a:b:c,s0)\n" % n, " " * k + "type a_t;\n", "\t" * k + ";" * k + "\n", "\n" * k + "type a_t;\n",
        "gen_bool(%s, false)\n" % n, "portcon tcp %s gen_context(a:b:c,s0)\n" % ("1" * max(1, k))])


def ifbody(rng, k):
    """Interfaces and templates that call themselves and each other, deep ones, ones with many parameters."""
    r = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9])
    if r == 9:      # any graph of calls
        n = rng.randint(2, 5)
        body = ["".join(" foo_%s($1%s)\n" % ("abcde"[rng.randrange(n)], rng.choice(["", "_x", ",$2", ",y"])) for _ in range(rng.choice([1, 1, 1, 2, 0]))) for _ in range(n)]
        return ("".join("%s(`foo_%s',`\n%s type $1_%d_t;\n')\n" % (rng.choice(["template", "template", "template", "interface"]), "abcde"[i], body[i], i) for i in range(n)),
                "".join("foo_%s(x)\n" % x for x in rng.sample("abcde"[:n], rng.randint(1, n))))
    if r == 0:
        return "template(`foo_a',`\n foo_a($1)\n type $1_t;\n')\n", "foo_a(x)\n"
    if r == 1:
        return "template(`foo_a',`\n foo_b($1)\n')\ntemplate(`foo_b',`\n foo_a($1_x)\n type $1_t;\n')\n", "foo_a(x)\nfoo_b(y)\n"
    if r == 2:
        n = min(k, 300)
        return "".join("template(`foo_%d',`\n foo_%d($1)\n type $1_%d_t;\n')\n" % (i, i + 1, i) for i in range(n)), "foo_0(x)\n"
    if r == 3:
        n = min(k, 4000)
        return "template(`foo_a',`\n type " + "$1" * max(1, n) + "_t;\n')\n", "foo_a(%s)\n" % ("y" * min(n, 200))
    if r == 4:
        a = ",".join("a%d" % i for i in range(min(k, 3000)))
        return "template(`foo_a',`\n type %s_t;\n')\n" % "".join("$%d" % i for i in range(1, min(k, 400) + 1) or [1]), "foo_a(%s)\n" % a
    if r == 5:
        return "interface(`foo_a',`\n foo_a($1)\n')\ninterface(`foo_b',`\n foo_c($1)\n')\ninterface(`foo_c',`\n foo_b($1)\n filetrans_pattern($1,a,b,c)\n')\n", "foo_a(x)\nfoo_b(x)\n"
    if r == 6:
        return "interface(`foo_a',`\n" + nest(rng, min(k, 600)) + "')\n", "foo_a(x)\n"
    if r == 7:
        return "template(`foo_a',`\n type $0_t, $*_t, $@_t, $11_t, $01_t, $_t, $;\n')\n", "foo_a(x,y)\n"
    return "template(`foo_a',`\n gen_require(`\n type $1_t;\n ')\n type $2_t;\n" + nest(rng, min(k, 60)) + "')\n", "foo_a()\nfoo_a(x)\nfoo_a(,)\nfoo_a(x,,y)\nfoo_a({a b},c)\nfoo_a(\"s\")\nfoo_a(`q')\n"


def fcbody(rng, k):
    x = rng.choice(["a", "/", " ", "\t", ".", "[", "\\", ":", "(", ")", ",", "-", "#", "\r", "\0", "s0", "'", "`", "é"])
    return rng.choice([
        "/" + x * k + " -- gen_context(system_u:object_r:foo_t,s0)\n", "/a " + x * k + "\n", "/a -- gen_context(" + x * k + "\n", "/a -- gen_context(system_u:object_r:foo_t," + x * k + ")\n",
        "/a -- " + x * k + ":object_r:foo_t:s0\n", x * k, x * k + "\n", ("/a -- gen_context(system_u:object_r:foo_t,s0)\n") * max(1, min(k, 3000)), "/a\t-" + x + "\tgen_context(system_u:object_r:foo_t,s0,c0.c1)",
        "/a -- system_u:object_r:foo_t:" + x * k + "\n", "ifdef(`x',`\n" + "/" + x * k + "\n')\n", "my_fc_macro(" + x * k + ")\n", "/a -- <<none>>" + x * k + "\n", "gen_context(" * k + "\n",
        "/a -- gen_context(a:b:c,s0" + "," * k + ")\n", ":" * k + "\n", "/a -- gen_context(" + ":" * k + ")\n", "/a -- gen_context()\n/a -- gen_context(,)\n/a gen_context\n/a --\n--\n-\n/a -", "\0" * k + "\n/a\0b -- c\n"])


def supbody(rng, k):
    """Contents of the three support files."""
    m = lambda n: "define(`%s',`{ %s }')\n"
    av = rng.choice(["class file { %s }\n" % " ".join("p%d" % i for i in range(k)), "".join("class c%d\n" % i for i in range(k)), "common x { a b }\n" * max(1, k), "class " + "x" * k + "\n",
                     "class file inherits " + "x" * k + " { a }\n", "class file {" * k, "", "#", "\n" * k, "class file { }\n", "class { a }\n", "common file { a }\nclass dir inherits file\n"])
    spt = rng.choice(["define(`a_file_perms',`{ %s }')\n" % " ".join("p%d" % i for i in range(k)), "define(`a_file_perms',`{ a_file_perms }')\n", "define(`a_file_perms',`{ b_file_perms }')\ndefine(`b_file_perms',`{ a_file_perms }')\n",
                      "".join("define(`m%d_file_perms',`{ m%d_file_perms p }')\n" % (i, i + 1) for i in range(min(k, 500))), "define(`" + "x" * k + "_file_perms',`{ a b }')\n", "define(`x_perms',`{ }')\n",
                      "define(`x_perms',`')\n", "define(`x_perms'", "define(`x_file_perms',`{ a b refpolicywarn(`x') }')\n", "", "".join("define(`m%d_file_perms',`{ read write m%d_file_perms }')\n" % (i, i * 7 % max(1, min(k, 300))) for i in range(min(k, 300)))])
    mod = rng.choice(["a = base\n" * max(1, k), "x" * k + " = base\n", "= base\n", "a =\n", "=\n", "a", "#" * k, "a = " + "b" * k, "a = = b\n", " " * k + "=" + " " * k, "\n" * k, "a = base", "a=b=c\n", "\0 = \0\n"])
    return av, spt, mod


def long_macros(rng):
    """Rules whose permissions are macros with long names, and a macro that stands for several of them."""
    b = Builder()
    raw = ["getattr", "open", "read", "lock", "ioctl", "append", "write", "map", "execute", "create", "unlink", "rename", "setattr"]
    te, spt = "policy_module(foo, 1.0)\ntype foo_t;\n", ""
    for j in range(rng.choice([1, 3])):
        n = rng.choice([1, 2, 5, 30])
        rng.shuffle(raw)
        q = []
        k = rng.randint(3, 9)
        for i in range(n):
            nm = "m%d_%d_" % (j, i) + rng.choice(["x", "yz_"]) * rng.choice(SIZES[:32]) + "_file_perms"
            spt += "define(`%s',`{ %s }')\n" % (nm, " ".join(rng.sample(raw[:k], rng.randint(1, k - 1))))
            q.append(nm)
        spt += "define(`w%d_file_perms',`{ %s }')\n" % (j, " ".join(raw[:k]))
        te += "allow foo_t self:%s { %s };\n" % (rng.choice(["file", "file", "file", "dir"]), " ".join(q + raw[:rng.choice([k, k, k - 1, 9])]))
    b.bad("foo.te", te)
    b.sup("obj_perm_sets.spt", {"lines": [], "text": spt})
    b.opt("s")
    b.arg("foo.te", "obj_perm_sets.spt")
    b.extra["free"] = True
    return b


def stress(rng):
    b = Builder()
    k = rng.choice(SIZES)
    if rng.random() < .3:
        k = rng.choice([20, 100, 300, 1000, 3000])
    te, iff, fc = "policy_module(foo, 1.0)\ntype foo_t;\n", "## <summary>x</summary>\ninterface(`foo_read',`\n gen_require(`\n  type foo_t;\n ')\n allow $1 foo_t:file read;\n')\n", ""
    if rng.random() < .02:      # a file with very many statements
        n = rng.choice([60000, 400000])
        te += rng.choice([";\n", "# c\n", "allow foo_t self:file read;\n", "foo_read(foo_t)\n", "optional_policy(`\n')\n", "x\n"]) * n
        b.opt("d", "C-001").opt("l", "E")
    for _ in range(rng.choice([1, 1, 2, 4])):
        r = rng.random()
        if r < .2:
            te += nest(rng, min(k, rng.choice([20, 200, 2500])))
        elif r < .4:
            te += lists(rng, min(k, rng.choice([50, 3000])))
        elif r < .6:
            t = names(rng, k)
            if rng.random() < .8:
                te += t
            else:
                iff += t
        elif r < .8:
            i, t = ifbody(rng, k)
            iff += i
            te += t
        else:
            fc += fcbody(rng, k)
    if rng.random() < .1:
        te = te.rstrip("\n")
    if rng.random() < .1:
        te, iff = rng.choice([("", iff), (te, ""), (iff, te), ("\n", "\n"), ("#", "#"), ("#selint-disable: C-001", iff)])
    b.bad("foo.te", te)
    b.bad("foo.if", iff)
    if fc:
        b.fc("foo.fc", [])
        b.files[-1]["text"] = fc
    if rng.random() < .5:
        b.opt("s")
        av, spt, mod = supbody(rng, min(k, 3000))
        for n, t in (("access_vectors", av), ("obj_perm_sets.spt", spt), ("modules.conf", mod)):
            if rng.random() < .7:
                b.sup(n, {"lines": [], "text": t})
    b.arg(".") if rng.random() < .5 else b.arg(*[p for p in list(b.root)])
    b.opt("r")
    if rng.random() < .3:
        b.opt("c")
        b.extra["cfgtext"] = rng.choice([
            "disable = { %s }\n" % ", ".join("\"x%d\"" % i for i in range(min(k, 2000))), "severity = \"" + "x" * k + "\"\n", "x" * k, "", "=\n", "disable = {\"\"}\n", "disable = {\n", "custom_fc_macros = {\"" + "y" * k + "\"}\n",
            "assume_users = {\"\", \"" + "u" * k + "\"}\n", "ordering_rules = \"" + "x" * k + "\"\n", "ordering_requires = {\"" + "\", \"".join(["type"] * min(k, 1000)) + "\"}\n", "disable = {\"C\"}\nenable_normal={\"C-\", \"C-0\", \"C-00\"}\n",
            "skip_checking_generated_fcs = " + "t" * k + "\n", "#" * k + "\nseverity = convention\n", "\0"])
    for _ in range(rng.choice([0, 0, 1, 3])):
        b.opt(rng.choice(["e", "d", "l"]), rng.choice(["", "C", "C-", "C-0", "C-001", "x" * min(k, 5000), "-", "W-001,W-002", "Z-999", "%s%n", "\xff"]))
    for o in ("S", "v", "F", "E"):
        if rng.random() < .15:
            b.opt(o)
    b.extra["free"] = True
    return b


def odd_args(rng):
    """Odd paths among the arguments."""
    b = Builder()
    b.bad("foo.te", "policy_module(foo,1.0)\ntype foo_t;\n;\n")
    b.bad("foo.if", "interface(`foo_x',`\n')\n")
    b.fc("foo.fc", ["/a"])
    b.mkdir("sub/deep")
    for _ in range(rng.choice([0, 1, 3])):
        b.opt(rng.choice(["r", "s", "S", "F", "hidden", "v"]))
    q = ["foo.te", "foo.if", "foo.fc", ".", "sub", "./sub/../foo.te", "", "te", ".te", "a", "/", "x" * 300, "sub/", "./", "foo.te/", "foo.te/x", "..te", "sub/deep/none.te", "nosuch.if", "foo", "%s.te", "\t", "a" * 5000 + ".te"]
    q.remove("/")
    b.arg(*[rng.choice(q) for _ in range(rng.choice([1, 2, 5, 40]))])
    if rng.random() < .3:
        b.context(rng.choice(q))
    b.extra["free"] = True
    return b


def bytes_only(rng):
    b = Builder()
    for n in ("foo.te", "foo.if", "foo.fc", "access_vectors", "obj_perm_sets.spt", "modules.conf"):
        t = "".join(chr(rng.choice([rng.randrange(256), rng.randrange(32, 127), 10, 32, 96, 39])) for _ in range(rng.choice(SIZES[:30]))) if rng.random() < .6 else \
            " ".join(rng.choice(TOKENS) for _ in range(rng.choice([1, 5, 30, 200])))
        if n.endswith(("te", "if")):
            b.bad(n, t)
        elif n.endswith("fc"):
            b.fc(n, [])
            b.files[-1]["text"] = t
        else:
            b.sup(n, {"lines": [], "text": t})
    b.opt("s")
    b.opt("r")
    b.arg(".")
    b.extra["free"] = True
    return b
