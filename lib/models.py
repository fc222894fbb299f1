"""Small worlds: TLC enumerates the texts an author may write within a scope of
spec/Scopes.tla (machine spec/Author.tla); every text is run through the real program
and its run checked against the specification like any other."""
import ast
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

import gensup
import mutate
import profiles
import tlc
from cases import Builder
from render import TeRender, Style

# scope -> (items in a quick run, items in a thorough run)
SCOPES = {
    "P01": {"P01a": (3, 4), "P01b": (3, 4), "P01c": (2, 3)}, "P02": {"P02a": (2, 3), "P02b": (3, 4), "P02c": (3, 4)}, "P03": {"P03a": (3, 4)}, "P04": {"P04a": (3, 4), "P04b": (3, 4), "P04c": (3, 3), "P04d": (3, 4), "P04e": (3, 4), "P04f": (3, 4)}, "P05": {"P05a": (3, 4)}, "P06": {"P06a": (5, 5), "P06b": (4, 8)}, "P07": {"P07a": (3, 4), "P07b": (1, 2)},
    "P08": {"P08a": (3, 5), "P08b": (3, 4)}, "P09": {"P09a": (7, 7)}, "P10": {"P10a": (2, 3)}, "P11": {"P11a": (3, 4), "P11b": (2, 3)}, "P12": {"P12a": (3, 4), "P12b": (3, 4)},
    "P13": {"P13a": (2, 3), "P13b": (2, 2), "P13c": (2, 2), "P13d": (3, 4), "P13e": (1, 2), "P13f": (1, 2), "P13g": (4, 4), "P13h": (1, 2)}, "P14": {"P14a": (3, 4), "P14b": (3, 4), "P14c": (2, 3), "P14d": (2, 3)},
    "P15": {"P15a": (3, 4), "P15b": (2, 3), "P15c": (1, 2)}, "P16": {"P16a": (3, 3), "P16b": (3, 3), "P16c": (3, 3), "P16d": (2, 3), "P16e": (3, 4), "P16f": (2, 3), "P16g": (2, 3), "P16h": (2, 3)},
    "P17": {"P17a": (3, 4), "P17b": (3, 4), "P17c": (3, 4), "P17d": (3, 3)}, "P18": {"P18a": (4, 5), "P18b": (4, 6), "P18c": (3, 5), "P18d": (4, 6)}, "P19": {"P19a": (4, 5), "P19b": (3, 4)},
    "P20": {"P20a": (2, 3), "P20b": (3, 4)}, "P22": {"P22a": (4, 5), "P22b": (3, 4), "P22c": (3, 4), "P22d": (3, 4)}, "P23": {"P23a": (2, 3)}, "P24": {"P24a": (2, 3), "P24b": (2, 3), "P24c": (2, 3)},
}
TEXTS = 1100          # texts of a quick run
BATCH = 6000          # texts of one batch of a thorough run
LETTERS = "bcdefghijklmnopqrtuvwxyz"
TINY = {"letters", "sites", "modules", "vectors", "options", "tree", "placement", "orders"}      # one run for each text


def read_tla(line):
    return [int(x) for x in re.findall(r"\d+", line)]


def enumerate_texts(check, name, n):
    r = tlc.tlc("Author", check.work, {"SCOPE": name, "LEN": str(n)}, workers="2", heap="2g")
    if r["violations"] or r["rc"] != 0:
        raise RuntimeError("scope %s: %s" % (name, "".join(r["out"])[-2000:]))
    scope, texts = None, []
    for line in r["lines"]:
        if line.startswith('"SCOPE '):
            scope = json.loads(json.loads(line)[len("SCOPE "):])
        elif line.startswith('"TEXT '):
            texts.append(tuple(read_tla(line[6:])))
    texts.sort(key=lambda t: (len([i for i in t if i]), t))
    return name, scope, texts, r["distinct"]


# ---- statements of a text
def fill(s, contents):
    """s with HOLE replaced by the contents."""
    if isinstance(s, list):
        out = []
        for x in s:
            if isinstance(x, dict) and x.get("k") == "HOLE":
                out += contents
            else:
                out.append(fill(x, contents))
        return out
    if isinstance(s, dict):
        return {k: fill(v, contents) for k, v in s.items()}
    return s


def compose(alpha, text):
    stack = [(None, [])]
    for i in text:
        if i == 0:
            block, kids = stack.pop()
            stack[-1][1].append(fill(block, kids))
        elif alpha[i - 1]["b"]:
            stack.append((alpha[i - 1]["v"], []))
        else:
            stack[-1][1].append(alpha[i - 1]["v"])
    return stack[0][1]


def named(x, m):
    if isinstance(x, str):
        return x.replace("@", m)
    if isinstance(x, list):
        return [named(y, m) for y in x]
    if isinstance(x, dict):
        return {k: named(v, m) for k, v in x.items()}
    return x


def insert(x, mark, words):
    """x with the placeholder (a statement of kind mark, or the word mark) replaced by words."""
    if isinstance(x, list):
        out = []
        for y in x:
            if y == mark or (isinstance(y, dict) and y.get("k") == mark):
                out += words
            else:
                out.append(insert(y, mark, words))
        return out
    if isinstance(x, dict):
        return {k: insert(v, mark, words) for k, v in x.items()}
    return x


def module(j):
    return "q" + LETTERS[j // len(LETTERS) % len(LETTERS)] + LETTERS[j % len(LETTERS)]


# ---- the surroundings of the texts
def support(b, sups, base=""):
    out = []
    for s in sups:
        if s["name"] == "modules.conf":
            lines = ["%s = %s" % (x[0], x[1]) for x in s["items"]]
            rec = {"lines": [{"s": x, "nl": True} for x in lines], "text": "".join(x + "\n" for x in lines)}
        elif s["name"] == "obj_perm_sets.spt":
            rec = {"defs": [{"name": x[0], "items": x[1], "warn": False} for x in s["items"]], "badat": 0,
                   "text": "".join("define(`%s',`{ %s }')\n" % (x[0], " ".join(x[1])) for x in s["items"])}
        else:
            rec = {"defs": [{"cls": x[0], "perms": x[1]} for x in s["items"]], "badat": 0,
                   "text": "".join("class %s { %s }\n" % (x[0], " ".join(x[1])) for x in s["items"])}
        b.sup(base + s["name"], rec)
        out.append(base + s["name"])
    return out


def start(S):
    b = Builder()
    for o in S["opts"]:
        b.opt(o)
    if S["order"] or S["fcm"]:
        b.config(order=S["order"], fcm=S["fcm"])
    for p in S["pre"]:
        b.policy(p["path"], p["stmts"])
        b.arg(p["path"])
    b.arg(*support(b, S["sups"]))
    return b


def statements(S, text, j):
    """Path and statements of the file of text j."""
    m, alpha = S["mod"] + module(j), S["alpha"]
    kind = S["kind"]
    if kind == "words":
        words = [alpha[i - 1]["v"] for i in text]
        return m + ".te", named(S["head"] + insert(S["tail"], "TEXT", words), m)
    body = compose(alpha, text)
    if kind == "if":
        return m + ".if", named(insert(S["head"], "DOC", body) + S["tail"], m)
    return m + ".te", named(S["head"] + body + S["tail"], m)


def packed(S, texts, cid):
    """Many texts, each a module of its own."""
    b = start(S)
    for j, t in enumerate(texts):
        path, st = statements(S, t, j)
        b.policy(path, st)
        b.arg(path)
        if S["fcs"]:
            b.fc(module(j) + ".fc", named(S["fcs"], module(j)))
            b.arg(module(j) + ".fc")
    return b.finish(cid)


def template(S, texts, cid):
    b = start(S)
    observe, fcs = [], []
    for j, t in enumerate(texts):
        m = module(j)
        b.policy(m + ".if", named([{"k": "COMMENT", "_text": "## doc"}, {"k": "TEMPLATE", "name": "@_template", "kids": compose(S["alpha"], t)}], m))
        b.arg(m + ".if")
        a, c = "a" + m, "b" + m
        call = lambda *q: {"k": "CALL", "name": m + "_template", "args": list(q), "sp": [False] * len(q)}
        one = j % 3
        st = [{"k": "HEADER", "name": "t" + m, "bare": False}] + ([call(a, c)] if one == 0 else [call(a)] if one == 1 else [call(a, c), call(c, a)])
        b.policy("t" + m + ".te", st)
        b.arg("t" + m + ".te")
        for x in (a + "_t", c + "_t", a + "_" + c + "_t", "x_" + a, a + a + "_r", c + c + "_r", c + "_b", a + "_m_t", a + "_al_t", a + "_s_t", c + "_s_t", c + "_s_r", "a_" + a + "_s_r",
                  "d_" + a + "_s_r", "fix_t", "$1_t", "$2_t", "$_t", "y_s_r", "$x_s_t", "$1_s_t"):
            fcs.append("/%s gen_context(system_u:%s:%s,s0)" % (m, x, x))
            if x[0] != "$":
                observe.append({"k": "AV", "av": "allow", "src": [x], "tgt": ["self"], "cls": ["file"], "perms": ["read"]})
    # what each text declares, of which kind, and whose it is
    asks = []
    for j in range(len(texts)):
        a, c = "a" + module(j), "b" + module(j)
        asks += [("attribute_role", a + "_ra"), ("attribute", a + "_ra"), ("role", a + "_ra"), ("attribute", "x_" + a), ("attribute_role", "x_" + a), ("bool", c + "_b"), ("bool", a + "_t"),
                 ("role", a + a + "_r"), ("attribute_role", a + a + "_r"), ("type", a + "_t"), ("type", a + "_al_t"), ("type", a + "_bl_t"), ("attribute", a + "_al_t"), ("type", a + "_m_t")]
    b.policy("asker.if", [{"k": "COMMENT", "_text": "## doc"}, {"k": "INTERFACE", "name": "asker_read", "kids": [
        {"k": "GENREQ", "unq": False, "kids": [{"k": "REQDECL", "fl": fl, "names": [x], "attrs": []} for fl, x in asks]}]}])
    b.policy("observer.te", [{"k": "HEADER", "name": "observer", "bare": False}] + observe)
    b.fc("observer.fc", fcs)
    b.arg("observer.te", "observer.fc", "asker.if")
    return b.finish(cid)


def chars(S, texts, cid):
    b = start(S)
    pre = S["tail"][0] if S["tail"] else ""
    post = S["tail"][1] if len(S["tail"]) > 1 else ""
    for k in range(0, len(texts), 50):
        p = "c%d.fc" % (k // 50)
        b.fc(p, [pre + "".join(S["alpha"][i - 1]["v"] for i in t) + post for t in texts[k:k + 50]])
        b.arg(p)
    return b.finish(cid)


def layout_case(S, texts, cid):
    """Text j goes in front of a token, or of a statement, of the file."""
    b = start(S)
    for j, t in enumerate(texts):
        lay = "".join(S["alpha"][i - 1]["v"] for i in t)
        m = module(j)
        at = hash_of(t) // 7 % (24 if S["kind"] == "comments" else 190)
        for k in range(2):
            r = TeRender(Style())
            o = r.o
            count, plain, between = [0], o.tok, o.between

            def put():
                count[0] += 1
                if count[0] == at:
                    if S["kind"] == "comments" and not o.bol:
                        o.newline()
                    o.raw(" " if not o.bol and lay[:1] == "d" else "")
                    o.raw(lay)

            def tok(s, space=None):
                put()
                return plain(s, space)

            def gap(inside=True):
                if o.parts:
                    put()
                between(inside)
            if S["kind"] == "comments":
                o.between = gap
            else:
                o.tok = tok
            for s in named(S["head"], m):
                o.between(inside=False)
                r.stmt(s, 0)
            text, nodes = r.finish()
            if count[0] >= at:
                break
            at = at % count[0] + 1
        b._file(m + ".te", {"kind": "te", "bad": False, "badl": 0, "nodes": nodes, "lines": [], "text": text})
        b.arg(m + ".te")
    return b.finish(cid)


FILE_CLASSES = ("dir", "file", "lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file")


def macros(S, texts, cid):
    """Text j is a macro of class j; rules of every class with every permission."""
    b = start(S)
    defs, st = [], named(S["head"], module(0))
    for cls, t in zip(FILE_CLASSES, texts):
        q = [S["alpha"][i - 1]["v"] for i in t]
        q += [p for p in ("ioctl", "entrypoint", "getattr") if p not in q][:2]
        defs.append({"name": "x_%s_perms" % cls, "items": q, "warn": False})
        for i in S["alpha"]:
            st.append({"k": "AV", "av": "allow", "src": [module(0) + "_t"], "tgt": ["self"], "cls": [cls], "perms": [i["v"]] + [p for p in q[len(t):] if p != i["v"]]})
    b.sup("obj_perm_sets.spt", {"defs": defs, "badat": 0, "text": "".join("define(`%s',`{ %s }')\n" % (d["name"], " ".join(d["items"])) for d in defs)})
    b.policy("m.te", st)
    b.arg("obj_perm_sets.spt", "m.te")
    return b.finish(cid)


def hash_of(t):
    h = 7
    for i in t:
        h = (h * 31 + i) % 1000003
    return h


def tiny(S, t, cid):
    """A run for one text."""
    kind, alpha = S["kind"], S["alpha"]
    v = [alpha[i - 1]["v"] for i in t if i]
    if kind == "modules":
        b = start(S)
        b.opt("s")
        text = "".join(v)
        if len(text.split("\n")[-1]) == 1:
            text += "\n"
        segs = text.split("\n")
        lines = [{"s": x, "nl": True} for x in segs[:-1]] + ([{"s": segs[-1], "nl": False}] if segs[-1] else [])
        b.sup("modules.conf", {"lines": lines, "text": text})
        b.arg("modules.conf")
    elif kind == "vectors":
        b = start(S)
        b.opt("s")
        defs, badat = [], 0
        for head, cls, perms, bad in v:
            if bad and not badat:
                badat = len(defs) + 1
            if cls != "#" and not bad:
                defs.append({"cls": cls, "perms": perms.split()})
        b.sup("access_vectors", {"defs": defs, "badat": badat, "text": "".join(x[0] + "\n" for x in v)})
        b.arg("access_vectors")
    elif kind == "options":
        b = Builder()
        rng = random.Random(hash_of(t))
        paths, sups = profiles.rich(rng, b)
        b.arg(*(paths + sups))
        for x in v:
            b.opt(x["o"], x["a"], rng.randrange(4))
    elif kind == "letters":
        b = start(S)
        b.opt("d", "C-001")
        b._file("m.te", {"kind": "te", "bad": False, "badl": 0, "nodes": [], "lines": [], "mut": True,
                         "text": "policy_module(m,1.0)\ntype a;\n" + S["tail"][hash_of(t) % len(S["tail"])].replace("TEXT", "".join(v)) + ("\n" if hash_of(t) % 5 else "\n;\nfoo(a)\n")})
        b.arg("m.te")
    elif kind == "sites":
        b = start(S)
        paths, dirs, h = [], [], hash_of(t)
        for x, d in v:
            if "path" in x:
                b.policy(d + x["path"], x["stmts"])
            else:
                support(b, [x], d)
            name = d + (x["path"] if "path" in x else x["name"])
            if d.startswith("ctx"):
                top = d.split("/")[0]
                if top not in b.ctx:
                    b.mkdir(top)
                    b.context(top, h // 4 % 2)
            else:
                paths.append(name)
                if d not in dirs:
                    dirs.append(d)
        if h // 8 % 2:
            paths.reverse()
            dirs.reverse()
        if h % 3 == 0 or not dirs:
            b.arg(*paths)
        else:
            b.opt("r")
            b.arg(*(["w"] if h % 3 == 1 else [d.rstrip("/") for d in dirs]))
    elif kind == "tree":
        b = Builder()
        combo = hash_of(t)
        for bit, o in enumerate(("r", "hidden", "s")):
            if combo >> (bit + 2) & 1:
                b.opt(o)
        path, n = ["w"], 0
        b.mkdir("w")
        for i in t:
            if i == 0:
                path.pop()
                continue
            x = alpha[i - 1]["v"]
            p = "/".join(path + [x])
            n += 1
            if alpha[i - 1]["b"]:
                path.append(x)
                b.mkdir(p)
            elif x == "modules.conf":
                b.sup(p, {"lines": [{"s": "zz = base", "nl": True}], "text": "zz = base\n"})
            elif x.endswith(".te"):
                b.policy(p, [{"k": "HEADER", "name": x[:2], "bare": False}] + [{"k": "SEMICOLON"}] * n)
            elif x.endswith(".if"):
                b.policy(p, [{"k": "INTERFACE", "name": x[:2] + "_if", "kids": [{"k": "SEMICOLON"}] * n}])
            elif x.endswith(".fc"):
                b.fc(p, ["bad"] * n)
            else:
                b.other(p)
        b.arg("w")
    else:
        b = Builder()
        for o in S["opts"]:
            b.opt(o)
        if S["order"]:
            b.config(order=S["order"])
        files = {p["path"]: p["stmts"] for p in S["pre"]}
        if kind == "placement":
            for p, where in v:
                d = {"ctx": "ctx/", "sys": "sys/devel/include/kernel/"}.get(where, "")
                if where == "class":
                    b.other("sys/class/%s/perms/getattr" % p)
                    b.other("sys/class/%s/index" % p)
                elif p in files:
                    b.policy(d + p, files[p])
                    if not d:
                        b.arg(p)
            if any(w == "ctx" for _, w in v):
                b.context("ctx")
            b.fc("all.fc", S["fcs"])
            b.arg("all.fc", *support(b, S["sups"]))
        else:
            for p, st in files.items():
                b.policy(p, st)
            b.fc("all.fc", S["fcs"])
            support(b, S["sups"])
            b.arg(*v)
    return b.finish(cid)


def allowed(S, t):
    if S["kind"] in ("words", "layout", "comments", "orders", "macros") and not t:
        return False
    if S["kind"] == "orders":
        return len(set(t)) == len(t)
    if S["kind"] == "placement":
        names = [S["alpha"][i - 1]["v"][0] for i in t]
        return (len(set(names)) == len(names) or "s" not in S["opts"]) and any(S["alpha"][i - 1]["v"][1] == "main" for i in t)
    if S["kind"] == "sites":
        v = [S["alpha"][i - 1]["v"] for i in t]
        names = [d + x.get("path", x.get("name")) for x, d in v]
        return len(set(names)) == len(names)
    if S["kind"] == "vectors":
        return True
    return True


PER = {"chars": 400, "macros": 7, "words": 40, "template": 8, "layout": 8, "comments": 8}


def cases_of(S, texts):
    kind = S["kind"]
    if kind in TINY:
        return [tiny(S, t, i + 1) for i, t in enumerate(texts)]
    make = {"template": template, "chars": chars, "layout": layout_case, "comments": layout_case, "macros": macros}.get(kind, packed)
    per = PER.get(kind, 8 if S["order"] else 20)
    return [make(S, texts[i:i + per], i // per + 1) for i in range(0, len(texts), per)]


def spread(texts, n, rng):
    """n of the texts: all the short ones if they fit in half, the rest drawn."""
    if len(texts) <= n:
        return texts
    size = lambda t: len([i for i in t if i])
    out, k = [], 0
    while True:
        level = [t for t in texts if size(t) == k]
        if len(out) + len(level) > n // 2 or k > 20:
            break
        out += level
        k += 1
    rest = [t for t in texts if size(t) >= k]
    return out + rng.sample(rest, n - len(out))


# ---- sentences, and edited ones (spec/Editor.tla)
# "a>b": sentences of kind a in a file of kind b
EDITS = {"P04": {"te": 1000, "if": 80, "av>te": 60, "spt>te": 60, "av>if": 50, "spt>if": 50, "te>if": 200, "if>te": 50},
         "P22": {"spt": 120, "av": 120, "spt>av": 50, "te>av": 160, "te>spt": 160}, "P24": {"te": 300}}     # kind -> texts of a quick run
OVER = (" \n", " ", " \n\t", " ")
WRAP = {"te": ("%s", "optional_policy(`\n%s')\n", "if (x) {\n%s} else {\n;\n}\n", "ifdef(`x',`\n%s',`\n;\n')\n", "%stype zz;\n"), "if": ("%s",), "spt": ("%s",), "av": ("%s",)}


def edited(S, t):
    q = S["s"][t[0] - 1].split(" ")
    if len(t) > 1:
        i, tok, gone = t[1:]
        q[i - 1:i - 1 + gone] = [S["v"][tok - 1]] if tok else []
    return q


def written(kind, q, h):
    """The tokens as text, on one line or on a line each."""
    sep, text = OVER[h % 4], ""
    for x in q:
        text += x + ("\n" if x[0] == "#" else sep)
    text = text.rstrip(" \t\n") + "\n"
    w = WRAP[kind]
    return w[h // 4 % len(w)] % text


def edit_case(kind, S, t, cid):
    h = hash_of(t)
    text = written(kind.split(">")[0], edited(S, t), h)
    kind = kind.split(">")[-1]
    b = Builder()
    b.opt("d", "C-001")
    use = [{"k": "HEADER", "name": "use", "bare": False}, {"k": "DECL", "fl": "type", "name": "use_t", "attrs": []}] + [
        {"k": "AV", "av": "allow", "src": ["use_t"], "tgt": ["self"], "cls": [c], "perms": ["a", "b", "a_perms", "x", "open", "b_perms"]} for c in ("c", "d", "file", "dir", "a")]
    if kind == "te":
        b._file("m.te", {"kind": "te", "bad": False, "badl": 0, "nodes": [], "lines": [], "text": "policy_module(m,1.0)\n" + text, "mut": True})
        b.arg("m.te")
    elif kind == "if":
        b._file("m.if", {"kind": "if", "bad": False, "badl": 0, "nodes": [], "lines": [], "text": text, "mut": True})
        b.arg("m.if")
    else:
        b.opt("s")
        name = "obj_perm_sets.spt" if kind == "spt" else "access_vectors"
        b.sup(name, {"defs": [], "badat": 0, "text": text, "mut": True})
        if kind == "spt":
            b.sup("access_vectors", {"defs": [{"cls": "c", "perms": ["x"]}], "badat": 0, "text": "class c { x }\n"})
            b.arg("access_vectors")
        else:
            b.sup("obj_perm_sets.spt", {"defs": [{"name": "z_perms", "items": ["z"], "warn": False}], "badat": 0, "text": "define(`z_perms',`{ z }')\n"})
            b.arg("obj_perm_sets.spt")
        b.policy("use.te", use)
        b.arg(name, "use.te")
    return b.finish(cid)


def edits(check):
    thorough = check.tier == "thorough"
    kinds = EDITS.get(check.prop, {})
    rng = random.Random("edits-%s-%d" % (check.prop, check.seed))
    for n, kind in enumerate(kinds):
        r = tlc.tlc("Editor", check.work, {"KIND": kind.split(">")[0]}, workers="2", heap="3g")
        if r["violations"] or r["rc"] != 0:
            raise RuntimeError("sentences %s: %s" % (kind, "".join(r["out"])[-2000:]))
        S, texts = None, []
        for line in r["lines"]:
            if line.startswith('"SENTENCES '):
                S = json.loads(json.loads(line)[len("SENTENCES "):])
            elif line.startswith('"TEXT '):
                texts.append(tuple(read_tla(line[6:])))
        texts.sort()
        plain = [t for t in texts if len(t) == 1]
        rest = [t for t in texts if len(t) > 1]
        if check.prop == "P24":      # statements among statements: what is put in or taken away is one
            rest = [t for t in rest if t[2] in (0, 8, 29, 30) or t[3] == 0]
        rng.shuffle(rest)
        kin = lambda t: t[3] == 1 and t[2] and S["v"][t[2] - 1] in mutate.KIN.get((S["s"][t[0] - 1].split(" ") + [""])[t[1] - 1], ())
        if not thorough:             # first a word by another one of its kind
            rest = [t for t in rest if kin(t)][:kinds[kind] // 2] + [t for t in rest if not kin(t)]
        use = plain + (rest if thorough else rest[:kinds[kind] - len(plain)])
        check.models.append({"scope": "edited sentences (%s)" % kind, "items": 1, "states": r["distinct"], "texts": len(texts), "texts_run": 0})
        for i in range(0, len(use), 2000):
            if i and check.elapsed() > check.edit_seconds * (n + 1) / len(kinds):
                break
            part = use[i:i + 2000]
            if not check.conform([edit_case(kind, S, t, j + 1) for j, t in enumerate(part)]):
                return
            check.models[-1]["texts_run"] += len(part)


def run(check):
    edits(check)
    scopes = SCOPES.get(check.prop, {}) if not check.violations else {}
    if not scopes:
        return
    thorough = check.tier == "thorough"
    with ThreadPoolExecutor(4) as ex:
        found = list(ex.map(lambda s: enumerate_texts(check, s, scopes[s][thorough]), scopes))
    rng = random.Random("models-%s-%d" % (check.prop, check.seed))
    for name, S, texts, states in found:
        texts = [t for t in texts if allowed(S, t)]
        n = TEXTS * (2 if check.prop == "P16" else 1) // len(scopes)
        if S["kind"] in TINY:
            n = (900 if check.prop == "P01" else 300) // len(scopes)
        if S["kind"] == "letters":
            n = 2000 // len(scopes)
        if S["kind"] == "chars":
            n = TEXTS * 2 // len(scopes)
        use = texts if thorough else spread(texts, n, rng)
        check.models.append({"scope": name, "items": scopes[name][thorough], "states": states, "texts": len(texts), "texts_run": 0})
        if thorough:
            rng.shuffle(use)
        batch = BATCH // (6 if S["kind"] in TINY else 1)
        for i in range(0, len(use), batch):
            if i and check.tier == "thorough" and check.elapsed() > check.model_seconds * (1 + list(scopes).index(name)) / len(scopes):
                break
            part = use[i:i + batch]
            if not check.conform(cases_of(S, part)):
                return
            check.models[-1]["texts_run"] += len(part)
