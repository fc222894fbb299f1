"""Cases: a file system tree, a command line, a configuration."""
import os

from render import render, PLAIN

NOCFG = {"readable": True, "syntax": True, "severity": "", "disable": [], "en_normal": [], "en_source": [], "users": [], "roles": [],
         "fcm": [], "tem": [], "order": "", "oreqset": False, "oreq": [], "same": "", "skipgen": ""}


def cfg(**kw):
    c = {k: (list(v) if isinstance(v, list) else v) for k, v in NOCFG.items()}
    c.update(kw)
    return c


class Builder:
    def __init__(self):
        self.files, self.sups, self.tree = [], [], []
        self.argv, self.args, self.ctx = [], [], []
        self.cfg = cfg()
        self.extra = {}
        self.root = {}       # nested: name -> dict or index of a tree entry
        self.tags = []

    # ---- options
    def opt(self, o, a="", how=0):
        self.argv.append({"o": o, "a": a, "how": how})
        return self

    def config(self, **kw):
        self.cfg = cfg(**kw)
        if not any(x["o"] == "c" for x in self.argv):
            self.opt("c")
        return self

    # ---- files
    def _place(self, path, entry):
        parts = [p for p in path.split("/") if p not in ("", ".")]
        d = self.root
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = entry

    def mkdir(self, path):
        parts = [p for p in path.split("/") if p not in ("", ".")]
        d = self.root
        for p in parts:
            d = d.setdefault(p, {})

    def _file(self, path, rec, **entry):
        self.files.append(rec)
        self._place(path, dict(fid=len(self.files), sid=0, **entry))

    def policy(self, path, stmts, style=PLAIN, **entry):
        text, nodes = render(stmts, style)
        self._file(path, {"kind": os.path.splitext(path)[1][1:], "bad": False, "badl": 0, "nodes": nodes, "lines": [], "text": text}, **entry)
        return nodes

    def bad(self, path, text, line=0, **entry):
        self._file(path, {"kind": os.path.splitext(path)[1][1:], "bad": True, "badl": line, "nodes": [], "lines": [], "text": text}, **entry)

    def fc(self, path, lines, nl="\n", final=True, **entry):
        text = nl.join(lines) + (nl if final and lines else "")
        self._file(path, {"kind": "fc", "bad": False, "badl": 0, "nodes": [], "lines": list(lines), "text": text}, **entry)

    def sup(self, path, rec, **entry):
        self.sups.append(rec)
        self._place(path, dict(fid=0, sid=len(self.sups), **entry))

    def other(self, path, text="junk\n", **entry):
        self._place(path, dict(fid=0, sid=0, _text=text, **entry))

    def arg(self, *paths):
        self.args += list(paths)
        return self

    def context(self, path, how=0):
        self.opt("ctx", path, how)
        self.ctx.append(path)
        return self

    # ---- result
    def finish(self, cid, shuffle=None):
        tree = []
        index = {}

        def add(name, node, path):
            tree.append(None)
            i = len(tree)
            index[path] = i
            if isinstance(node, dict) and "fid" not in node:
                names = list(node)
                if shuffle:
                    shuffle.shuffle(names)
                kids = [add(k, node[k], path + "/" + k if path else k) for k in names]
                tree[i - 1] = {"name": name, "dir": True, "kids": kids, "fid": 0, "sid": 0}
            else:
                e = {"name": name, "dir": False, "kids": [], "fid": node["fid"], "sid": node["sid"]}
                e.update({k: v for k, v in node.items() if k.startswith("_")})
                tree[i - 1] = e
            return i

        add(".", self.root, "")

        def ref(p):
            q = "/".join(x for x in p.split("/") if x not in ("", "."))
            return {"path": p, "t": index.get(q, 0)}

        c = {"id": cid, "argv": self.argv, "args": [ref(p) for p in self.args], "ctx": [ref(p) for p in self.ctx], "cfg": self.cfg,
             "tree": tree, "files": self.files, "sups": self.sups}
        c["dev"], c["kern"] = index.get("sys/devel", 0), index.get("sys/class", 0)
        if c["dev"] or c["kern"]:
            tree[0]["kids"].remove(index["sys"])
        c.update(self.extra)
        return c


def raw_text(text):
    """(lines, final newline) as the specification reads them: one character for each byte."""
    if isinstance(text, str):
        text = text.encode("utf-8", "surrogateescape")
    t = text.decode("latin-1")
    nl = t.endswith("\n") or t == ""
    src = t.split("\n")
    return (src[:-1] if nl else src), nl


def dump_file(f, chk):
    r = {"kind": f["kind"], "bad": False, "badl": 0, "nodes": [], "lines": f["lines"], "raw": False, "src": [], "nl": True, "chk": False, "meant": 0}
    if f["kind"] == "fc":
        r["bad"] = f["bad"]
        return r
    r["src"], r["nl"] = raw_text(f["text"])
    r["raw"] = True
    if chk and not f.get("mut"):
        r["chk"], r["meant"] = True, {k: f[k] for k in ("bad", "badl", "nodes")}
    return r


def dump_sup(s, name, chk):
    r = {"kind": {"access_vectors": "av", "obj_perm_sets.spt": "spt"}.get(name, ""), "raw": False, "src": [], "nl": True, "defs": [], "badat": 0,
         "lines": [], "badl": 0, "chk": False, "meant": 0}
    if "lines" in s:
        r["lines"] = s["lines"]
    if r["kind"]:
        r["src"], r["nl"] = raw_text(s["text"])
        r["raw"] = True
        if chk and "defs" in s and not s.get("mut"):
            r["chk"], r["meant"] = True, {k: s[k] for k in ("defs", "badat")}
    return r


def dumpable(c):
    """The part of a case the specification reads."""
    free = bool(c.get("free"))
    if free:     # nothing but the end of the run is predicted
        c = dict(c, argv=[], args=[], ctx=[], tree=[], files=[], sups=[], cfg=cfg(),
                 obs=dict(c["obs"], findings=[], f001=[], summary=[], warned=[], swarn=[], shown=False, none=False))
    keep = {k: c[k] for k in ("id", "argv", "args", "ctx", "cfg", "files", "sups")}
    keep["tree"] = [{k: e[k] for k in ("name", "dir", "kids", "fid", "sid")} for e in c["tree"]]
    keep["dev"], keep["kern"] = (0, 0) if free else (c.get("dev", 0), c.get("kern", 0))
    keep["free"] = free
    keep["argv"] = [{"o": x["o"], "a": x["a"]} for x in c["argv"]]
    keep["cfg"] = {k: v for k, v in c["cfg"].items() if k != "text"}
    chk = c["id"] % 3 == 0
    names = {e["sid"]: e["name"] for e in c["tree"] if e["sid"]}
    keep["files"] = [dump_file(f, chk) for f in c["files"]]
    keep["sups"] = [dump_sup(s, names.get(i + 1, ""), chk) for i, s in enumerate(c["sups"])]
    o = c["obs"]
    keep["obs"] = {k: o[k] for k in ("exit", "findings", "f001", "summary", "shown", "none", "warned", "swarn", "san")}
    return keep
