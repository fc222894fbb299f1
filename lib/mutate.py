"""Changed texts: what the tokens of a generated file turn into under small edits.
The specification reads the result itself; nothing is known about it beforehand."""
import re

TOK = re.compile(r"\n|[ \t\r]+|#[^\n]*|\"[^\"\n]*\"|[A-Za-z0-9_$/*]+|&&|\|\||!=|==|.", re.S)
WORDS = ["policy_module", "module", "type", "typealias", "alias", "attribute", "bool", "typeattribute", "roleattribute", "role", "types", "attribute_role",
         "allow", "allowxperm", "auditallow", "auditallowxperm", "dontaudit", "dontauditxperm", "neverallow", "neverallowxperm", "type_transition",
         "type_member", "type_change", "range_transition", "role_transition", "optional_policy", "gen_require", "gen_bool", "gen_tunable", "require",
         "tunable_policy", "ifelse", "refpolicywarn", "class", "common", "inherits", "if", "else", "ifdef", "ifndef", "genfscon", "sid", "portcon",
         "netifcon", "nodecon", "fs_use_trans", "fs_use_xattr", "fs_use_task", "define", "gen_user", "gen_context", "permissive", "typebounds",
         "interface", "template", "userdebug_or_eng"]
MARKS = list("(),.{}:;`'~*-^!") + ["&&", "||", "!=", "=="]
ODD = ["\"x\"", "\"a.b:c-~$\"", "1.0", "1", "12", "1.2.3", "0x10", "10.0.0.1", "::1", "fe80::1", "a:b", "s0", "c0.c5", "s0 - s0:c0.c1023", "--", "-d", "-- ", "-d ", "-d x", "$1", "$*", "/x",
       "a-b", "-a", "- a", "~a", "self", "*", "@", "\"", "&", "|", "=", "%", "<", "[", "]", "\\", "?", "\xe9", "_x", "dnl", "dnl x", "dnlx", "true", "ab", "dead:beef", "1a", "1-2", "1.2.3.4.5", "x.y"]
COMMENTS = ["# note", "#", "#selint-disable:W-001", "#selint-disable: C-001", "#selint-disable: W-001, C-005", "#selint-disable:S-003,E-007", "#selint-disable: nothing", "# selint-disable: W-001",
            "#selint-disable: W-001,", "#selint-disable:  W-001", "#selint-disable: S-001, E-009 ", "#selint-disable: W-002 why", "#selint-disable: W-003, W-011, S-005"]
STMTS = [";", "type new_t;", "attribute new_a;", "allow new_t new_t:file read;", "foo_read(new_t)", "foo", "optional_policy(`\n;\n')", "require {\ntype q_t;\n}", "gen_require(`\ntype q_t;\n')",
         "if (x) {\n;\n}", "if (x) { ; } else { ; }", "ifdef(`x',`\n;\n',`\n;\n')", "ifelse(`a',`b',`\n;\n')", "tunable_policy(`x && !y',`\n;\n')", "define(`x',`y')", "refpolicywarn(`old')",
         "userdebug_or_eng(`\n;\n')", "role r types new_t;", "role r;", "typealias new_t alias b_t;", "typeattribute new_t a, b;", "permissive new_t;", "policy_module(x, 1.0)",
         "allow a_r b_r;", "interface(`new_if',`\n;\n')", "template(`new_tp',`\n;\n')", "gen_bool(b, true)", "gen_tunable(`t', false)", "bool b;", "class file read;", "class file { read write };",
         "type_transition a b:file c;", "type_transition a b:file c \"x\";", "range_transition a b:process s0 - s0:c0;", "role_transition r t n;", "allowxperm a b:c ioctl 0x10;", "sid kernel gen_context(a:b:c,s0)",
         "genfscon proc /x -d gen_context(a:b:c,s0)", "portcon tcp 1-2 gen_context(a:b:c,s0)", "nodecon 10.0.0.1 255.0.0.0 a:b:c", "netifcon lo a:b:c a:b:c", "fs_use_task x a:b:c;", "gen_user(u, p, r, s0, s0)",
         "auditallow a b;", "neverallow a b;", "dontaudit a b;", "auditallow a_r b_r;", "typebounds a b;", "type_member a b:c d;", "roleattribute r a;", "attribute_role ar;", "class file { read }", "common x { y }", "define(`x_perms',`{ a b }')"]


SIBLINGS = [["allow", "auditallow", "dontaudit", "neverallow"], ["allowxperm", "auditallowxperm", "dontauditxperm", "neverallowxperm"], ["allow", "allowxperm"],
            ["type_transition", "type_member", "type_change", "range_transition", "role_transition"], ["type", "attribute", "role", "attribute_role", "bool", "class"],
            ["typeattribute", "roleattribute", "typealias", "typebounds", "permissive"], ["gen_bool", "gen_tunable", "bool"], ["class", "common"], ["interface", "template"],
            ["ifdef", "ifndef", "ifelse", "tunable_policy", "optional_policy", "userdebug_or_eng", "gen_require", "require", "define"],
            ["sid", "genfscon", "portcon", "netifcon", "nodecon", "fs_use_trans", "fs_use_xattr", "fs_use_task"], ["policy_module", "module"], ["alias", "types", "inherits", "attribute"],
            ["{", "}"], ["(", ")"], ["`", "'"], [",", ";", ":", "."], ["~", "*", "-", "!"], ["&&", "||", "^", "==", "!="], ["if", "else", "ifdef"], ["typealias", "type"], ["gen_context", "gen_user"]]
KIN = {}
for group in SIBLINGS:
    for t in group:
        KIN.setdefault(t, set()).update(x for x in group if x != t)


def split(text):
    return TOK.findall(text)


def blank(t):
    return t.isspace()


def gap(rng, q):
    return rng.randint(0, len(q))


def solid(rng, q):
    k = [i for i, t in enumerate(q) if not blank(t)]
    return rng.choice(k) if k else None


def edit(rng, q, words, gentle):
    """One edit of the tokens q, in place."""
    i = solid(rng, q)
    if i is None:
        q.insert(0, rng.choice(words + MARKS))
        return
    r = rng.random()
    if gentle:
        if r < .15:                                   # layout
            q[gap(rng, q):0] = [rng.choice(["\n", " ", "\t", "\n\n", "  \n", "\r\n"])]
        elif r < .3:                                  # a comment somewhere
            g = gap(rng, q)
            q[g:g] = [" ", rng.choice(COMMENTS), "\n"]
        elif r < .45:                                 # another name
            k = [j for j, t in enumerate(q) if re.match(r"[a-z]\w*$", t) and t not in WORDS]
            if k:
                q[rng.choice(k)] = rng.choice(words)
        elif r < .65:                                 # a statement at a line
            k = [0] + [j + 1 for j, t in enumerate(q) if t == "\n"]
            g = rng.choice(k)
            q[g:g] = split(rng.choice(STMTS) + rng.choice(["\n", "\n", " ", " " + rng.choice(COMMENTS) + "\n"]))
        elif r < .8:                                  # a line again, elsewhere
            text = "".join(q).split("\n")
            a, b = rng.randrange(len(text)), rng.randint(0, len(text))
            text.insert(b, text[a])
            if rng.random() < .4:
                del text[a if a < b else a + 1]
            q[:] = split("\n".join(text))
        elif r < .9:                                  # a disable comment behind a line
            k = [j for j, t in enumerate(q) if t == "\n"]
            if k:
                g = rng.choice(k)
                q[g:g] = [rng.choice([" ", "", "\t"]), rng.choice(COMMENTS)]
        else:                                         # a minus, a complement, a star, a list
            k = [j for j, t in enumerate(q) if re.match(r"[a-z]\w*$", t) and t not in WORDS]
            if k:
                j = rng.choice(k)
                q[j] = rng.choice(["{ %s }", "~%s", "{ %s self }", "{ %s -%s }", "~{ %s }", "-%s", "%s %s", "{ %s *", "\"%s\"", "%s, %s", "$1_%s", "%s*"]).replace("%s", q[j])
        return
    if r < .12:
        del q[i]
    elif r < .2:                                      # a word of the same kind
        k = [j for j, t in enumerate(q) if t in KIN]
        if k:
            j = rng.choice(k)
            q[j] = rng.choice(sorted(KIN[q[j]]))
    elif r < .28:
        q.insert(i, q[i])
    elif r < .36:
        j = solid(rng, q)
        q[i], q[j] = q[j], q[i]
    elif r < .5:
        q[i] = rng.choice(MARKS if re.match(r"\W", q[i]) or rng.random() < .2 else words + WORDS if rng.random() < .7 else ODD)
    elif r < .64:
        g = gap(rng, q)
        q[g:g] = [" ", rng.choice(rng.choice([MARKS, WORDS, ODD, words, MARKS])), " "]
    elif r < .7:                                      # join or part words
        k = [j for j, t in enumerate(q) if blank(t)]
        if k:
            del q[rng.choice(k)]
    elif r < .76:
        g = gap(rng, q)
        q[g:g] = [rng.choice(["\n", " "])]
    elif r < .84:                                     # characters
        s = q[i]
        p = rng.randint(0, len(s))
        q[i] = rng.choice([s[:p] + s[p + 1:], s[:p] + rng.choice("ab_1-.$/*:{}()`';,~\"#^!&|= \t\n\r@") + s[p:]])
    elif r < .88:                                     # a span again, or gone
        j = min(len(q), i + rng.choice([2, 3, 5, 10, 30]))
        if rng.random() < .5:
            del q[i:j]
        else:
            g = gap(rng, q)
            q[g:g] = q[i:j]
    elif r < .92:                                     # the end
        del q[i:]
    elif r < .96:
        g = gap(rng, q)
        q[g:g] = split(rng.choice(STMTS) + "\n")
    else:
        q += split(rng.choice(["\n", ""]) + rng.choice(STMTS + COMMENTS) + rng.choice(["\n", ""]))


def change(rng, text, gentle=None, edits=(1, 1, 1, 2, 2, 3, 5)):
    q = split(text)
    words = sorted({t for t in q if re.match(r"[A-Za-z$]\w*$", t) and t not in WORDS}) or ["x"]
    g = rng.random() < .5 if gentle is None else gentle
    for _ in range(rng.choice(edits)):
        edit(rng, q, words, g if rng.random() < .85 else not g)
    text = "".join(q)
    if rng.random() < .06:
        text = text.rstrip("\n")
    if rng.random() < .03:
        text = text.replace("\n", "\r\n")
    return text


SUSPECT = re.compile(r"[CSWEF]-\d{4}|[CSWEF]-\d{1,2}(?!\d)")


def allowed(text):
    """Without disable comments for what is no check: their meaning is left open."""
    return "\0" not in text and not any(SUSPECT.search(l) for l in text.split("\n") if "#selint-disable:" in l)


def texts(rng, c, which=("te", "if"), share=.5, gentle=None, edits=(1, 1, 1, 2, 2, 3, 5)):
    """Change some policy files of a finished case (at least one, if there is one)."""
    docs = [f for f in c["files"] if f["kind"] in which]
    if "sup" in which:
        docs += [s for s in c["sups"] if "defs" in s]
    picked = [d for d in docs if rng.random() < share] or ([rng.choice(docs)] if docs else [])
    for d in picked:
        t = change(rng, d["text"], gentle, edits)
        if allowed(t):
            d["text"] = t
            d["mut"] = True
    return c
