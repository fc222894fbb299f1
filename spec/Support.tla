------------------------------- MODULE Support --------------------------------
(* The support files of source mode: modules.conf, obj_perm_sets.spt and      *)
(* access_vectors.                                                            *)
EXTENDS Discovery

(* modules.conf, from its lines (without line ends; nl: the line had one).    *)
SpaceChars == {" ", "\t", "\n", "\r"}
RECURSIVE SkipSpace(_, _), WordEnd(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ Ch(s, i) \in SpaceChars THEN SkipSpace(s, i + 1) ELSE i
WordEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \notin SpaceChars THEN WordEnd(s, i + 1) ELSE i
\* The first word of s, empty if none.
Word(s) == LET b == SkipSpace(s, 1) IN SubSeq(s, b, WordEnd(s, b) - 1)
\* [st |-> "skip"], [st |-> "bad"] or [st, name, status, more]; more: junk follows.
ModsLine(raw, nl) ==
  LET b == SkipSpace(raw, 1)
      parts == Split(IF nl THEN raw \o "\n" ELSE raw, "=")
  IN IF b > Len(raw) \/ Ch(raw, b) = "#" THEN [st |-> "skip"]
     ELSE IF Len(parts) < 2 THEN [st |-> "bad"]
     ELSE [st |-> "mod", name |-> Word(parts[1]), status |-> Word(parts[2]), more |-> Len(parts) > 2]
RECURSIVE LoadMods(_, _, _)
LoadMods(acc, lines, i) ==
  IF i > Len(lines) THEN [ok |-> TRUE, mods |-> acc]
  ELSE LET r == ModsLine(lines[i].s, lines[i].nl)
           new == IF r.st = "mod" /\ r.name \notin DOMAIN acc THEN acc @@ (r.name :> r.status) ELSE acc
       IN IF r.st = "skip" THEN LoadMods(acc, lines, i + 1)
          ELSE IF r.st = "bad" THEN [ok |-> FALSE, mods |-> acc]
          ELSE IF r.more THEN [ok |-> FALSE, mods |-> new]
          ELSE LoadMods(new, lines, i + 1)

(* access_vectors: definitions [cls (empty for a common), perms]; badat: the  *)
(* definitions before that one are read, then comes a syntax error (0: none). *)
Upto(defs, badat) == IF badat = 0 THEN Len(defs) ELSE badat - 1
LoadAv(sym, f) ==
  LET n == Upto(f.defs, f.badat)
      cls == { f.defs[i].cls : i \in 1..n } \ {""}
      perms == UNION { Range(f.defs[i].perms) : i \in 1..n }
      keys == { <<"class", x>> : x \in cls } \cup { <<"perm", x>> : x \in perms }
  IN [sym EXCEPT !.decl = @ @@ [ d \in keys |-> "__av_file__" ]]

(* obj_perm_sets.spt: definitions [name, items, warn]; warn: deprecated.      *)
RECURSIVE LoadSpt(_, _, _, _)
LoadSpt(acc, defs, i, n) ==
  IF i > n THEN acc
  ELSE LET d == defs[i]
       IN IF d.warn \/ ~EndsWith(d.name, "_perms") \/ InSeq(d.name, acc.order) THEN LoadSpt(acc, defs, i + 1, n)
          ELSE LoadSpt([order |-> Append(acc.order, d.name), macros |-> acc.macros @@ (d.name :> d.items)], defs, i + 1, n)

(* Outside of source mode the classes and permissions are those of the kernel:  *)
(* a directory for each class, in it a file for each permission.              *)
RECURSIVE KernelKeys(_, _), KernelKids(_, _, _)
KernelKeys(tree, t) ==
  LET e == tree[t]
  IN IF e.dir THEN (IF e.name = "perms" THEN {} ELSE {<<"class", e.name>>}) \cup KernelKids(tree, e.kids, 1)
     ELSE IF e.name = "index" THEN {} ELSE {<<"perm", e.name>>}
KernelKids(tree, kids, i) ==
  IF i > Len(kids) THEN {} ELSE KernelKeys(tree, kids[i]) \cup KernelKids(tree, kids, i + 1)
LoadKernel(c, sym) ==
  LET keys == IF c.kern = 0 THEN {} ELSE KernelKids(c.tree, c.tree[c.kern].kids, 1)
  IN [sym |-> [sym EXCEPT !.decl = @ @@ [ d \in keys |-> "__kernel__" ]],
      warned |-> IF c.kern = 0 THEN {"kern-missing"} ELSE IF \E d \in keys : d[1] = "perm" THEN {} ELSE {"kern-failed"}]

NoSupport == [mods |-> EmptyFn, layers |-> EmptyFn, macros |-> EmptyFn, macroOrder |-> <<>>]
\* All support files of a run: [sym, sup, warned].
LoadSupport(c, d, o, sym) ==
  IF ~o.src THEN LET k == LoadKernel(c, sym)
                 IN [sym |-> k.sym, sup |-> [NoSupport EXCEPT !.layers = d.layers], warned |-> k.warned]
  ELSE LET F(t) == c.sups[c.tree[t].sid]
           m == IF d.mods = 0 THEN [ok |-> TRUE, mods |-> EmptyFn] ELSE LoadMods(EmptyFn, F(d.mods).lines, 1)
           s == IF d.spt = 0 THEN [order |-> <<>>, macros |-> EmptyFn]
                ELSE LoadSpt([order |-> <<>>, macros |-> EmptyFn], F(d.spt).defs, 1, Upto(F(d.spt).defs, F(d.spt).badat))
       IN [sym |-> IF d.av = 0 THEN sym ELSE LoadAv(sym, F(d.av)),
           sup |-> [mods |-> m.mods, layers |-> d.layers, macros |-> s.macros, macroOrder |-> s.order],
           warned |-> (IF d.av = 0 THEN {"av-missing"} ELSE IF F(d.av).badat # 0 THEN {"av-failed"} ELSE {})
                      \cup (IF d.mods = 0 THEN {"mods-missing"} ELSE IF ~m.ok THEN {"mods-failed"} ELSE {})
                      \cup (IF d.spt = 0 THEN {"spt-missing"} ELSE IF F(d.spt).badat # 0 THEN {"spt-failed"} ELSE {})]
=============================================================================
