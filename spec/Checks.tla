------------------------------- MODULE Checks --------------------------------
(* The checks on te and if files, one operator per check id (C-001, S-009 and *)
(* S-010 are in Ordering and PermMacro).  x is the context of a file:         *)
(*   x.kind "te" or "if", x.base file name, x.mod module, x.nodes the tree    *)
(*   sym    symbol tables after parsing; sup loaded support definitions       *)
(*   cfg    configuration values                                              *)
(* A check yields <<>> or a sequence with one finding: the words its message  *)
(* must contain, in order.                                                    *)
EXTENDS Symbols

None == <<>>
Hit(words) == << words >>

(***************************** C: conventions ********************************)
C004(N, i) ==   \* interface not directly preceded by a comment
  IF N[i].pv # 0 /\ N[N[i].pv].k = "COMMENT" THEN None ELSE Hit(<<N[i].name>>)

PermWord(n) == CASE n.k = "AV" -> "av" [] n.k = "XAV" -> "xav" [] OTHER -> "class"
PermList(n) == IF n.k = "DECL" THEN n.attrs ELSE n.perms
C005(n) ==      \* neighbouring permissions out of order or equal
  IF n.k = "DECL" /\ n.fl # "class" THEN None
  ELSE LET q == PermList(n)
           bad == { j \in 1..(Len(q) - 1) :
                      q[j] # "~" /\ q[j + 1] # "-" /\ StrCmp(q[j], q[j + 1]) >= 0 }
       IN IF bad = {} THEN None
          ELSE LET j == Min(bad)
               IN IF q[j] = q[j + 1] THEN Hit(<<PermWord(n), "repeated", q[j]>>)
                  ELSE Hit(<<PermWord(n), "not", "ordered", q[j], "before", q[j + 1]>>)

\* Required declarations: kinds in the configured order, then names, where a
\* final _t counts as absent.
FlavorCmp(a, b, order) ==
  IF a = b THEN 0
  ELSE LET ia == FirstIdx(Len(order), LAMBDA j : order[j] = a)
           ib == FirstIdx(Len(order), LAMBDA j : order[j] = b)
       IN IF ia = 0 /\ ib = 0 THEN 0
          ELSE IF ib = 0 THEN -1 ELSE IF ia = 0 THEN 1
          ELSE IF ia < ib THEN -1 ELSE 1
RECURSIVE CommonLen(_, _, _)
CommonLen(a, b, i) ==
  IF i <= Len(a) /\ i <= Len(b) /\ Ch(a, i) = Ch(b, i) THEN CommonLen(a, b, i + 1) ELSE i - 1
\* The character of s that is compared after a common prefix of length m: the
\* underscore when what is left is the t of a final _t.
CmpOrd(s, m) ==
  IF m + 1 > Len(s) THEN 0
  ELSE IF m + 1 = Len(s) /\ Ch(s, m + 1) = "t" /\ m >= 1 /\ Ch(s, m) = "_" THEN Ord("_")
  ELSE Ord(Ch(s, m + 1))
NameCmp(a, b) == LET m == CommonLen(a, b, 1) IN CmpOrd(a, m) - CmpOrd(b, m)
DeclCmp(d, e, cfg) ==
  LET r == FlavorCmp(d.fl, e.fl, cfg.oreq)
  IN IF r # 0 THEN r ELSE IF ~cfg.same THEN -1 ELSE NameCmp(d.name, e.name)
C006(N, i, cfg) ==
  LET kids == Tail(Children(N, i))
      decls == Filter(kids, LAMBDA j : N[j].k = "DECL")
      bad == { j \in 1..(Len(decls) - 1) : DeclCmp(N[decls[j]], N[decls[j + 1]], cfg) >= 0 }
  IN IF kids = <<>> THEN Hit(<<"Empty">>)
     ELSE IF bad = {} THEN None
     ELSE LET j == Min(bad)
              d == N[decls[j]]
              e == N[decls[j + 1]]
          IN IF DeclCmp(d, e, cfg) > 0
             THEN Hit(<<"Unordered">> \o FlavorWords(d.fl) \o <<d.name, "before">> \o FlavorWords(e.fl) \o <<e.name>>)
             ELSE Hit(<<"Repeated">> \o FlavorWords(e.fl) \o <<e.name>>)

C007(n, sym) == \* one type on itself instead of self
  LET s == n.src[1]
  IN IF Len(n.src) > 1 \/ Len(n.tgt) > 1 \/ n.tgt[1] = "self" \/ s # n.tgt[1] THEN None
     ELSE IF First(s) = "$" THEN (IF EndsWith(s, "_t") THEN Hit(<<"self">>) ELSE None)
     ELSE IF Known(sym, s, "type") THEN Hit(<<"self">>) ELSE None

(******************************** S: style ***********************************)
S001(x, N, i) ==
  IF x.kind = "te" /\ \E j \in Range(Children(N, i)) : N[j].k = "DECL" /\ N[j].fl \notin {"class", "perm"}
  THEN Hit(<<"Require">>) ELSE None
S003 == Hit(<<"semicolon">>)
S004(x, N, i, sym) ==
  LET d == EnclosingDef(N, N[i].p)
  IN IF x.kind = "if" /\ d # 0 /\ N[d].k = "INTERFACE" /\ IsTemplate(sym, N[i].name)
     THEN Hit(<<"interface", N[d].name, "calls", "template", N[i].name>>) ELSE None
RECURSIVE DeclPlace(_, _)   \* what is met first going up: "req", "if", "tmpl" or "top"
DeclPlace(N, i) == IF i = 0 THEN "top"
  ELSE CASE IsReq(N[i]) -> "req" [] N[i].k = "INTERFACE" -> "if" [] N[i].k = "TEMPLATE" -> "tmpl"
         [] OTHER -> DeclPlace(N, N[i].p)
S005(x, N, i) ==
  IF x.kind = "if" /\ DeclPlace(N, N[i].p) = "if" THEN Hit(<<N[i].name>>) ELSE None
S006(n) == IF n.bare THEN Hit(<<"Bare">>) ELSE None
S008(n) == IF n.unq THEN Hit(<<"unquoted">>) ELSE None

(****************************** W: warnings **********************************)
\* W-001: a require block that stands before node i in its block or in an
\* enclosing block lists the name with that kind.
RECURSIVE PrecedingSiblings(_, _)
PrecedingSiblings(N, i) == IF N[i].pv = 0 THEN {} ELSE {N[i].pv} \cup PrecedingSiblings(N, N[i].pv)
Visible(N, i) ==
  PrecedingSiblings(N, i) \cup {i} \cup
  UNION { PrecedingSiblings(N, a) \cup {a} : a \in Range(Ancestors(N, i)) }
ListsName(N, r, name, fl) ==
  \E j \in Range(Children(N, r)) :
     N[j].k = "DECL" /\ N[j].fl = fl /\ (N[j].name = name \/ InSeq(name, N[j].attrs))
Required(N, i, name, fl) == \E r \in Visible(N, i) : IsReq(N[r]) /\ ListsName(N, r, name, fl)
KindOf(sym, name, kinds) ==
  LET j == FirstIdx(Len(kinds), LAMBDA q : Known(sym, name, kinds[q]))
  IN IF j = 0 THEN "" ELSE kinds[j]
W001(x, N, i, sym) ==
  IF x.kind # "te" THEN None
  ELSE LET used == UsedNames(N[i])
           Bad(nm) == LET fl == KindOf(sym, nm, <<"type", "attribute", "attribute_role">>)
                      IN fl # "" /\ Owner(sym, nm, fl) # x.mod /\ ~Required(N, i, nm, fl)
           j == FirstIdx(Len(used), LAMBDA q : Bad(used[q]))
       IN IF j = 0 THEN None
          ELSE LET fl == KindOf(sym, used[j], <<"type", "attribute", "attribute_role">>)
               IN Hit(<<used[j], "from", "module", Owner(sym, used[j], fl)>>)

\* W-002: names required anywhere earlier in the interface.
NamesRequired(N, r) == UNION { Range(Names(N[j])) : j \in Range(Children(N, r)) }
W002(x, N, i, sym) ==
  LET d == EnclosingDef(N, i)
  IN IF x.kind # "if" \/ d = 0 THEN None
     ELSE LET req == UNION { NamesRequired(N, r) : r \in { q \in (d + 1)..(i - 1) : IsReq(N[q]) } }
              used == UsedNames(N[i])
              kinds == <<"type", "attribute", "attribute_role", "role">>
              j == FirstIdx(Len(used), LAMBDA q :
                     used[q] # "system_r" /\ used[q] \notin req /\ KindOf(sym, used[q], kinds) # "")
          IN IF j = 0 THEN None
             ELSE LET fl == KindOf(sym, used[j], kinds)
                      w == CASE fl = "type" -> <<"Type">> [] fl = "attribute" -> <<"Attribute">>
                             [] fl = "attribute_role" -> <<"Role", "Attribute">> [] OTHER -> <<"Role">>
                  IN Hit(w \o <<used[j], "used", "not", "required">>)

\* W-003: a required name that nothing after the require block uses.
RECURSIVE OutermostReq(_, _, _)
OutermostReq(N, i, acc) ==
  IF i = 0 \/ IsDef(N[i]) THEN acc ELSE OutermostReq(N, N[i].p, IF IsReq(N[i]) THEN i ELSE acc)
W003(x, N, i) ==
  LET n == N[i]
      d == EnclosingDef(N, i)
      r == OutermostReq(N, i, 0)
  IN IF x.kind # "if" \/ n.fl \notin {"type", "attribute", "attribute_role", "role"} \/ d = 0 \/ r = 0 THEN None
     ELSE IF N[d].k = "INTERFACE" /\ EndsWith(N[d].name, "_stub") THEN None
     ELSE LET after == IF N[r].nx = 0 THEN {}
                       ELSE LET sib == Siblings(N, N[r].nx)
                            IN sib[1]..LastDesc(N, sib[Len(sib)])
              used == UNION { Range(Names(N[j])) : j \in after }
              nm == Names(n)
              j == FirstIdx(Len(nm), LAMBDA q : nm[q] \notin used)
              w == CASE n.fl = "type" -> <<"Type">> [] n.fl = "attribute" -> <<"Attribute">>
                     [] n.fl = "attribute_role" -> <<"Role", "Attribute">> [] OTHER -> <<"Role">>
          IN IF j = 0 THEN None ELSE Hit(w \o <<nm[j], "require", "not", "used">>)

W005(x, N, i, sym, sup) ==
  LET m == IfOwner(sym, N[i].name)
  IN IF m = "" \/ m = x.mod \/ m \notin DOMAIN sup.mods \/ sup.mods[m] = "base" THEN None
     ELSE IF \E a \in Range(Ancestors(N, i)) : N[a].k = "OPTIONAL" THEN None
     ELSE Hit(<<"interface", N[i].name, "module", m>>)
W006(n) == IF n.args = <<>> THEN Hit(<<n.name>>) ELSE None

\* W-007: sp[j] marks an argument word that follows the previous word without
\* a comma; the number reported counts the comma separated arguments.
W007(n, sym) ==
  LET a == n.args
      bad == { j \in 2..Len(a) : n.sp[j] /\
                 (First(a[j]) # "-" \/ \E fl \in {"type", "attribute", "role", "attribute_role", "user"} : Known(sym, a[j - 1], fl)) }
  IN IF bad = {} THEN None
     ELSE LET j == Min(bad)
              no == Cardinality({ q \in 1..(j - 1) : ~n.sp[q] })
          IN Hit(<<NatStr(no), a[j - 1], "interface", n.name>>)

W008(n) == IF n.av = "allow" /\ \E j \in 1..Len(n.perms) : n.perms[j] \in {"*", "~"} THEN Hit(<<"Allow">>) ELSE None

\* The file name without its last suffix must be the module name.
W009(x, n) ==
  LET d == LastIndex(x.base, ".")
      stem == IF d = 0 THEN x.base ELSE SubSeq(x.base, 1, d - 1)
  IN IF n.name = stem THEN None ELSE Hit(<<n.name, x.base>>)

Abbrev ==
  [fs |-> "filesystem", corecmd |-> "corecommands", seutil |-> "selinuxutil", libs |-> "libraries",
   dev |-> "devices", term |-> "terminal", corenet |-> "corenetwork", auth |-> "authlogin",
   userdom |-> "userdomain", sysnet |-> "sysnetwork"]
PrefixNamesModule(name, sup) ==
  \E j \in { q \in 1..Len(name) : Ch(name, q) = "_" } :
    LET p == SubSeq(name, 1, j - 1)
    IN p \in DOMAIN sup.mods \/ (p \in DOMAIN Abbrev /\ Abbrev[p] \in DOMAIN sup.mods)
W010(n, sym, sup) ==
  IF n.name \in {"domain_auto_transition_pattern", "domain_transition_pattern"} THEN None
  ELSE IF PrefixNamesModule(n.name, sup) /\ n.name \notin DOMAIN sym.ifs THEN Hit(<<n.name>>) ELSE None

W011(x, N, i, sym) ==
  LET n == N[i]
      m == Owner(sym, n.name, n.fl)
  IN IF x.kind # "if" \/ n.fl \in {"class", "perm", "user"} \/ First(n.name) = "$" \/ ~InRequire(N, i) THEN None
     ELSE IF m = "" THEN Hit(FlavorWords(n.fl) \o <<n.name, "not", "found", "any", "module">>)
     ELSE IF m = x.mod \/ (n.fl = "role" /\ m = "kernel") THEN None
     ELSE Hit(FlavorWords(n.fl) \o <<n.name, "not", "own", "module", m>>)

(******************************* E: errors ***********************************)
E006(n, sym) == IF n.name \in DOMAIN sym.ifs THEN Hit(<<n.name>>) ELSE None

PermKnown(s, sym, sup) ==
  \/ s \in {"*", "~"}
  \/ StartsWith(s, "all_") /\ EndsWith(s, "_perms")
  \/ Known(sym, s, "perm")
  \/ s \in DOMAIN sup.macros
E007(n, sym, sup) ==
  LET j == FirstIdx(Len(n.perms), LAMBDA q : ~PermKnown(n.perms[q], sym, sup))
  IN IF j = 0 THEN None ELSE Hit(<<n.perms[j]>>)

ClassKnown(s, sym) ==
  \/ (Len(s) >= 2 /\ First(s) = "$" /\ Ch(s, 2) \in Digits)
  \/ EndsWith(s, "_class_set")
  \/ Known(sym, s, "class")
E008(n, sym) ==
  LET j == FirstIdx(Len(n.cls), LAMBDA q : ~ClassKnown(n.cls[q], sym))
  IN IF j = 0 THEN None ELSE Hit(<<n.cls[j]>>)

E009(N, i) ==
  IF \A j \in Range(Children(N, i)) : N[j].k \in {"START", "COMMENT", "SEMICOLON"} THEN Hit(<<"Empty">>) ELSE None

\* A stray word; a word alone in the 1st or 2nd place of a comparison triple of
\* an ifelse (but not in its last argument) is an operand.
RECURSIVE IfelseArg(_, _)
IfelseArg(N, i) ==
  IF i = 0 \/ N[i].p = 0 THEN 0
  ELSE IF N[i].k = "M4ARG" /\ N[N[i].p].k = "IFELSE" THEN i ELSE IfelseArg(N, N[i].p)
E010(N, i, cfg) ==
  LET a == IfelseArg(N, i)
      pos == IF a = 0 THEN 0 ELSE Cardinality(PrecedingSiblings(N, a)) % 3
  IN IF InSeq(N[i].name, cfg.tem) THEN None
     ELSE IF a # 0 /\ N[a].nx # 0 /\ pos \in {1, 2} THEN None
     ELSE Hit(<<N[i].name>>)
=============================================================================
