------------------------------ MODULE Ordering -------------------------------
(* C-001: order of the statements of a te file.                               *)
(* The order of two statements is a number: positive, they may stand in this  *)
(* order; 0, any order will do; negative, the second belongs before the first.*)
(* Its absolute value is the reason.                                          *)
EXTENDS PermMacro

NonOrd == "_non_ordered"
DeclSec == "_declaration"
R_SECTION == 1  R_DECL == 2  R_LOCAL == 3  R_ALPHA == 4

Conditionals == {"OPTIONAL", "OPTELSE", "BOOLEAN", "TUNABLE", "IFDEF", "IFELSE"}
\* The outermost conditional block at or above i decides its class.
RECURSIVE OutermostCond(_, _, _)
OutermostCond(N, i, acc) ==
  IF i = 0 THEN acc ELSE OutermostCond(N, N[i].p, IF N[i].k \in Conditionals THEN N[i].k ELSE acc)
Cond(N, i) == OutermostCond(N, i, "")

RECURSIVE Section(_, _, _)
Section(N, i, sym) ==
  LET n == N[i]
  IN CASE n.k \in {"AV", "XAV"} ->
            IF n.av \in {"neverallow", "auditallow"} \/ InSeq("associate", n.perms) \/ InSeq("mounton", n.perms)
            THEN NonOrd ELSE n.src[1]
       [] n.k = "TT" -> n.src[1]
       [] n.k \in {"DECL", "ALIAS", "TYPEALIAS", "TATTR", "RATTR"} ->
            IF InRequire(N, i) THEN NonOrd ELSE DeclSec
       [] n.k \in Conditionals -> IF n.ch = 0 THEN NonOrd ELSE Section(N, n.ch, sym)
       [] n.k = "START" -> IF n.nx # 0 THEN Section(N, n.nx, sym) ELSE NonOrd
       [] n.k = "CALL" ->
            IF n.name \in sym.filetrans THEN NonOrd
            ELSE IF Cond(N, i) = "" /\ (IsTemplate(sym, n.name) \/ n.name \in sym.transform \/ n.name \in sym.roleif)
                 THEN DeclSec
            ELSE IF n.args # <<>> THEN n.args[1] ELSE NonOrd
       [] OTHER -> NonOrd

\* The statements that take part: all nodes without a disabled C-001.
Parts(N) == Filter([i \in 1..Len(N) |-> i], LAMBDA i : i = 1 \/ ~InSeq("C-001", N[i].ex))

(* sec: section of every node; avg: section -> <<sum, count>> of its lines    *)
RECURSIVE SumLines(_, _)
SumLines(N, q) == IF q = <<>> THEN 0 ELSE N[Head(q)].ln + SumLines(N, Tail(q))
AvgGreater(a, b) == a[1] * b[2] > b[1] * a[2]

SelfRule(n) == n.k \in {"AV", "XAV"} /\ n.tgt[1] = "self"
OwnRule(n, sym, mod) ==
  /\ n.k \in {"AV", "XAV", "CALL"}
  /\ n.k = "CALL" => n.name \notin DOMAIN sym.ifs
  /\ LET nm == Names(n)
     IN \A j \in 1..Len(nm) :
          LET o == IF Known(sym, nm[j], "type") THEN Owner(sym, nm[j], "type") ELSE Owner(sym, nm[j], "attribute")
          IN o = "" \/ o = mod
ModPrefix(m) == LET j == Index(m, "_") IN IF j = 0 THEN m ELSE SubSeq(m, 1, j - 1)
LayerIs(m, sup, l) == m \in DOMAIN sup.layers /\ sup.layers[m] = l

\* Local subsection of node i.
Lss(N, i, sym, sup, mod, variant) ==
  LET n == N[i]
      c == Cond(N, i)
      o == IF n.k = "CALL" THEN IfOwner(sym, n.name) ELSE ""
  IN CASE c \in {"IFDEF", "IFELSE"} -> "BUILD"
       [] c \in {"OPTIONAL", "OPTELSE"} -> "OPTIONAL"
       [] c = "BOOLEAN" -> "BOOLEAN"
       [] c = "TUNABLE" -> "TUNABLE"
       [] OTHER ->
            IF SelfRule(n) THEN "SELF"
            ELSE IF OwnRule(n, sym, mod) THEN "OWN"
            ELSE IF o # "" /\ o = mod THEN "OWN"
            ELSE IF variant # "refpolicy" /\ o # "" /\ ModPrefix(o) = ModPrefix(mod) THEN "RELATED"
            ELSE IF o = "kernel" THEN "KERNEL_MOD"
            ELSE IF variant # "refpolicy-light" /\ o # "" /\ LayerIs(o, sup, "kernel") THEN "KERNEL"
            ELSE IF variant # "refpolicy-light" /\ o # "" /\ LayerIs(o, sup, "system") THEN "SYSTEM"
            ELSE IF n.k = "CALL" THEN "OTHER" ELSE "UNKNOWN"

LssRank(variant) ==
  CASE variant = "refpolicy" -> <<"SELF", "OWN", "KERNEL_MOD", "KERNEL", "SYSTEM", "OTHER", "BUILD", "BOOLEAN", "TUNABLE", "OPTIONAL">>
    [] variant = "refpolicy-light" -> <<"SELF", "OWN", "RELATED", "KERNEL_MOD", "OTHER", "BUILD", "BOOLEAN", "TUNABLE", "OPTIONAL">>
    [] OTHER -> <<"SELF", "OWN">>

StripDomain(s) == IF Len(s) >= 3 /\ (EndsWith(s, "_t") \/ EndsWith(s, "_r")) THEN SubSeq(s, 1, Len(s) - 2) ELSE s
\* The longer of the two stems must be a common prefix of both full names.
SameSection(a, b) ==
  LET l == Max({Len(StripDomain(a)), Len(StripDomain(b))})
      Cut(s) == SubSeq(s, 1, Min({l, Len(s)}))
  IN Cut(a) = Cut(b)

(* o is the ordering context of a file:                                       *)
(* [N, sec, lss, avg, sym, variant]                                           *)
RECURSIVE Compare(_, _, _)
Compare(o, a, b) ==
  LET N == o.N
      sa == o.sec[a]
      sb == o.sec[b]
      la == o.lss[a]
      lb == o.lss[b]
      both == la = "OPTIONAL" /\ lb = "OPTIONAL"
      ra == FirstIdx(Len(LssRank(o.variant)), LAMBDA q : LssRank(o.variant)[q] = la)
      rb == FirstIdx(Len(LssRank(o.variant)), LAMBDA q : LssRank(o.variant)[q] = lb)
      ma == IF N[a].k = "CALL" THEN IfOwner(o.sym, N[a].name) ELSE ""
      mb == IF N[b].k = "CALL" THEN IfOwner(o.sym, N[b].name) ELSE ""
      alphaApplies == /\ la \notin {"BUILD", "BOOLEAN", "TUNABLE"}
                      /\ \/ la # "OPTIONAL"
                         \/ both /\ N[N[a].pv].k = "START" /\ N[N[b].pv].k = "START"
                      /\ ma # "" /\ mb # "" /\ ma # mb
      fa == IF N[a].ch = 0 THEN 0 ELSE N[N[a].ch].nx
      fb == IF N[b].ch = 0 THEN 0 ELSE N[N[b].ch].nx
  IN IF sa = NonOrd \/ sb = NonOrd THEN 0
     ELSE IF ~SameSection(sa, sb) THEN
       IF /\ sa # DeclSec
          /\ (sb = DeclSec \/ AvgGreater(o.avg[sa], o.avg[sb]))
          /\ ~(First(sa) # "_" /\ First(sb) # "_" /\ StrCmp(sa, sb) < 0)
       THEN -R_SECTION ELSE R_SECTION
     ELSE IF sa = DeclSec THEN
       IF N[a].k = "DECL" /\ N[b].k = "DECL" /\ N[a].fl # N[b].fl THEN
         CASE N[a].fl = "bool" -> R_DECL [] N[b].fl = "bool" -> -R_DECL
           [] N[a].fl = "attribute" -> R_DECL [] N[b].fl = "attribute" -> -R_DECL
           [] OTHER -> 0
       ELSE 0
     ELSE IF la = "UNKNOWN" \/ lb = "UNKNOWN" THEN 0
     ELSE IF la # lb /\ (ra # 0 \/ rb # 0) THEN
       IF rb = 0 \/ (ra # 0 /\ ra < rb) THEN R_LOCAL ELSE -R_LOCAL
     ELSE IF o.variant = "refpolicy-lax" THEN 0
     ELSE IF alphaApplies THEN (IF StrCmp(ma, mb) < 0 THEN R_ALPHA ELSE -R_ALPHA)
     ELSE IF both /\ fa # 0 /\ fb # 0 THEN Compare(o, fa, fb)
     ELSE 0

OrderCtx(x, sym, sup, variant) ==
  LET N == x.nodes
      sec == TLCEval([ i \in 1..Len(N) |-> Section(N, i, sym) ])
      parts == Parts(N)
      secs == { sec[parts[j]] : j \in 1..Len(parts) }
      avg == [ s \in { sec[i] : i \in 1..Len(N) } |->
                 LET q == Filter(parts, LAMBDA i : sec[i] = s)
                 IN IF q = <<>> THEN <<0, 1>> ELSE <<SumLines(N, q), Len(q)>> ]
  IN [N |-> N, sec |-> sec, avg |-> TLCEval(avg), sym |-> sym, variant |-> variant,
      lss |-> TLCEval([ i \in 1..Len(N) |-> Lss(N, i, sym, sup, x.mod, variant) ])]

(* Longest ordered run by patience sorting.  Q: the nodes in file order;      *)
(* ends[l]: position of the smallest end of a run of length l; prev links.    *)
Patience(n, Leq(_, _)) ==
  LET RECURSIVE Place(_, _, _, _)
      Place(ends, i, lo, hi) ==
        IF lo > hi THEN lo
        ELSE LET mid == (lo + hi + 1) \div 2
             IN IF Leq(ends[mid], i) THEN Place(ends, i, mid + 1, hi) ELSE Place(ends, i, lo, mid - 1)
      RECURSIVE Step(_, _, _)
      Step(i, ends, prev) ==
        IF i > n THEN [ends |-> ends, prev |-> prev]
        ELSE LET l == Place(ends, i, 1, Len(ends))
             IN Step(i + 1,
                     TLCEval(IF l > Len(ends) THEN Append(ends, i) ELSE [ends EXCEPT ![l] = i]),
                     TLCEval(Append(prev, IF l = 1 THEN 0 ELSE ends[l - 1])))
  IN Step(1, <<>>, <<>>)
RECURSIVE Chain(_, _)
Chain(prev, i) == IF i = 0 THEN {} ELSE {i} \cup Chain(prev, prev[i])
\* Positions 1..n of the run that is kept.
Run(n, Leq(_, _)) ==
  IF n = 0 THEN {}
  ELSE LET r == Patience(n, Leq) IN Chain(r.prev, r.ends[Len(r.ends)])

LssWords(l) ==
  CASE l = "SELF" -> <<"self", "rule">> [] l = "OWN" -> <<"own", "module", "rule">>
    [] l = "RELATED" -> <<"related", "module", "interface">>
    [] l = "KERNEL_MOD" -> <<"kernel", "module", "interface">>
    [] l = "KERNEL" -> <<"kernel", "layer", "interface">>
    [] l = "SYSTEM" -> <<"system", "layer", "interface">>
    [] l = "OTHER" -> <<"general", "interface">>
    [] l = "BUILD" -> <<"build", "option">>
    [] l = "BOOLEAN" -> <<"boolean", "policy", "block">>
    [] l = "TUNABLE" -> <<"tunable", "policy", "block">>
    [] l = "OPTIONAL" -> <<"optional", "policy", "block">>
    [] OTHER -> <<"unknown", "subsection">>

(* The nearest statement of the run that conflicts with position i; earlier   *)
(* ones first at the same distance.  The first statement of a file (its       *)
(* header, or a comment) is never one.  0: none.                              *)
Nearest(o, Q, inRun, i) ==
  LET Conf(j) == IF j < i THEN Compare(o, Q[j], Q[i]) < 0 ELSE Compare(o, Q[i], Q[j]) < 0
      cands == { j \in (2..Len(Q)) \ {i} : j \in inRun /\ Conf(j) }
      Dist(j) == IF j < i THEN i - j ELSE j - i
  IN IF cands = {} THEN 0
     ELSE CHOOSE j \in cands : \A q \in cands : Dist(j) < Dist(q) \/ (Dist(j) = Dist(q) /\ j <= q)

ReasonWords(o, a, b, r) ==
  CASE r = R_SECTION ->
         IF o.sec[a] = DeclSec THEN <<"not", "a", "declaration">>
         ELSE IF o.sec[b] = DeclSec THEN
           (IF o.N[b].k = "CALL" /\ o.N[b].name \in o.sym.transform THEN <<"transform", "interface">> ELSE <<"declaration">>)
         ELSE <<"different", "section">>
    [] r = R_DECL -> <<"different", "sort">>
    [] r = R_ALPHA -> <<"alphabetically">>
    [] r = R_LOCAL ->
         CASE o.lss[b] = "SELF" -> <<"self", "rule">>
           [] o.lss[b] = "OWN" -> <<"owned", "by", "this", "module">>
           [] o.lss[b] = "RELATED" -> <<"related", "module">>
           [] o.lss[b] = "KERNEL_MOD" -> <<"kernel", "module">>
           [] o.lss[b] = "KERNEL" -> <<"kernel", "layer">>
           [] o.lss[b] = "SYSTEM" -> <<"system", "layer">>
           [] o.lss[b] = "OTHER" -> IF o.variant = "refpolicy" THEN <<"not", "located">> ELSE <<"non-optional">>
           [] o.lss[b] = "BUILD" -> <<"build", "option">>
           [] o.lss[b] = "BOOLEAN" -> <<"boolean", "block">>
           [] o.lss[b] = "TUNABLE" -> <<"tunable", "block">>
           [] OTHER -> <<"optional", "block">>
    [] OTHER -> <<>>

C001Nodes == {"DECL", "AV", "XAV", "CALL", "TT"}
\* All C-001 findings of a te file: sequence of [ln, id, w].
OrderFindings(x, sym, sup, variant) ==
  LET N == x.nodes
      o == OrderCtx(x, sym, sup, variant)
      Q == TLCEval(Filter(Parts(N), LAMBDA i : N[i].k # "START"))
      Leq(a, b) == Compare(o, Q[a], Q[b]) >= 0
      inRun == TLCEval(Run(Len(Q), Leq))
      out == Filter([j \in 1..Len(Q) |-> j], LAMBDA j : j \notin inRun /\ N[Q[j]].k \in C001Nodes)
  IN IF N = <<>> THEN <<>> ELSE
     [ q \in 1..Len(out) |->
         LET j == out[q]
             b == Nearest(o, Q, inRun, j)
         IN IF b = 0 THEN [ln |-> N[Q[j]].ln, id |-> "F-002", w |-> <<>>, cnt |-> "C-001"]
            ELSE LET r == IF b < j THEN -Compare(o, Q[b], Q[j]) ELSE -Compare(o, Q[j], Q[b])
                 IN [ln |-> N[Q[j]].ln, id |-> "C-001", cnt |-> "C-001",
                     w |-> <<"type">> \o LssWords(o.lss[Q[j]]) \o <<IF b > j THEN "before" ELSE "after", "line", NatStr(N[Q[b]].ln)>>
                           \o ReasonWords(o, Q[j], Q[b], r)] ]
=============================================================================
