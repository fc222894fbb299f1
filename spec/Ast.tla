--------------------------------- MODULE Ast ---------------------------------
(* The syntax tree of one te or if file.  A file is a record with a sequence  *)
(* nodes, in preorder, so that the depth-first walk of the checker is the     *)
(* walk 1..Len(nodes).  Structural fields of a node:                          *)
(*   p   index of the parent, 0 at top level                                  *)
(*   pv  previous sibling, nx next sibling, ch first child (0: none)          *)
(*   ln  line of the node, ex ids of the checks disabled for it               *)
(*   k   its kind, which determines the remaining fields.                     *)
(* Every block has a START child first.                                       *)
EXTENDS Strs

IsReq(n) == n.k \in {"REQUIRE", "GENREQ"}
IsDef(n) == n.k \in {"INTERFACE", "TEMPLATE"}

\* Ancestors of node i, nearest first.
RECURSIVE Ancestors(_, _)
Ancestors(N, i) == IF N[i].p = 0 THEN <<>> ELSE <<N[i].p>> \o Ancestors(N, N[i].p)

InRequire(N, i) == \E j \in Range(Ancestors(N, i)) : IsReq(N[j])

RECURSIVE EnclosingDef(_, _)   \* innermost interface or template holding i, 0 if none
EnclosingDef(N, i) == IF i = 0 THEN 0 ELSE IF IsDef(N[i]) THEN i ELSE EnclosingDef(N, N[i].p)

RECURSIVE TemplateOf(_, _)     \* innermost template strictly above i, 0 if none
TemplateOf(N, i) == LET q == N[i].p IN IF q = 0 THEN 0 ELSE IF N[q].k = "TEMPLATE" THEN q ELSE TemplateOf(N, q)

RECURSIVE Siblings(_, _)       \* i and its following siblings
Siblings(N, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Siblings(N, N[i].nx)
Children(N, i) == Siblings(N, N[i].ch)

RECURSIVE LastDesc(_, _)       \* last node of the subtree of i
LastDesc(N, i) == IF N[i].ch = 0 THEN i
                  ELSE LET kids == Children(N, i) IN LastDesc(N, kids[Len(kids)])

\* The linking of a tree is consistent (checked on every case).
WellFormed(N) ==
  \A i \in 1..Len(N) :
    /\ N[i].p < i
    /\ (N[i].pv # 0 => N[N[i].pv].nx = i /\ N[N[i].pv].p = N[i].p /\ N[i].pv < i)
    /\ (N[i].nx # 0 => N[N[i].nx].pv = i /\ N[N[i].nx].p = N[i].p)
    /\ (N[i].ch # 0 => N[i].ch = i + 1 /\ N[i + 1].p = i /\ N[i + 1].pv = 0)
    /\ (i > 1 => \/ N[i].p = i - 1
                 \/ N[i].pv # 0 /\ InSeq(N[i].pv, <<i - 1>> \o Ancestors(N, i - 1)))

Unminus(s) == IF First(s) = "-" THEN Drop(s, 1) ELSE s

\* The identifiers a statement names, in order.
RawNames(n) ==
  CASE n.k \in {"AV", "XAV"} -> n.src \o n.tgt
    [] n.k \in {"TT", "RT"} -> n.src \o n.tgt \o <<n.def>>
    [] n.k = "DECL" -> <<n.name>> \o n.attrs
    [] n.k = "CALL" -> n.args
    [] n.k = "RALLOW" -> n.from \o n.to
    [] n.k = "RTYPES" -> <<n.role>> \o n.types
    [] n.k \in {"TATTR", "RATTR"} -> <<n.type>> \o n.attrs
    [] n.k \in {"ALIAS", "TYPEALIAS", "PERMISSIVE"} -> <<n.str>>
    [] OTHER -> <<>>
Names(n) == LET r == RawNames(n) IN [ j \in 1..Len(r) |-> Unminus(r[j]) ]
\* Names that are used: a declaration does not use the name it declares.
UsedNames(n) == IF n.k = "DECL" THEN Tail(Names(n)) ELSE Names(n)

FlavorWord(fl) ==
  CASE fl = "attribute_role" -> "attribute role"
    [] fl = "perm" -> "permission"
    [] fl = "bool" -> "boolean"
    [] OTHER -> fl
FlavorWords(fl) == IF fl = "attribute_role" THEN <<"attribute", "role">> ELSE <<FlavorWord(fl)>>
=============================================================================
