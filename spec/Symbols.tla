------------------------------ MODULE Symbols -------------------------------
(* What parsing makes known: declarations, templates, interfaces and the      *)
(* marks on interfaces.  sym is a record                                      *)
(*   decl   <<flavor, name>> -> module of the first declaration               *)
(*   ifs    interface or template name -> module                              *)
(*   tmpl   template name -> [decls, calls]                                   *)
(*   transform, filetrans, roleif   sets of interface names                   *)
EXTENDS Ast

EmptyFn == [x \in {} |-> ""]
EmptySym == [decl |-> EmptyFn, ifs |-> EmptyFn, tmpl |-> EmptyFn,
             transform |-> {}, filetrans |-> {}, roleif |-> {}]

Owner(sym, name, fl) == IF <<fl, name>> \in DOMAIN sym.decl THEN sym.decl[<<fl, name>>] ELSE ""
Known(sym, name, fl) == <<fl, name>> \in DOMAIN sym.decl
IfOwner(sym, name) == IF name \in DOMAIN sym.ifs THEN sym.ifs[name] ELSE ""
IsTemplate(sym, name) == name \in DOMAIN sym.tmpl
CountOf(sym, fl) == Cardinality({ d \in DOMAIN sym.decl : d[1] = fl })

Declare(sym, fl, name, mod) ==
  IF <<fl, name>> \in DOMAIN sym.decl THEN sym
  ELSE [sym EXCEPT !.decl = @ @@ (<<fl, name>> :> mod)]

\* Substitute the positional parameters of s; [ok, s].
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE ToNat(_, _)
ToNat(s, acc) == IF s = "" THEN acc ELSE ToNat(Drop(s, 1), acc * 10 + DigitVal[Ch(s, 1)])
RECURSIVE Subst(_, _)
Subst(s, args) ==
  LET d == Index(s, "$")
  IN IF d = 0 THEN [ok |-> TRUE, s |-> s]
     ELSE LET e == DigitsEnd(s, d + 1)
          IN IF e = d + 1 THEN [ok |-> FALSE, s |-> ""]
             ELSE LET n == ToNat(SubSeq(s, d + 1, e - 1), 0)
                      m == IF n < 1 THEN 1 ELSE n
                      a == IF m <= Len(args) THEN args[m] ELSE ""
                      r == Subst(Drop(s, e - 1), args)
                  IN [ok |-> r.ok, s |-> SubSeq(s, 1, d - 1) \o a \o r.s]

\* Expansion of a template call: nested calls first, then the own declarations.
\* chain holds the templates being expanded; a repetition stops the expansion.
RECURSIVE Expand(_, _, _, _, _), ExpandCalls(_, _, _, _, _, _), ExpandDecls(_, _, _, _, _)
Expand(sym, name, args, chain, mod) ==
  IF name \in chain THEN [ok |-> FALSE, sym |-> sym]
  ELSE IF ~IsTemplate(sym, name) THEN [ok |-> TRUE, sym |-> sym]
  ELSE LET r == ExpandCalls(sym, sym.tmpl[name].calls, 1, args, chain \cup {name}, mod)
       IN IF ~r.ok THEN r ELSE ExpandDecls(r.sym, sym.tmpl[name].decls, 1, args, mod)
ExpandCalls(sym, calls, i, args, chain, mod) ==
  IF i > Len(calls) THEN [ok |-> TRUE, sym |-> sym]
  ELSE LET subs == [ j \in 1..Len(calls[i].args) |-> Subst(calls[i].args[j], args) ]
       IN IF \E j \in 1..Len(subs) : ~subs[j].ok THEN [ok |-> FALSE, sym |-> sym]
          ELSE LET r == Expand(sym, calls[i].name, [ j \in 1..Len(subs) |-> subs[j].s ], chain, mod)
               IN IF ~r.ok THEN r ELSE ExpandCalls(r.sym, calls, i + 1, args, chain, mod)
ExpandDecls(sym, decls, i, args, mod) ==
  IF i > Len(decls) THEN [ok |-> TRUE, sym |-> sym]
  ELSE LET x == Subst(decls[i].name, args)
       IN IF ~x.ok THEN [ok |-> FALSE, sym |-> sym]
          ELSE ExpandDecls(Declare(sym, decls[i].fl, x.s, mod), decls, i + 1, args, mod)

NewTemplate(sym, name) ==
  IF IsTemplate(sym, name) THEN sym
  ELSE [sym EXCEPT !.tmpl = @ @@ (name :> [decls |-> <<>>, calls |-> <<>>])]
NewInterface(sym, name, mod) ==
  IF name \in DOMAIN sym.ifs THEN sym ELSE [sym EXCEPT !.ifs = @ @@ (name :> mod)]

LastUnderscoreSuffix(s) == LET j == LastIndex(s, "_") IN IF j = 0 THEN "" ELSE Drop(s, j - 1)
FiletransName(s) == s \in {"filetrans_pattern", "filetrans_add_pattern"} \/ LastUnderscoreSuffix(s) = "_filetrans"
TransformSuffixes ==
  { "_type", "_file", "_domain", "_node", "_agent", "_delivery", "_sender", "_boolean", "_content", "_constrained", "_executable", "_exemption", "_object", "_mountpoint" }
TransformName(s) == LastUnderscoreSuffix(s) \in TransformSuffixes

\* Effect of node i of a file of module mod.
ParseNode(sym, N, i, mod) ==
  LET n == N[i]
      t == TemplateOf(N, i)
      par == IF n.p = 0 THEN "" ELSE N[n.p].k
      inIf == par = "INTERFACE"
      ifn == IF inIf THEN N[n.p].name ELSE ""
      TmplDecl(fl, nm) == [sym EXCEPT !.tmpl[N[t].name].decls = Append(@, [fl |-> fl, name |-> nm])]
  IN CASE n.k = "TEMPLATE" -> NewInterface(NewTemplate(sym, n.name), n.name, mod)
       [] n.k = "INTERFACE" -> NewInterface(sym, n.name, mod)
       [] n.k = "DECL" ->
            IF InRequire(N, i) THEN sym
            ELSE IF t # 0 THEN TmplDecl(n.fl, n.name)
            ELSE IF First(n.name) = "$" THEN sym
            ELSE Declare(sym, n.fl, n.name, mod)
       [] n.k = "ALIAS" ->
            IF t # 0 THEN TmplDecl("type", n.str) ELSE Declare(sym, "type", n.str, mod)
       [] n.k = "CALL" ->
            LET s1 == IF t # 0
                      THEN [sym EXCEPT !.tmpl[N[t].name].calls = Append(@, [name |-> n.name, args |-> n.args])]
                      ELSE Expand(sym, n.name, n.args, {}, mod).sym
            IN IF inIf /\ FiletransName(n.name) THEN [s1 EXCEPT !.filetrans = @ \cup {ifn}] ELSE s1
       [] n.k = "AV" ->
            IF inIf /\ InSeq("associate", n.perms) THEN [sym EXCEPT !.transform = @ \cup {ifn}] ELSE sym
       [] n.k = "TT" ->
            IF inIf /\ ~InSeq("process", n.cls) THEN [sym EXCEPT !.filetrans = @ \cup {ifn}] ELSE sym
       [] n.k = "RTYPES" ->
            IF inIf /\ \E j \in 1..Len(n.types) : First(n.types[j]) = "$"
            THEN [sym EXCEPT !.roleif = @ \cup {ifn}] ELSE sym
       [] n.k \in {"TATTR", "RATTR"} ->
            IF inIf /\ (TransformName(ifn) \/ mod \in {"mls", "mcs"})
            THEN [sym EXCEPT !.transform = @ \cup {ifn}] ELSE sym
       [] OTHER -> sym

RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(sym, N, i, mod) ==
  IF i > Len(N) THEN sym ELSE ParseFrom(TLCEval(ParseNode(sym, N, i, mod)), N, i + 1, mod)
ParseFile(sym, file) == ParseFrom(sym, file.nodes, 1, file.mod)

\* An interface whose first statement calls a transform interface is one too;
\* closed under the calls over all interface files.
FirstStatement(N, i) ==
  LET kids == Children(N, i)
      body == Filter(kids, LAMBDA j : N[j].k \notin {"START", "REQUIRE", "GENREQ"})
  IN IF body = <<>> THEN 0 ELSE Head(body)
MarkOnce(sym, N) ==
  { N[i].name : i \in { j \in 1..Len(N) :
      /\ N[j].k = "INTERFACE"
      /\ LET f == FirstStatement(N, j)
         IN f # 0 /\ N[f].k = "CALL" /\ N[f].name \in sym.transform } }
RECURSIVE MarkTransform(_, _)
MarkTransform(sym, files) ==
  LET new == UNION { MarkOnce(sym, files[j].nodes) : j \in 1..Len(files) }
  IN IF new \subseteq sym.transform THEN sym
     ELSE MarkTransform([sym EXCEPT !.transform = @ \cup new], files)
=============================================================================
