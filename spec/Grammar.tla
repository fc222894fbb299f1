------------------------------- MODULE Grammar --------------------------------
(* The language of te, if, obj_perm_sets.spt and access_vectors files: from a *)
(* sequence of tokens to the nodes of the syntax tree (in the form of Ast) or *)
(* to the line of the first token with which no sentence goes on.             *)
(*                                                                            *)
(* Every recogniser takes the tokens and a position and gives                 *)
(*   [i, e, v]   the position behind what it read, the line of an error       *)
(*               (0: none), and a value                                       *)
EXTENDS Lexer

Kind(T, i) == T[i].t
Good(i, v) == [i |-> i, e |-> 0, v |-> v]
Fail(T, i) == [i |-> i, e |-> T[i].ln, v |-> <<>>]
FailLine(i, ln) == [i |-> i, e |-> ln, v |-> <<>>]
Then(r, F(_)) == IF r.e # 0 THEN r ELSE F(r)
\* The tokens q, one after the other.
RECURSIVE Toks(_, _, _)
Toks(T, i, q) == IF q = <<>> THEN Good(i, <<>>) ELSE IF Kind(T, i) = q[1] THEN Toks(T, i + 1, Tail(q)) ELSE Fail(T, i)
\* A word; its value is its text.
Word1(T, i) == IF Kind(T, i) = "STRING" THEN Good(i + 1, T[i].v) ELSE Fail(T, i)

(********************************* lists *************************************)
ItemStart == {"STRING", "-", "QUOTED"}
Item(T, i) ==
  CASE Kind(T, i) \in {"STRING", "QUOTED"} -> Good(i + 1, T[i].v)
    [] Kind(T, i) = "-" -> IF Kind(T, i + 1) = "STRING" THEN Good(i + 2, "-" \o T[i + 1].v) ELSE Fail(T, i + 1)
    [] OTHER -> Fail(T, i)
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(T, i, acc) == Then(Item(T, i), LAMBDA r : IF Kind(T, r.i) \in ItemStart THEN ItemsFrom(T, r.i, Append(acc, r.v)) ELSE Good(r.i, Append(acc, r.v)))
Strings(T, i) == ItemsFrom(T, i, <<>>)
RECURSIVE List(_, _)
List(T, i) ==
  CASE Kind(T, i) = "{" -> Then(Strings(T, i + 1), LAMBDA r : Then(Toks(T, r.i, <<"}">>), LAMBDA x : Good(x.i, r.v)))
    [] Kind(T, i) = "~" -> Then(List(T, i + 1), LAMBDA r : Good(r.i, <<"~">> \o r.v))
    [] Kind(T, i) = "*" -> Good(i + 1, <<"*">>)
    [] OTHER -> Then(Item(T, i), LAMBDA r : Good(r.i, <<r.v>>))
XitemStart == {"STRING", "NUM_STRING", "NUMBER", "-"}
RECURSIVE XitemsFrom(_, _, _), Xlist(_, _)
XitemsFrom(T, i, acc) == IF Kind(T, i) \in XitemStart THEN XitemsFrom(T, i + 1, Append(acc, T[i].v)) ELSE IF acc = <<>> THEN Fail(T, i) ELSE Good(i, acc)
Xlist(T, i) ==
  CASE Kind(T, i) = "{" -> Then(XitemsFrom(T, i + 1, <<>>), LAMBDA r : Then(Toks(T, r.i, <<"}">>), LAMBDA x : Good(x.i, r.v)))
    [] Kind(T, i) = "~" -> Then(Xlist(T, i + 1), LAMBDA r : Good(r.i, <<"~">> \o r.v))
    [] Kind(T, i) \in XitemStart -> Good(i + 1, <<T[i].v>>)
    [] OTHER -> Fail(T, i)
RECURSIVE CommasFrom(_, _, _)
CommasFrom(T, i, acc) == Then(Word1(T, i), LAMBDA r : IF Kind(T, r.i) = "," THEN CommasFrom(T, r.i + 1, Append(acc, r.v)) ELSE Good(r.i, Append(acc, r.v)))
Commas(T, i) == CommasFrom(T, i, <<>>)

\* Arguments of a call: values and whether each was set off by a blank only.
Arg1(T, i) ==
  CASE Kind(T, i) = "QUOTED" -> Good(i + 1, <<T[i].v>>)
    [] Kind(T, i) = "`" -> IF Kind(T, i + 1) = "'" THEN Good(i + 2, <<"">>)
                           ELSE Then(Strings(T, i + 1), LAMBDA r : Then(Toks(T, r.i, <<"'">>), LAMBDA x : Good(x.i, r.v)))
    [] OTHER -> Xlist(T, i)
Plain(q) == [ j \in 1..Len(q) |-> [s |-> q[j], sp |-> FALSE] ]
RECURSIVE ArgsMore(_, _, _)
ArgsMore(T, i, acc) ==
  CASE Kind(T, i) = "," -> Then(Arg1(T, i + 1), LAMBDA r : ArgsMore(T, r.i, acc \o Plain(r.v)))
    [] Kind(T, i) \in ItemStart -> Then(Item(T, i), LAMBDA r : ArgsMore(T, r.i, Append(acc, [s |-> r.v, sp |-> TRUE])))
    [] OTHER -> Good(i, acc)
Args(T, i) == Then(Arg1(T, i), LAMBDA r : ArgsMore(T, r.i, Plain(r.v)))

(************************ conditions, levels, contexts ***********************)
RECURSIVE Cond(_, _), Unary(_, _)
Unary(T, i) ==
  CASE Kind(T, i) = "STRING" -> Good(i + 1, <<>>)
    [] Kind(T, i) = "!" -> Unary(T, i + 1)
    [] Kind(T, i) = "(" -> Then(Cond(T, i + 1), LAMBDA r : Toks(T, r.i, <<")">>))
    [] OTHER -> Fail(T, i)
Cond(T, i) == Then(Unary(T, i), LAMBDA r : IF Kind(T, r.i) \in {"&&", "||", "^", "==", "!="} THEN Cond(T, r.i + 1) ELSE r)

Component(T, i) == Then(Word1(T, i), LAMBDA r : IF Kind(T, r.i) = "." THEN Then(Word1(T, r.i + 1), LAMBDA x : Good(x.i, r.v \o "." \o x.v)) ELSE r)
Level(T, i) == Then(Component(T, i), LAMBDA r : IF Kind(T, r.i) = ":" THEN Then(Component(T, r.i + 1), LAMBDA x : Good(x.i, r.v \o ":" \o x.v)) ELSE r)
MlsRange(T, i) == Then(Level(T, i), LAMBDA r : IF Kind(T, r.i) = "-" THEN Then(Level(T, r.i + 1), LAMBDA x : Good(x.i, r.v \o "-" \o x.v)) ELSE r)
RawContext(T, i) == Then(Toks(T, i, <<"STRING", ":", "STRING", ":", "STRING">>), LAMBDA r : IF Kind(T, r.i) = ":" THEN MlsRange(T, r.i + 1) ELSE r)
Context(T, i) ==
  IF Kind(T, i) # "gen_context" THEN RawContext(T, i)
  ELSE Then(Toks(T, i, <<"gen_context", "(">>), LAMBDA a : Then(RawContext(T, a.i), LAMBDA b :
         IF Kind(T, b.i) # "," THEN Toks(T, b.i, <<")">>)
         ELSE Then(MlsRange(T, b.i + 1), LAMBDA c :
                IF Kind(T, c.i) # "," THEN Toks(T, c.i, <<")">>)
                ELSE IF Kind(T, c.i + 1) = ")" THEN Good(c.i + 2, <<>>)
                ELSE Then(MlsRange(T, c.i + 1), LAMBDA d : Toks(T, d.i, <<")">>)))))

\* Free text within macro quotes.
FreeMarks == {"STRING", "(", ")", "{", "}", ",", ".", ":", ";", "-"}
RECURSIVE FreeFrom(_, _, _)
FreeFrom(T, i, n) ==
  CASE Kind(T, i) \in FreeMarks -> FreeFrom(T, i + 1, n + 1)
    [] Kind(T, i) = "`" -> IF Kind(T, i + 1) \in FreeMarks THEN Toks(T, i + 2, <<"'">>) ELSE Fail(T, i + 1)
    [] OTHER -> IF n = 0 THEN Fail(T, i) ELSE Good(i, <<>>)
Free(T, i) == FreeFrom(T, i, 0)

(******************************* statements **********************************)
(* Values of statements are sequences of terms [n, blk, kids]: a node and its *)
(* children; a block (blk) gets a START child in front.                       *)
Leaf(k, ln, f) == << [n |-> [k |-> k, p |-> 0, pv |-> 0, nx |-> 0, ch |-> 0, ln |-> ln, ex |-> <<>>] @@ f, blk |-> FALSE, kids |-> <<>>] >>
NoField == [ x \in {} |-> x ]
Block(k, ln, f, ex, kids) == << [n |-> [k |-> k, p |-> 0, pv |-> 0, nx |-> 0, ch |-> 0, ln |-> ln, ex |-> ex] @@ f, blk |-> TRUE, kids |-> kids] >>
WithEx(q, ids) == [ j \in 1..Len(q) |-> [q[j] EXCEPT !.n.ex = ids] ]
Aliases(q, ln) == Flat([ j \in 1..Len(q) |-> Leaf("ALIAS", ln, [str |-> q[j]]) ])
DeclOf(fl, name, attrs, ln, al) == << [Leaf("DECL", ln, [fl |-> fl, name |-> name, attrs |-> attrs])[1] EXCEPT !.kids = Aliases(al, ln)] >>
DeclsOf(fl, q, ln) == Flat([ j \in 1..Len(q) |-> DeclOf(fl, q[j], <<>>, ln, <<>>) ])
\* After r the tokens q; the value is kept.
Done(T, r, q, v) == Then(r, LAMBDA a : Then(Toks(T, a.i, q), LAMBDA b : Good(b.i, v)))
End(T, i, q, v) == Then(Toks(T, i, q), LAMBDA b : Good(b.i, v))

AvWords == {"allow", "auditallow", "dontaudit", "neverallow"}
XavWords == {"allowxperm", "auditallowxperm", "dontauditxperm", "neverallowxperm"}
XavBase == [allowxperm |-> "allow", auditallowxperm |-> "auditallow", dontauditxperm |-> "dontaudit", neverallowxperm |-> "neverallow"]
TtWords == {"type_transition", "type_member", "type_change", "range_transition"}
LineStart == AvWords \cup XavWords \cup TtWords \cup
  {"type", "attribute", "class", "role", "attribute_role", "bool", "gen_bool", "gen_tunable", "typeattribute", "roleattribute", "typealias", "role_transition",
   "STRING", "optional_policy", "gen_require", "require", "ifdef", "ifndef", "ifelse", "refpolicywarn", "userdebug_or_eng", "tunable_policy", "if",
   "genfscon", "sid", "portcon", "netifcon", "nodecon", "fs_use_trans", "fs_use_xattr", "fs_use_task", "define", "gen_user", "permissive", "typebounds", ";", "COMMENT"}
RequireStart == {"type", "attribute", "role", "attribute_role", "bool", "class", "ifdef", "ifndef", "COMMENT"}

Two(T, i) == Then(List(T, i), LAMBDA a : Then(List(T, a.i), LAMBDA b : Good(b.i, <<a.v, b.v>>)))

AvRule(T, i) ==
  LET ln == T[i].ln
  IN Then(Two(T, i + 1), LAMBDA r :
       IF Kind(T, r.i) = ";"
       THEN IF T[i].t = "allow" THEN Good(r.i + 1, Leaf("RALLOW", ln, [from |-> r.v[1], to |-> r.v[2]])) ELSE FailLine(r.i, ln)
       ELSE Then(Toks(T, r.i, <<":">>), LAMBDA x : Then(Two(T, x.i), LAMBDA y :
              End(T, y.i, <<";">>, Leaf("AV", ln, [av |-> T[i].t, src |-> r.v[1], tgt |-> r.v[2], cls |-> y.v[1], perms |-> y.v[2]])))))
XavRule(T, i) ==
  Then(Two(T, i + 1), LAMBDA r : Then(Toks(T, r.i, <<":">>), LAMBDA a : Then(List(T, a.i), LAMBDA c : Then(Word1(T, c.i), LAMBDA w :
    Then(Xlist(T, w.i), LAMBDA p : End(T, p.i, <<";">>, Leaf("XAV", T[i].ln,
      [av |-> XavBase[T[i].t], src |-> r.v[1], tgt |-> r.v[2], cls |-> c.v, perms |-> p.v])))))))
Transition(T, i) ==
  LET kw == T[i].t
  IN Then(Two(T, i + 1), LAMBDA r : Then(Toks(T, r.i, <<":">>), LAMBDA a : Then(List(T, a.i), LAMBDA c :
       Then(IF kw = "range_transition" THEN MlsRange(T, c.i) ELSE Word1(T, c.i), LAMBDA d :
         End(T, IF kw = "type_transition" /\ Kind(T, d.i) = "QUOTED" THEN d.i + 1 ELSE d.i, <<";">>,
             Leaf("TT", T[i].ln, [src |-> r.v[1], tgt |-> r.v[2], cls |-> c.v, def |-> d.v]))))))
RoleTransition(T, i) ==
  LET node(r, c, d) == Leaf("RT", T[i].ln, [src |-> r.v[1], tgt |-> r.v[2], cls |-> c, def |-> d.v])
  IN Then(Two(T, i + 1), LAMBDA r :
       IF Kind(T, r.i) = ":" THEN Then(List(T, r.i + 1), LAMBDA c : Then(Word1(T, c.i), LAMBDA d : End(T, d.i, <<";">>, node(r, c.v, d))))
       ELSE Then(Word1(T, r.i), LAMBDA d : End(T, d.i, <<";">>, node(r, <<>>, d))))
TypeDecl(T, i) ==
  LET ln == T[i].ln
  IN Then(Word1(T, i + 1), LAMBDA n :
       Then(IF Kind(T, n.i) = "alias" THEN List(T, n.i + 1) ELSE Good(n.i, <<>>), LAMBDA al :
         Then(IF Kind(T, al.i) = "," THEN Commas(T, al.i + 1) ELSE Good(al.i, <<>>), LAMBDA at :
           End(T, at.i, <<";">>, DeclOf("type", n.v, at.v, ln, al.v)))))
RoleStmt(T, i) ==
  Then(Word1(T, i + 1), LAMBDA n :
    IF Kind(T, n.i) = "types" THEN Then(List(T, n.i + 1), LAMBDA q : End(T, q.i, <<";">>, Leaf("RTYPES", T[i].ln, [role |-> n.v, types |-> q.v])))
    ELSE End(T, n.i, <<";">>, DeclOf("role", n.v, <<>>, T[i].ln, <<>>)))
ClassDecl(T, i) == Then(Word1(T, i + 1), LAMBDA n : Then(List(T, n.i), LAMBDA q : End(T, q.i, <<";">>, DeclOf("class", n.v, q.v, T[i].ln, <<>>))))
SimpleDecl(T, i, fl) == Then(Word1(T, i + 1), LAMBDA n : End(T, n.i, <<";">>, DeclOf(fl, n.v, <<>>, T[i].ln, <<>>)))
BoolDecl(T, i) ==
  LET v(j) == DeclOf("bool", T[j].v, <<>>, T[i].ln, <<>>)
  IN IF Kind(T, i) = "gen_tunable" /\ Kind(T, i + 1) = "(" /\ Kind(T, i + 2) = "`"
     THEN Then(Toks(T, i + 3, <<"STRING", "'", ",", "STRING", ")">>), LAMBDA r : Good(r.i, v(i + 3)))
     ELSE Then(Toks(T, i + 1, <<"(", "STRING", ",", "STRING", ")">>), LAMBDA r : Good(r.i, v(i + 2)))
AttrStmt(T, i, k) == Then(Word1(T, i + 1), LAMBDA n : Then(Commas(T, n.i), LAMBDA q : End(T, q.i, <<";">>, Leaf(k, T[i].ln, [type |-> n.v, attrs |-> q.v]))))
AliasStmt(T, i) ==
  Then(Word1(T, i + 1), LAMBDA n : Then(Toks(T, n.i, <<"alias">>), LAMBDA a : Then(List(T, a.i), LAMBDA q :
    End(T, q.i, <<";">>, << [Leaf("TYPEALIAS", T[i].ln, [str |-> n.v])[1] EXCEPT !.kids = Aliases(q.v, T[i].ln)] >>))))
WordStmt(T, i) ==
  LET ln == T[i].ln
      call(a, j) == Good(j, Leaf("CALL", ln, [name |-> T[i].v, args |-> [ k \in 1..Len(a) |-> a[k].s ], sp |-> [ k \in 1..Len(a) |-> a[k].sp ]]))
  IN IF Kind(T, i + 1) # "(" THEN Good(i + 1, Leaf("WORD", ln, [name |-> T[i].v]))
     ELSE IF Kind(T, i + 2) = ")" THEN call(<<>>, i + 3)
     ELSE Then(Args(T, i + 2), LAMBDA r : Then(Toks(T, r.i, <<")">>), LAMBDA x : call(r.v, x.i)))

Address(T, i) == IF Kind(T, i) \in {"IPV4", "IPV6"} THEN Toks(T, i, <<Kind(T, i), Kind(T, i)>>) ELSE Fail(T, i)
PortRange(T, i) ==
  CASE Kind(T, i) = "NUM_STRING" -> Good(i + 1, <<>>)
    [] Kind(T, i) = "NUMBER" -> IF Kind(T, i + 1) = "-" THEN Toks(T, i + 2, <<"NUMBER">>) ELSE Good(i + 1, <<>>)
    [] OTHER -> Fail(T, i)
Genfscon(T, i) ==
  Then(IF Kind(T, i + 1) \in {"STRING", "NUM_STRING"} THEN Toks(T, i + 2, <<"STRING">>) ELSE Fail(T, i + 1), LAMBDA r :
    Context(T, IF Kind(T, r.i) = "FTS" THEN r.i + 1 ELSE r.i))
MaybeWordComma(T, i) == IF Kind(T, i) = "," THEN Good(i + 1, <<>>) ELSE Toks(T, i, <<"STRING", ",">>)
GenUser(T, i) ==
  Then(Toks(T, i, <<"gen_user", "(">>), LAMBDA a : Then(MaybeWordComma(T, a.i), LAMBDA b : Then(MaybeWordComma(T, b.i), LAMBDA c :
    Then(Strings(T, c.i), LAMBDA d : Then(Toks(T, d.i, <<",">>), LAMBDA e : Then(MlsRange(T, e.i), LAMBDA f : Then(Toks(T, f.i, <<",">>), LAMBDA g :
      Then(MlsRange(T, g.i), LAMBDA h :
        IF Kind(T, h.i) = "," THEN Then(MlsRange(T, h.i + 1), LAMBDA k : Toks(T, k.i, <<")">>)) ELSE Toks(T, h.i, <<")">>)))))))))
Define(T, i) ==
  Then(Toks(T, i, <<"define", "(">>), LAMBDA a :
    Then(IF Kind(T, a.i) = "`" THEN Toks(T, a.i, <<"`", "STRING", "'">>) ELSE Toks(T, a.i, <<"STRING">>), LAMBDA n :
      Then(IF Kind(T, n.i) # "," THEN n
           ELSE IF Kind(T, n.i + 1) = "`" THEN Then(Free(T, n.i + 2), LAMBDA f : Toks(T, f.i, <<"'">>))
           ELSE IF Kind(T, n.i + 1) = "STRING" THEN Good(n.i + 2, <<>>) ELSE Good(n.i + 1, <<>>), LAMBDA x :
        End(T, x.i, <<")">>, Block("DEFINE", T[i + 1].ln, NoField, <<>>, <<>>)))))
Nothing(r) == Then(r, LAMBDA x : Good(x.i, <<>>))

\* A disable comment at i, its ids (none: no ids).
Command(T, i) == IF Kind(T, i) = "DISABLE" THEN Good(i + 1, T[i].v) ELSE Good(i, <<>>)

RECURSIVE Stmt(_, _), LinesFrom(_, _, _), RequireFrom(_, _, _), M4ArgsFrom(_, _, _, _)
Lines(T, i) == IF Kind(T, i) \in LineStart THEN LinesFrom(T, i, <<>>) ELSE Fail(T, i)
LinesFrom(T, i, acc) ==
  IF Kind(T, i) \notin LineStart THEN Good(i, acc)
  ELSE LET r == Stmt(T, i)
       IN IF r.e # 0 THEN r
          ELSE IF Kind(T, r.i) = "DISABLE" THEN LinesFrom(T, r.i + 1, acc \o WithEx(r.v, T[r.i].v))
          ELSE LinesFrom(T, r.i, acc \o r.v)

\* Arguments of a macro from position i; ln: line of the token before the first.
M4ArgsFrom(T, i, ln, acc) ==
  LET a == CASE Kind(T, i) = "`" -> IF Kind(T, i + 1) = "'" THEN Good(i + 2, <<>>)
                                    ELSE Then(Lines(T, i + 1), LAMBDA r : Done(T, r, <<"'">>, r.v))
             [] Kind(T, i) = "STRING" -> Good(i + 1, <<>>)
             [] OTHER -> Good(i, <<>>)
  IN Then(a, LAMBDA r : LET q == acc \o Block("M4ARG", ln, NoField, <<>>, r.v)
                        IN IF Kind(T, r.i) = "," THEN M4ArgsFrom(T, r.i + 1, T[r.i].ln, q) ELSE Good(r.i, q))
M4Block(T, i, k, ln) == Then(M4ArgsFrom(T, i, T[i - 1].ln, <<>>), LAMBDA r : End(T, r.i, <<")">>, Block(k, ln, NoField, <<>>, r.v)))

Optional(T, i) ==
  Then(Toks(T, i, <<"optional_policy", "(", "`">>), LAMBDA o : LET c == Command(T, o.i) IN
    IF Kind(T, c.i) = "'" THEN End(T, c.i, <<"'", ")">>, Block("OPTIONAL", T[i].ln, NoField, c.v, <<>>))
    ELSE Then(Lines(T, c.i), LAMBDA b :
      LET opt == Block("OPTIONAL", T[i].ln, NoField, c.v, b.v)
      IN IF Kind(T, b.i) = "'" /\ Kind(T, b.i + 1) = ","
         THEN Then(Toks(T, b.i + 2, <<"`">>), LAMBDA x : Then(Lines(T, x.i), LAMBDA y :
                End(T, y.i, <<"'", ")">>, opt \o Block("OPTELSE", T[x.i - 1].ln, NoField, <<>>, y.v))))
         ELSE End(T, b.i, <<"'", ")">>, opt)))
Boolean(T, i) ==
  Then(Toks(T, i, <<"if", "(">>), LAMBDA o : LET c == Command(T, o.i) IN
    Then(Cond(T, c.i), LAMBDA d : Then(Toks(T, d.i, <<")", "{">>), LAMBDA b : Then(Lines(T, b.i), LAMBDA x : Then(Toks(T, x.i, <<"}">>), LAMBDA y :
      IF Kind(T, y.i) = "else"
      THEN Then(Toks(T, y.i, <<"else", "{">>), LAMBDA z : Then(Lines(T, z.i), LAMBDA w :
             End(T, w.i, <<"}">>, Block("BOOLEAN", T[i].ln, NoField, c.v, x.v \o w.v))))
      ELSE Good(y.i, Block("BOOLEAN", T[i].ln, NoField, c.v, x.v)))))))
Tunable(T, i) ==
  LET quoted == Kind(T, i + 1) = "(" /\ Kind(T, i + 2) = "`"
  IN Then(Toks(T, i, IF quoted THEN <<"tunable_policy", "(", "`">> ELSE <<"tunable_policy", "(">>), LAMBDA o :
       Then(Cond(T, o.i), LAMBDA c : Then(Toks(T, c.i, IF quoted THEN <<"'", ",">> ELSE <<",">>), LAMBDA a :
         M4Block(T, a.i, "TUNABLE", T[o.i - 1].ln))))
IfdefHead(T, i) == Toks(T, i + 1, <<"(", "`", "STRING", "'", ",">>)

\* Statements of a require block.
RequireLines(T, i) == IF Kind(T, i) \in RequireStart THEN RequireFrom(T, i, <<>>) ELSE Fail(T, i)
RequireOne(T, i) ==
  LET kw == T[i].t
  IN CASE kw \in {"type", "attribute", "role", "attribute_role", "bool"} ->
            Then(Commas(T, i + 1), LAMBDA q : End(T, q.i, <<";">>, DeclsOf(kw, q.v, T[i].ln)))
       [] kw = "class" -> ClassDecl(T, i)
       [] kw = "COMMENT" -> Good(i + 1, <<>>)
       [] OTHER -> Then(IfdefHead(T, i), LAMBDA h :
                     LET quoted == Kind(T, h.i) = "`"
                         ln == T[IF quoted THEN h.i ELSE h.i - 1].ln
                     IN Then(RequireLines(T, IF quoted THEN h.i + 1 ELSE h.i), LAMBDA b :
                          End(T, b.i, IF quoted THEN <<"'", ")">> ELSE <<")">>, Block("IFDEF", ln, NoField, <<>>, b.v))))
RequireFrom(T, i, acc) ==
  IF Kind(T, i) \notin RequireStart THEN Good(i, acc)
  ELSE LET r == RequireOne(T, i)
       IN IF r.e # 0 THEN r
          ELSE IF Kind(T, r.i) = "DISABLE" THEN RequireFrom(T, r.i + 1, acc \o WithEx(r.v, T[r.i].v))
          ELSE RequireFrom(T, r.i, acc \o r.v)
GenRequire(T, i) ==
  Then(Toks(T, i, <<"gen_require", "(">>), LAMBDA o :
    LET c == Command(T, o.i)
        quoted == Kind(T, c.i) = "`"
        d == IF quoted THEN Command(T, c.i + 1) ELSE c
        ex == IF d.v # <<>> THEN d.v ELSE c.v
    IN Then(RequireLines(T, d.i), LAMBDA b :
         End(T, b.i, IF quoted THEN <<"'", ")">> ELSE <<")">>, Block("GENREQ", T[i].ln, [unq |-> ~quoted], ex, b.v))))
Require(T, i) ==
  Then(Toks(T, i, <<"require", "{">>), LAMBDA o : LET c == Command(T, o.i) IN
    Then(RequireLines(T, c.i), LAMBDA b : End(T, b.i, <<"}">>, Block("REQUIRE", T[c.i - 1].ln, NoField, c.v, b.v))))

Stmt(T, i) ==
  LET kw == T[i].t
      ln == T[i].ln
  IN CASE kw = "type" -> TypeDecl(T, i)
       [] kw = "role" -> RoleStmt(T, i)
       [] kw \in {"attribute", "attribute_role", "bool"} -> SimpleDecl(T, i, kw)
       [] kw = "class" -> ClassDecl(T, i)
       [] kw \in {"gen_bool", "gen_tunable"} -> BoolDecl(T, i)
       [] kw = "typeattribute" -> AttrStmt(T, i, "TATTR")
       [] kw = "roleattribute" -> AttrStmt(T, i, "RATTR")
       [] kw = "typealias" -> AliasStmt(T, i)
       [] kw \in AvWords -> AvRule(T, i)
       [] kw \in XavWords -> XavRule(T, i)
       [] kw \in TtWords -> Transition(T, i)
       [] kw = "role_transition" -> RoleTransition(T, i)
       [] kw = "STRING" -> WordStmt(T, i)
       [] kw = "optional_policy" -> Optional(T, i)
       [] kw = "gen_require" -> GenRequire(T, i)
       [] kw = "require" -> Require(T, i)
       [] kw \in {"ifdef", "ifndef"} -> Then(IfdefHead(T, i), LAMBDA h : M4Block(T, h.i, "IFDEF", T[h.i - 1].ln))
       [] kw = "ifelse" -> Then(Toks(T, i + 1, <<"(">>), LAMBDA h : M4Block(T, h.i, "IFELSE", T[i + 1].ln))
       [] kw = "refpolicywarn" -> Then(Toks(T, i + 1, <<"(", "`">>), LAMBDA h : Then(Free(T, h.i), LAMBDA f : End(T, f.i, <<"'", ")">>, <<>>)))
       [] kw = "userdebug_or_eng" -> Then(Toks(T, i + 1, <<"(", "`">>), LAMBDA h : Then(Lines(T, h.i), LAMBDA b : End(T, b.i, <<"'", ")">>, b.v)))
       [] kw = "tunable_policy" -> Tunable(T, i)
       [] kw = "if" -> Boolean(T, i)
       [] kw = "genfscon" -> Nothing(Genfscon(T, i))
       [] kw = "sid" -> Nothing(Then(Word1(T, i + 1), LAMBDA a : Context(T, a.i)))
       [] kw = "portcon" -> Nothing(Then(Word1(T, i + 1), LAMBDA a : Then(PortRange(T, a.i), LAMBDA b : Context(T, b.i))))
       [] kw = "netifcon" -> Nothing(Then(Word1(T, i + 1), LAMBDA a : Then(Context(T, a.i), LAMBDA b : Context(T, b.i))))
       [] kw = "nodecon" -> Nothing(Then(Address(T, i + 1), LAMBDA a : Context(T, a.i)))
       [] kw \in {"fs_use_trans", "fs_use_xattr", "fs_use_task"} -> Nothing(Then(Word1(T, i + 1), LAMBDA a : Then(Context(T, a.i), LAMBDA b : Toks(T, b.i, <<";">>))))
       [] kw = "define" -> Define(T, i)
       [] kw = "gen_user" -> Nothing(GenUser(T, i))
       [] kw = "permissive" -> Then(Word1(T, i + 1), LAMBDA a : End(T, a.i, <<";">>, Leaf("PERMISSIVE", ln, [str |-> a.v])))
       [] kw = "typebounds" -> Nothing(Toks(T, i + 1, <<"STRING", "STRING", ";">>))
       [] kw = ";" -> Good(i + 1, Leaf("SEMICOLON", ln, NoField))
       [] OTHER -> Good(i + 1, <<>>)                 \* a comment

(********************************** files ************************************)
Ver(T, i) == IF Kind(T, i) \in {"VERSION", "NUMBER"} THEN Good(i + 1, <<>>) ELSE Fail(T, i)
HeaderAt(T, i, kind) ==
  LET bare == Kind(T, i) = "module"
      name == T[IF bare THEN i + 1 ELSE i + 2]
  IN Then(IF bare THEN Toks(T, i, <<"module", "STRING">>) ELSE Toks(T, i, <<"policy_module", "(", "STRING", ",">>), LAMBDA a :
       Then(Ver(T, a.i), LAMBDA b : Then(Toks(T, b.i, IF bare THEN <<";">> ELSE <<")">>), LAMBDA c :
         IF kind # "te" THEN FailLine(i, T[i].ln) ELSE Good(c.i, Leaf("HEADER", T[i].ln, [name |-> name.v, bare |-> bare])))))
TePolicy(T, i, kind) == Then(HeaderAt(T, i, kind), LAMBDA h : Then(Lines(T, h.i), LAMBDA b : End(T, b.i, <<"EOF">>, h.v \o b.v)))

DefAt(T, i, kind) ==
  Then(Toks(T, i + 1, <<"(", "`", "STRING", "'", ",", "`">>), LAMBDA o :
    IF kind # "if" THEN FailLine(i, T[i].ln)
    ELSE LET c == Command(T, o.i)
             node(kids) == Block(IF T[i].t = "interface" THEN "INTERFACE" ELSE "TEMPLATE", T[i].ln, [name |-> T[i + 3].v], c.v, kids)
         IN IF Kind(T, c.i) = "'" THEN End(T, c.i, <<"'", ")">>, node(<<>>))
            ELSE Then(Lines(T, c.i), LAMBDA b : End(T, b.i, <<"'", ")">>, node(b.v))))
RECURSIVE IfFrom(_, _, _, _)
IfFrom(T, i, kind, acc) ==
  CASE Kind(T, i) \in {"interface", "template"} -> LET r == DefAt(T, i, kind) IN IF r.e # 0 THEN r ELSE IfFrom(T, r.i, kind, acc \o r.v)
    [] Kind(T, i) = "COMMENT" -> IfFrom(T, i + 1, kind, acc \o Leaf("COMMENT", T[i].ln, NoField))
    [] OTHER -> End(T, i, <<"EOF">>, acc)

\* Support files: the value is the sequence of definitions read so far, also in front of an error.
WarnAt(T, i) == Then(Toks(T, i, <<"refpolicywarn", "(", "`">>), LAMBDA a : Then(Free(T, a.i), LAMBDA f : Toks(T, f.i, <<"'", ")">>)))
RECURSIVE SptFrom(_, _, _, _)
SptFrom(T, i, kind, acc) ==
  CASE Kind(T, i) = "define" ->
         LET r == Then(Toks(T, i, <<"define", "(", "`", "STRING", "'", ",", "`">>), LAMBDA a : Then(List(T, a.i), LAMBDA q :
                    LET warn == Kind(T, q.i) = "refpolicywarn"
                    IN Then(IF warn THEN WarnAt(T, q.i) ELSE q, LAMBDA w :
                         End(T, w.i, <<"'", ")">>, <<[name |-> T[i + 3].v, items |-> q.v, warn |-> warn]>>))))
         IN IF r.e # 0 THEN [r EXCEPT !.v = acc]
            ELSE IF kind # "spt" THEN FailLine(i, T[i].ln) ELSE SptFrom(T, r.i, kind, acc \o r.v)
    [] Kind(T, i) = "COMMENT" -> SptFrom(T, i + 1, kind, acc)
    [] OTHER -> [End(T, i, <<"EOF">>, acc) EXCEPT !.v = acc]
\* Permissions within braces, from behind the brace; on an error v holds those read.
RECURSIVE PermsFrom(_, _, _, _), AvFrom(_, _, _, _)
PermsFrom(T, i, acc, n) ==
  CASE Kind(T, i) = "STRING" -> PermsFrom(T, i + 1, Append(acc, T[i].v), n + 1)
    [] Kind(T, i) = "COMMENT" -> PermsFrom(T, i + 1, acc, n + 1)
    [] OTHER -> IF Kind(T, i) = "}" /\ n > 0 THEN Good(i + 1, acc) ELSE [Fail(T, i) EXCEPT !.v = acc]
AvDefAt(T, i) ==
  LET perms(j) == IF Kind(T, j) = "{" THEN PermsFrom(T, j + 1, <<>>, 0) ELSE Fail(T, j)
  IN Then(Toks(T, i + 1, <<"STRING">>), LAMBDA a :
       IF T[i].t = "class" /\ Kind(T, a.i) = "inherits"
       THEN Then(Toks(T, a.i, <<"inherits", "STRING">>), LAMBDA b : IF Kind(T, b.i) = "{" THEN perms(b.i) ELSE b)
       ELSE perms(a.i))
AvFrom(T, i, kind, acc) ==
  CASE Kind(T, i) \in {"class", "common"} ->
         LET r == AvDefAt(T, i)
         IN IF r.e # 0 THEN [r EXCEPT !.v = Append(acc, [cls |-> "", perms |-> r.v])]
            ELSE IF kind # "av" THEN FailLine(i, T[i].ln)
            ELSE AvFrom(T, r.i, kind, Append(acc, [cls |-> IF T[i].t = "class" THEN T[i + 1].v ELSE "", perms |-> r.v]))
    [] Kind(T, i) = "COMMENT" -> AvFrom(T, i + 1, kind, acc)
    [] OTHER -> [End(T, i, <<"EOF">>, acc) EXCEPT !.v = acc]

RECURSIVE Leading(_, _)
Leading(T, i) == IF Kind(T, i) = "COMMENT" THEN Leading(T, i + 1) ELSE i
\* A whole file of a kind: te, if, spt or av.
Sentence(T, kind) ==
  LET i == Leading(T, 1)
      comments == Flat([ j \in 1..(i - 1) |-> Leaf("COMMENT", T[j].ln, NoField) ])
      kw == Kind(T, i)
  IN CASE kw = "EOF" -> Good(i, IF kind \in {"te", "if"} THEN comments ELSE <<>>)
       [] kw \in {"policy_module", "module"} -> Then(TePolicy(T, i, kind), LAMBDA r : Good(r.i, comments \o r.v))
       [] kw \in {"interface", "template"} -> IfFrom(T, i, kind, comments)
       [] kw = "define" -> SptFrom(T, i, kind, <<>>)
       [] kw \in {"class", "common"} -> AvFrom(T, i, kind, <<>>)
       [] OTHER -> Fail(T, i)

(***************************** terms to nodes ********************************)
RECURSIVE Flatten(_, _, _, _, _)
Flatten(q, j, parent, at, prev) ==
  IF j > Len(q) THEN <<>>
  ELSE LET t == q[j]
           kids == IF t.blk THEN Leaf("START", t.n.ln, NoField) \o t.kids ELSE t.kids
           sub == TLCEval(Flatten(kids, 1, at, at + 1, 0))
           next == at + 1 + Len(sub)
           me == [t.n EXCEPT !.p = parent, !.pv = prev, !.nx = IF j < Len(q) THEN next ELSE 0, !.ch = IF kids = <<>> THEN 0 ELSE at + 1]
       IN <<me>> \o sub \o Flatten(q, j + 1, parent, next, at)

\* What a te or if file says: [bad, badl, nodes].
Parsed(lines, final, kind) ==
  LET r == TLCEval(Sentence(TLCEval(Tokens(lines, final)), kind))
  IN IF r.e # 0 THEN [bad |-> TRUE, badl |-> r.e, nodes |-> <<>>] ELSE [bad |-> FALSE, badl |-> 0, nodes |-> Flatten(r.v, 1, 0, 1, 0)]
\* What a support file says: [bad, badl, defs].
ParsedSupport(lines, final, kind) ==
  LET r == TLCEval(Sentence(TLCEval(Tokens(lines, final)), kind))
  IN [bad |-> r.e # 0, badl |-> r.e, defs |-> r.v]
===============================================================================
