-------------------------------- MODULE Author --------------------------------
(* The environment: an author who writes a text item by item, opening and     *)
(* closing blocks.  Every behaviour is one way to write; every state without  *)
(* open blocks is a finished text, which is printed (as indices into the      *)
(* alphabet, 0 closing a block) and then run through the real program.        *)
EXTENDS Scopes, Json, IOUtils

Number(s) == CHOOSE i \in 0..99 : ToString(i) = s
S == Scope(IOEnv.SCOPE, Number(IOEnv.LEN))
ASSUME PrintT("SCOPE " \o ToJson(S))

\* Where an item may stand, and where the contents of a block stand: among the definitions of an interface file (F), before
\* the header of a module (H), in a body (S), in a require block (R).
Structured == S.kind \in {"te", "if", "template"}
Places(v) == CASE v.k = "REQDECL" \/ "_req" \in DOMAIN v -> {"R"}
               [] v.k \in {"INTERFACE", "TEMPLATE"} -> {"F"}
               [] v.k = "COMMENT" -> IF "_node" \in DOMAIN v THEN {"S", "R"} ELSE {"F", "H"}
               [] v.k = "HEADER" -> {"H"}
               [] OTHER -> {"S"}
Inside(v) == IF v.k \in {"GENREQ", "REQUIRE"} \/ "_req" \in DOMAIN v THEN "R" ELSE "S"
\* Blocks that the grammar does not let be empty.
Full(v) == v.k \in {"GENREQ", "REQUIRE", "BOOLEAN", "USERDEBUG"} \/ "_req" \in DOMAIN v \/ (v.k = "OPTIONAL" /\ "else" \in DOMAIN v)
TopPlace == IF S.kind = "if" /\ Len(S.head) = 1 THEN "F" ELSE IF S.kind = "te" /\ S.head = <<>> THEN "H" ELSE "S"

VARIABLES text, open      \* open: for every open block its item, the index of its last item, and where its contents stand
vars == <<text, open>>
Items(t) == Len(SelectSeq(t, LAMBDA i : i # 0))
Top == open[Len(open)]
Set(i) == [open EXCEPT ![Len(open)].last = i]

Init == text = <<>> /\ open = << [item |-> 0, last |-> 0, place |-> TopPlace] >>
May(i) == /\ Items(text) < S.len
          /\ S.inc => i > Top.last
          /\ Structured => Top.place \in Places(S.alpha[i].v)
Mark(i) == Set(IF S.inc \/ i = 0 THEN i ELSE -1)
Write == \E i \in 1..Len(S.alpha) : ~S.alpha[i].b /\ May(i) /\ text' = Append(text, i)
            /\ open' = IF Structured /\ S.alpha[i].v.k = "HEADER" THEN [Mark(i) EXCEPT ![Len(open)].place = "S"] ELSE Mark(i)
Open == \E i \in 1..Len(S.alpha) :
          /\ S.alpha[i].b /\ May(i) /\ Len(open) <= S.depth
          /\ text' = Append(text, i)
          /\ open' = Append(Mark(i), [item |-> i, last |-> 0, place |-> IF Structured THEN Inside(S.alpha[i].v) ELSE "S"])
Close == /\ Len(open) > 1
         /\ Structured /\ Full(S.alpha[Top.item].v) => Top.last # 0
         /\ text' = Append(text, 0) /\ open' = SubSeq(open, 1, Len(open) - 1)
Next == Write \/ Open \/ Close
Finished == Len(open) = 1 /\ Top.place # "H"
\* Written texts are balanced.
RECURSIVE Depth(_, _)
Depth(t, d) == IF t = <<>> THEN d ELSE Depth(Tail(t), IF Head(t) = 0 THEN d - 1 ELSE IF S.alpha[Head(t)].b THEN d + 1 ELSE d)
Balanced == Depth(text, 1) = Len(open) /\ Items(text) <= S.len /\ Len(open) <= S.depth + 1
Written == Finished => PrintT("TEXT " \o ToString(text))
===============================================================================
