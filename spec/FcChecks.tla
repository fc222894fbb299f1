------------------------------ MODULE FcChecks -------------------------------
(* File context files, read line by line from their text.  A line is given    *)
(* without its line end characters.                                           *)
EXTENDS Ordering

Blank == {" ", "\t"}
Trailing == Blank \cup {"\r", "\n"}
RECURSIVE SkipBlank(_, _), TokEnd(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Blank THEN SkipBlank(s, i + 1) ELSE i
TokEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \notin Blank THEN TokEnd(s, i + 1) ELSE i
RECURSIVE TrimRight(_), TrimLeft(_)
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) \in Trailing THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimLeft(s) == IF s # "" /\ Ch(s, 1) \in Blank THEN TrimLeft(Drop(s, 1)) ELSE s
\* The non-empty parts of s between separators c.
RECURSIVE Split(_, _)
Split(s, c) ==
  LET j == Index(s, c)
      hd == IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1)
      tl == IF j = 0 THEN <<>> ELSE Split(Drop(s, j), c)
  IN IF hd = "" THEN tl ELSE <<hd>> \o tl

Bad == [st |-> "error"]
Context(s) ==
  LET f == Split(s, ":")
  IN IF Index(s, "(") # 0 \/ Len(f) < 3 \/ Len(f) > 4 THEN Bad
     ELSE [st |-> "entry", user |-> f[1], role |-> f[2], type |-> f[3], gen |-> FALSE, range |-> Len(f) = 4]
CutParen(s) == LET j == Index(s, ")") IN IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1)
GenContext(r) ==
  LET f == Split(r, ",")
      noParen(k) == Index(f[k], ")") = 0
  IN IF f = <<>> THEN Bad
     ELSE IF noParen(IF Len(f) >= 3 THEN 3 ELSE Len(f)) THEN Bad
     ELSE LET c == Context(IF Len(f) = 1 THEN CutParen(f[1]) ELSE f[1])
          IN IF c.st = "error" THEN c ELSE [c EXCEPT !.gen = TRUE, !.range = Len(f) >= 2]

Skipped(raw, fcm) ==
  \/ raw = "" \/ First(raw) = "#"
  \/ \E p \in {"ifdef", "ifndef", "')", "', `", "',`"} : StartsWith(raw, p)
  \/ \E j \in 1..Len(fcm) : StartsWith(raw, fcm[j] \o "(")
\* One line: skipped, error, none (explicit empty context) or entry.
FcLine(raw, fcm) ==
  IF Skipped(raw, fcm) THEN [st |-> "skip"]
  ELSE LET s == TrimRight(raw)
           i1 == SkipBlank(s, 1)
           e1 == TokEnd(s, i1)
           i2 == SkipBlank(s, e1)
           e2 == TokEnd(s, i2)
           hasObj == i2 <= Len(s) /\ Ch(s, i2) = "-"
           i3 == IF hasObj THEN SkipBlank(s, e2) ELSE i2
           rest == SubSeq(s, i3, Len(s))
           path == SubSeq(s, i1, e1 - 1)
           c == IF StartsWith(rest, "gen_context(") THEN GenContext(Drop(rest, 12))
                ELSE IF rest = "<<none>>" THEN [st |-> "none"] ELSE Context(rest)
       IN IF i1 > Len(s) \/ i2 > Len(s) \/ i3 > Len(s) \/ (hasObj /\ e2 - i2 # 2) THEN Bad
          ELSE IF c.st = "entry" THEN c @@ [path |-> path] ELSE c

\* Position of the first suspicious regular expression character of a path.
RECURSIVE RegexPos(_, _, _), BracketEnd(_, _, _)
\* p is the previous character.
RegexPos(s, i, p) ==
  IF i > Len(s) THEN 0
  ELSE LET c == Ch(s, i)
           nx == IF i < Len(s) THEN Ch(s, i + 1) ELSE ""
       IN IF c = "[" /\ p # "\\" THEN LET e == BracketEnd(s, i, p) IN RegexPos(s, e[1], e[2])
          ELSE IF c = "." /\ p # "\\" /\ nx \notin {"*", "+", "?"} THEN i
          ELSE IF c \in {"*", "+"} /\ p \notin {"\\", ".", "]", ")"} THEN i
          ELSE RegexPos(s, i + 1, c)
\* From an opening bracket to the closing one: <<position, previous character>>.
BracketEnd(s, i, p) ==
  IF i > Len(s) THEN <<i, p>>
  ELSE IF Ch(s, i) = "]" /\ p # "\\" THEN <<i, p>>
  ELSE BracketEnd(s, i + 1, Ch(s, i))

GeneratedFc(base) == base \in {"base.fc", "all_mods.fc"} \/ EndsWith(base, ".mod.fc")
FcFind(id, x, e, sym, cfg) ==
  LET o == Owner(sym, e.type, "type")
  IN CASE id = "S-002" -> IF (cfg.skipgen /\ GeneratedFc(x.base)) \/ o = "" \/ o = x.mod THEN None
                          ELSE Hit(<<e.type, "module", o>>)
       [] id = "S-007" -> IF e.gen /\ ~e.range THEN Hit(<<"levels">>) ELSE None
       [] id = "W-004" -> LET q == RegexPos(e.path, 1, "")
                          IN IF q = 0 THEN None ELSE Hit(<<"position", NatStr(q)>>)
       [] id = "E-003" -> IF Known(sym, e.user, "user") THEN None ELSE Hit(<<e.user>>)
       [] id = "E-004" -> IF Known(sym, e.role, "role") THEN None ELSE Hit(<<e.role>>)
       [] id = "E-005" -> IF Known(sym, e.type, "type") THEN None ELSE Hit(<<e.type>>)
       [] OTHER -> None
FcIds == <<"S-002", "S-007", "W-004", "E-003", "E-004", "E-005">>
=============================================================================
