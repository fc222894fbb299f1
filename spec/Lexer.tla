-------------------------------- MODULE Lexer ---------------------------------
(* The tokens of a te, if, spt or access vector file.  No token spans lines,  *)
(* so a file is lexed line by line: the longest match counts, and of equally  *)
(* long ones the first in the order of the documented language.               *)
(*   token [t, v, ln]: kind, text (disable comments: the ids), line           *)
(* A kind is a keyword, a punctuation mark or one of STRING, NUMBER,          *)
(* NUM_STRING, VERSION, IPV4, IPV6, QUOTED, FTS (file type), COMMENT,         *)
(* DISABLE, UNKNOWN, EOF.                                                     *)
EXTENDS Ast

Keywords ==
  {"policy_module", "module", "type", "typealias", "alias", "attribute", "bool", "typeattribute", "roleattribute", "role", "types", "attribute_role",
   "allow", "allowxperm", "auditallow", "auditallowxperm", "dontaudit", "dontauditxperm", "neverallow", "neverallowxperm", "type_transition",
   "type_member", "type_change", "range_transition", "role_transition", "optional_policy", "gen_require", "gen_bool", "gen_tunable", "require",
   "tunable_policy", "ifelse", "refpolicywarn", "class", "common", "inherits", "if", "else", "ifdef", "ifndef", "genfscon", "sid", "portcon",
   "netifcon", "nodecon", "fs_use_trans", "fs_use_xattr", "fs_use_task", "define", "gen_user", "gen_context", "permissive", "typebounds",
   "interface", "template", "userdebug_or_eng"}
LexDigits == CharSet("0123456789")
LexHex == CharSet("0123456789abcdefABCDEF")
WordStart == CharSet("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ$/")
WordChars == WordStart \cup LexDigits \cup CharSet("_*-")
QuoteChars == CharSet("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-:~$")
Marks == CharSet("(),.{}:;`'~*-^!")
LineBlanks == {" ", "\t", "\r"}

\* Length of the longest run of characters of S at i.
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN RunEnd(s, i + 1, S) ELSE i
Run(s, i, S) == RunEnd(s, i, S) - i
At2(s, i) == IF i <= Len(s) THEN Ch(s, i) ELSE ""

\* Lengths of the forms with inner punctuation, 0 if there is none at i.
VersionLen(s, i) ==
  LET a == Run(s, i, LexDigits)
      b == IF a > 0 /\ At2(s, i + a) = "." THEN Run(s, i + a + 1, LexDigits) ELSE 0
      j == i + a + 1 + b
      c == IF b > 0 /\ At2(s, j) = "." THEN Run(s, j + 1, LexDigits) ELSE 0
  IN IF b = 0 THEN 0 ELSE (j - i) + (IF c > 0 THEN 1 + c ELSE 0)
RECURSIVE Ip4From(_, _, _)
Ip4From(s, i, n) ==
  LET a == Run(s, i, LexDigits)
  IN IF a = 0 THEN 0
     ELSE IF n = 1 THEN (IF a > 3 THEN 3 ELSE a)
     ELSE IF a > 3 \/ At2(s, i + a) # "." THEN 0
     ELSE LET r == Ip4From(s, i + a + 1, n - 1) IN IF r = 0 THEN 0 ELSE a + 1 + r
Ip6Len(s, i) ==
  LET a == Run(s, i, LexHex)
      j == i + a                                      \* the first colon
      e == RunEnd(s, j + 1, LexHex \cup {":"})         \* the run behind it
      S == IF a <= 4 /\ At2(s, j) = ":" THEN { k \in (j + 1)..(e - 1) : Ch(s, k) = ":" } ELSE {}
      last == Max(S)
      h == e - 1 - last
  IN IF S = {} THEN 0 ELSE (last - i + 1) + (IF h > 4 THEN 4 ELSE h)

\* A disable comment: #selint-disable: ID, ID
IsId(x) == Len(x) >= 3 /\ Ch(x, 1) \in {"C", "S", "W", "E", "F"} /\ Ch(x, 2) = "-" /\ Run(x, 3, LexDigits) = Len(x) - 2
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET j == Index(s, c) IN IF j = 0 THEN <<s>> ELSE <<SubSeq(s, 1, j - 1)>> \o SplitAt(Drop(s, j), c)
DisablePrefix == "#selint-disable:"
DisableIds(s) ==
  IF ~StartsWith(s, DisablePrefix) THEN <<>>
  ELSE LET q == SplitAt(Drop(s, Len(DisablePrefix)), ",")
           ids == [ k \in 1..Len(q) |-> IF First(q[k]) = " " THEN Drop(q[k], 1) ELSE q[k] ]
       IN IF \A k \in 1..Len(ids) : IsId(ids[k]) THEN ids ELSE <<>>

Lx(t, n) == [t |-> t, n |-> n]
\* The longest of candidates <<kind, length>>, the first among equals.
RECURSIVE Longest(_, _)
Longest(best, q) == IF q = <<>> THEN Lx(best[1], best[2]) ELSE Longest(IF q[1][2] > best[2] THEN q[1] ELSE best, Tail(q))
WordAt(s, i) ==
  LET w == Run(s, i, WordChars)
      text == SubSeq(s, i, i + w - 1)
      digit == Ch(s, i) \in LexDigits
      d == IF digit THEN Run(s, i, LexDigits) ELSE 0
      ip6 == IF At2(s, i + w) = ":" /\ w <= 4 THEN <<<<"IPV6", Ip6Len(s, i)>>>> ELSE <<>>
  IN IF digit THEN Longest(<<"VERSION", VersionLen(s, i)>>, <<<<"NUMBER", d>>, <<"NUM_STRING", w>>, <<"IPV4", Ip4From(s, i, 4)>>>> \o ip6)
     ELSE Longest(<<IF text \in Keywords THEN text ELSE "STRING", w>>, ip6)
\* The token at i; kind "" is skipped.
LexAt(s, i, nl) ==
  LET c == Ch(s, i)
      two == SubSeq(s, i, i + 1 - (IF i = Len(s) THEN 1 ELSE 0))
      rest == SubSeq(s, i, Len(s))
  IN CASE c \in LineBlanks -> Lx("", 1)
       [] c = "d" /\ nl /\ StartsWith(rest, "dnl") -> Lx("", Len(rest))
       [] c \in WordStart \/ c \in LexDigits -> WordAt(s, i)
       [] c = "#" -> IF ~nl THEN Lx("UNKNOWN", 1) ELSE IF DisableIds(rest) # <<>> THEN Lx("DISABLE", Len(rest)) ELSE Lx("COMMENT", Len(rest))
       [] c = "\"" -> LET e == RunEnd(s, i + 1, QuoteChars) IN IF At2(s, e) = "\"" THEN Lx("QUOTED", e - i + 1) ELSE Lx("UNKNOWN", 1)
       [] c = ":" -> LET n == Ip6Len(s, i) IN IF n > 1 THEN Lx("IPV6", n) ELSE Lx(":", 1)
       [] c = "-" -> IF At2(s, i + 1) \in CharSet("-ldbcsp") /\ At2(s, i + 2) \in {" ", "\t"} THEN Lx("FTS", 3) ELSE Lx("-", 1)
       [] two \in {"&&", "||", "!=", "=="} -> Lx(two, 2)
       [] c \in Marks -> Lx(c, 1)
       [] OTHER -> Lx("UNKNOWN", 1)
RECURSIVE LexFrom(_, _, _, _)
LexFrom(s, i, nl, ln) ==
  IF i > Len(s) THEN <<>>
  ELSE LET x == LexAt(s, i, nl)
           text == SubSeq(s, i, i + x.n - 1)
       IN IF x.t = "" THEN LexFrom(s, i + x.n, nl, ln)
          ELSE << [t |-> x.t, v |-> IF x.t = "DISABLE" THEN DisableIds(text) ELSE text, ln |-> ln] >> \o LexFrom(s, i + x.n, nl, ln)
RECURSIVE CatFrom(_, _, _)
CatFrom(qq, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN qq[a] ELSE LET m == (a + b) \div 2 IN CatFrom(qq, a, m) \o CatFrom(qq, m + 1, b)
\* The tokens of lines; final: the last one ends with a newline.
Tokens(lines, final) ==
  LET n == Len(lines)
      q == TLCEval([ j \in 1..n |-> LexFrom(lines[j], 1, final \/ j < n, j) ])
  IN CatFrom(q, 1, n) \o << [t |-> "EOF", v |-> "", ln |-> IF n = 0 THEN 1 ELSE IF final THEN n + 1 ELSE n] >>
===============================================================================
