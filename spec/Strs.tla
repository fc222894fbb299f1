-------------------------------- MODULE Strs --------------------------------
(* Byte-string helpers.  TLC evaluates Len, SubSeq and \o on strings.  All    *)
(* strings of the model are made of printable ASCII characters; byte order    *)
(* (strcmp) is the order of the characters in Ascii.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ch(s, i) == SubSeq(s, i, i)
CharSet(s) == { Ch(s, i) : i \in 1..Len(s) }
AsciiSet == CharSet(Ascii)
OrdF == [ c \in AsciiSet |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c ]
\* Control characters compare below all printable ones (only tabs and line
\* ends occur, and never in names).
Ord(c) == IF c \in AsciiSet THEN OrdF[c] ELSE 0

Digits == CharSet("0123456789")
DigitVal == [ c \in Digits |-> OrdF[c] - OrdF["0"] ]
Blanks == {" ", "\t", "\n", "\r", "\f"}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
First(s) == IF s = "" THEN "" ELSE Ch(s, 1)

\* Index of the first / last occurrence of character c at or after from; 0: none.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
Index(s, c) == IndexFrom(s, c, 1)
RECURSIVE LastIndexTo(_, _, _)
LastIndexTo(s, c, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastIndexTo(s, c, i - 1)
LastIndex(s, c) == LastIndexTo(s, c, Len(s))

\* Sign of strcmp(a, b).
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE LET x == Ch(a, i) y == Ch(b, i)
       IN IF x = y THEN CmpFrom(a, b, i + 1) ELSE IF Ord(x) < Ord(y) THEN -1 ELSE 1
StrCmp(a, b) == IF a = b THEN 0 ELSE CmpFrom(a, b, 1)

\* Decimal rendering of a natural number.
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Ch("0123456789", n + 1) ELSE NatStr(n \div 10) \o Ch("0123456789", (n % 10) + 1)

Range(q) == { q[i] : i \in 1..Len(q) }
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Filter(q, P(_)) == SelectSeq(q, P)
\* First index satisfying P, 0 if none.
FirstIdx(n, P(_)) == LET S == { i \in 1..n : P(i) } IN IF S = {} THEN 0 ELSE Min(S)
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
=============================================================================
