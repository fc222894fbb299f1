----------------------------- MODULE PermMacro -------------------------------
(* S-009 and S-010: permission macros of access rules.                        *)
EXTENDS Checks

(******************************* S-009 ***************************************)
SuffixPerms(p, suf) == Len(p) >= Len(suf) + 6 /\ SubSeq(p, Len(p) - Len(suf) - 5, Len(p) - 6) = suf
ClassAlias == [chr_file |-> "term", process |-> "signal"]
FitsClass(p, c) == SuffixPerms(p, c) \/ (c \in DOMAIN ClassAlias /\ SuffixPerms(p, ClassAlias[c]))
OtherFileClasses == {"lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file"}
Mismatch(p, cls) ==
  LET fits == \A j \in 1..Len(cls) : FitsClass(p, cls[j])
      netlink == \A j \in 1..Len(cls) : StartsWith(cls[j], "netlink_")
      socket == \A j \in 1..Len(cls) : EndsWith(cls[j], "_socket")
  IN /\ EndsWith(p, "_perms")
     /\ IF fits THEN InSeq("file", cls) /\ \E c \in OtherFileClasses : SuffixPerms(p, c)
        ELSE /\ ~(netlink /\ EndsWith(p, "_socket_perms"))
             /\ ~(socket /\ ~netlink /\ EndsWith(p, "_socket_perms") /\ ~EndsWith(p, "netlink_socket_perms"))
S009(n) ==
  LET j == FirstIdx(Len(n.perms), LAMBDA q : Mismatch(n.perms[q], n.cls))
  IN IF EndsWith(n.cls[1], "_class_set") \/ j = 0 THEN None
     ELSE Hit(<<n.perms[j]>> \o (IF Len(n.cls) > 1 THEN <<"multi">> ELSE <<"class", n.cls[1]>>))

(******************************* S-010 ***************************************)
Covered == << "ioctl", "read", "write", "create", "getattr", "setattr", "lock", "relabelfrom",
  "relabelto", "append", "map", "unlink", "link", "rename", "execute", "mounton", "open", "watch",
  "add_name", "remove_name", "reparent", "search", "rmdir", "execute_no_trans", "entrypoint" >>
CoveredSet == Range(Covered)
U == "(uncovered)"
WriteX == {"write", "ioctl", "getattr", "append", "lock"}
UnlinkX == {"unlink", "getattr", "rmdir"}
ExecuteX == {"execute", "read", "getattr", "map"}
\* What a permission is taken to imply besides itself.
Implied(p) ==
  CASE p = "read" -> {"ioctl", "getattr", "search", "lock"}
    [] p = "write" -> WriteX
    [] p = "create" -> {"getattr", "link"}
    [] p \in {"setattr", "lock", "relabelfrom", "relabelto", "append", "link", "rename",
              "mounton", "open", "reparent", "search"} -> {"getattr"}
    [] p = "map" -> {"ioctl", "getattr"}
    [] p = "unlink" -> UnlinkX
    [] p = "execute" -> ExecuteX
    [] p = "watch" -> {"read"}
    [] p \in {"add_name", "remove_name"} -> WriteX
    [] p = "rmdir" -> UnlinkX
    [] p = "execute_no_trans" -> ExecuteX
    [] OTHER -> {}

\* Masks of a permission or macro name.  Macros may refer to macros; open are
\* those that are being expanded, and a macro inside of itself covers nothing.
RECURSIVE RawOf(_, _, _), ExtOf(_, _, _)
RawOf(s, macros, open) ==
  IF s \in CoveredSet THEN {s}
  ELSE IF s \in DOMAIN macros \ open
       THEN UNION { RawOf(macros[s][j], macros, open \cup {s}) : j \in 1..Len(macros[s]) }
       ELSE {U}
ExtOf(s, macros, open) ==
  IF s \in CoveredSet THEN {s} \cup Implied(s)
  ELSE IF s \in DOMAIN macros \ open
       THEN UNION { ExtOf(macros[s][j], macros, open \cup {s}) : j \in 1..Len(macros[s]) }
       ELSE {U}
RawAll(q, macros) == UNION { RawOf(q[j], macros, {}) : j \in 1..Len(q) }
ExtAll(q, macros) == UNION { ExtOf(q[j], macros, {}) : j \in 1..Len(q) }

\* The class a macro is for.  The order of the tests matters: lnk_file before file.
MacroClass(nm) ==
  CASE EndsWith(nm, "_dir_perms") -> "dir"
    [] EndsWith(nm, "_lnk_file_perms") -> "lnk_file"
    [] EndsWith(nm, "_chr_file_perms") -> "chr_file"
    [] EndsWith(nm, "_term_perms") -> "chr_file"
    [] EndsWith(nm, "_blk_file_perms") -> "blk_file"
    [] EndsWith(nm, "_sock_file_perms") -> "sock_file"
    [] EndsWith(nm, "_fifo_file_perms") -> "fifo_file"
    [] EndsWith(nm, "_file_perms") -> "file"
    [] OTHER -> ""

\* order: the names of the macros in the order of their definition.
S010(n, sup) ==
  LET m == sup.macros
      perms == n.perms
      cl == n.cls[1]
      raw == RawAll(perms, m)
      ext0 == ExtAll(perms, m)
      ext1 == IF ext0 \cap {"create", "write"} # {} THEN ext0 \cup {"setattr", "getattr"} ELSE ext0
      ext == IF ext1 \cap {"create", "unlink"} # {} THEN ext1 \cup {"rename", "reparent", "getattr"} ELSE ext1
      Raw == [ j \in 1..Len(sup.macroOrder) |-> RawAll(m[sup.macroOrder[j]], m) ]
      Replaced(j) == { q \in 1..Len(perms) : RawOf(perms[q], m, {}) \subseteq (Raw[j] \cap raw) }
      Cov(j) == Cardinality(Raw[j] \cap raw)
      Add(j) == Cardinality(Raw[j] \ raw)
      cand == { j \in 1..Len(sup.macroOrder) :
                  /\ MacroClass(sup.macroOrder[j]) = cl
                  /\ U \notin Raw[j]
                  /\ Raw[j] \subseteq ext
                  /\ Cov(j) >= 2
                  /\ Cardinality(Replaced(j)) >= 2 }
      \* most covered, then fewest added, then the last defined
      Better(a, b) == \/ Cov(a) > Cov(b)
                      \/ Cov(a) = Cov(b) /\ Add(a) < Add(b)
                      \/ Cov(a) = Cov(b) /\ Add(a) = Add(b) /\ a >= b
  IN IF n.av # "allow" \/ Len(n.cls) > 1 \/ EndsWith(cl, "_class_set") THEN None
     ELSE IF Cardinality(raw \ {U}) < 2 \/ cand = {} THEN None
     ELSE LET best == CHOOSE a \in cand : \A b \in cand : Better(a, b)
              nm == sup.macroOrder[best]
              adds == Filter(Covered, LAMBDA s : s \in Raw[best] \ raw)
              repl == Filter([q \in 1..Len(perms) |-> q], LAMBDA q : q \in Replaced(best))
          IN IF InSeq(nm, perms) THEN None
             ELSE Hit(<<"macro", nm, "replacing">> \o [q \in 1..Len(repl) |-> perms[repl[q]]]
                      \o <<"would", "add">> \o (IF adds = <<>> THEN <<"none">> ELSE adds))
=============================================================================
