------------------------------- MODULE Options --------------------------------
(* The command line and the configuration file: which checks run, at which    *)
(* level, and when the run ends before any analysis.                          *)
(*   c.argv   sequence of [o, a]: option and argument, in the given order     *)
(*   c.args   the path arguments                                              *)
(*   c.cfg    the configuration file named by -c                              *)
EXTENDS FcChecks

EX_OK == 0  EX_USAGE == 64  EX_DATAERR == 65  EX_SOFTWARE == 70  EX_CONFIG == 78
Running == -1     \* no exit yet

Levels == <<"C", "S", "W", "E", "F">>
MaxId == [C |-> 7, S |-> 10, W |-> 11, E |-> 10, F |-> 2]
AllIds == << "C-001", "C-004", "C-005", "C-006", "C-007",
  "S-001", "S-002", "S-003", "S-004", "S-005", "S-006", "S-007", "S-008", "S-009", "S-010",
  "W-001", "W-002", "W-003", "W-004", "W-005", "W-006", "W-007", "W-008", "W-009", "W-010", "W-011",
  "E-002", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008", "E-009", "E-010" >>

\* Letter, dash, and a decimal number within the range of the letter.
ValidId(s) ==
  /\ Len(s) > 2 /\ First(s) \in DOMAIN MaxId /\ Ch(s, 2) = "-"
  /\ LET e == DigitsEnd(s, 3)
     IN /\ e > 3
        /\ LET n == ToNat(SubSeq(s, 3, e - 1), 0) IN n > 0 /\ n <= MaxId[First(s)]

NoOpts == [exit |-> Running, lvl |-> "", dis |-> <<>>, en |-> <<>>, only |-> FALSE, fail |-> FALSE,
           sum |-> FALSE, quiet |-> FALSE, rec |-> FALSE, src |-> FALSE, hidden |-> FALSE,
           verbose |-> FALSE, cfg |-> FALSE, ctx |-> <<>>]
ApplyOpt(o, x) ==
  IF o.exit # Running THEN o
  ELSE CASE x.o \in {"h", "V"} -> [o EXCEPT !.exit = EX_OK]
         [] x.o = "bad" -> [o EXCEPT !.exit = EX_USAGE]
         [] x.o = "l" -> IF First(x.a) \in Range(Levels) THEN [o EXCEPT !.lvl = First(x.a)] ELSE [o EXCEPT !.exit = EX_USAGE]
         [] x.o = "color" -> IF x.a \in {"on", "off", "auto"} THEN o ELSE [o EXCEPT !.exit = EX_USAGE]
         [] x.o = "d" -> [o EXCEPT !.dis = Append(@, x.a)]
         [] x.o = "e" -> [o EXCEPT !.en = Append(@, x.a)]
         [] x.o = "E" -> [o EXCEPT !.only = TRUE]
         [] x.o = "F" -> [o EXCEPT !.fail = TRUE]
         [] x.o = "S" -> [o EXCEPT !.sum = TRUE]
         [] x.o = "so" -> [o EXCEPT !.sum = TRUE, !.quiet = TRUE]
         [] x.o = "r" -> [o EXCEPT !.rec = TRUE]
         [] x.o = "s" -> [o EXCEPT !.src = TRUE]
         [] x.o = "hidden" -> [o EXCEPT !.hidden = TRUE]
         [] x.o = "v" -> [o EXCEPT !.verbose = TRUE]
         [] x.o = "c" -> [o EXCEPT !.cfg = TRUE]
         [] x.o = "ctx" -> [o EXCEPT !.ctx = Append(@, x.a), !.src = TRUE]
         [] OTHER -> o                       \* m, dbg
RECURSIVE ApplyOpts(_, _, _)
ApplyOpts(o, argv, i) == IF i > Len(argv) THEN o ELSE ApplyOpts(ApplyOpt(o, argv[i]), argv, i + 1)

TrueWords == {"true", "True", "TRUE", "yes", "Yes", "YES"}
FalseWords == {"false", "False", "FALSE", "no", "No", "NO"}
Severities == [convention |-> "C", style |-> "S", warning |-> "W", error |-> "E", fatal |-> "F"]
OrderNames == {"refpolicy", "refpolicy-light", "refpolicy-lax"}
Flavors == {"attribute", "attribute_role", "bool", "class", "role", "type"}
DefaultRequires == <<"bool", "class", "role", "attribute_role", "attribute", "type">>

Or(s, d) == IF s = "" THEN d ELSE s
CfgValid(g) ==
  LET q == IF g.oreqset THEN g.oreq ELSE DefaultRequires
  IN /\ g.syntax
     /\ Or(g.severity, "convention") \in DOMAIN Severities
     /\ Or(g.order, "refpolicy-lax") \in OrderNames
     /\ Len(q) = 6 /\ Range(q) = Flavors
     /\ Or(g.same, "true") \in TrueWords \cup FalseWords
     /\ Or(g.skipgen, "true") \in TrueWords \cup FalseWords
\* The settings in force; source: source mode.
NoCfg == [lvl |-> "", dis |-> <<>>, en |-> <<>>, users |-> <<"system_u">>, roles |-> <<"object_r">>,
          fcm |-> <<>>, tem |-> <<>>, order |-> "refpolicy-lax",
          oreq |-> <<"type", "type", "type", "type", "type", "type">>, same |-> TRUE, skipgen |-> TRUE]
FromCfg(g, source) ==
  [lvl |-> Severities[Or(g.severity, "convention")], dis |-> g.disable,
   en |-> IF source THEN g.en_source ELSE g.en_normal, users |-> g.users, roles |-> g.roles,
   fcm |-> g.fcm, tem |-> g.tem, order |-> Or(g.order, "refpolicy-lax"),
   oreq |-> IF g.oreqset THEN g.oreq ELSE DefaultRequires,
   same |-> Or(g.same, "true") \in TrueWords, skipgen |-> Or(g.skipgen, "true") \in TrueWords]

(* The outcome of start-up: exit (Running: go on), the options, the settings, *)
(* the ids warned about.                                                      *)
StartUp(c) ==
  LET o == ApplyOpts(NoOpts, c.argv, 1)
      useCfg == o.cfg
      g == IF useCfg /\ c.cfg.readable /\ CfgValid(c.cfg) THEN FromCfg(c.cfg, o.src) ELSE NoCfg
      ex == IF o.exit # Running THEN o.exit
            ELSE IF useCfg /\ ~c.cfg.readable THEN EX_USAGE
            ELSE IF useCfg /\ ~CfgValid(c.cfg) THEN EX_CONFIG
            ELSE IF o.only /\ o.en = <<>> THEN EX_USAGE
            ELSE IF c.args = <<>> THEN EX_USAGE
            \* An empty path cannot be scanned.
            ELSE IF \E i \in 1..Len(c.args) : c.args[i].path = "" THEN EX_USAGE
            ELSE IF \E i \in 1..Len(c.ctx) : c.ctx[i].path = "" THEN EX_USAGE
            ELSE Running
      Invalid(q) == { q[i] : i \in { j \in 1..Len(q) : ~ValidId(q[j]) } }
      cfgRead == useCfg /\ c.cfg.readable /\ CfgValid(c.cfg)
  IN [exit |-> ex, o |-> o, g |-> g,
      warned |-> IF o.exit # Running THEN {} ELSE
                 Invalid(o.dis) \cup Invalid(o.en) \cup (IF cfgRead THEN Invalid(g.dis) \cup Invalid(g.en) ELSE {})]

LevelRank(l) == CHOOSE i \in 1..5 : Levels[i] = l
LevelInForce(o, g) == IF o.lvl # "" THEN o.lvl ELSE IF g.lvl # "" THEN g.lvl ELSE "C"
Selected(id, o, g) ==
  IF o.only THEN InSeq(id, o.en)
  ELSE LET s0 == ~InSeq(id, g.dis)
           s1 == s0 \/ InSeq(id, g.en)
           s2 == s1 /\ ~InSeq(id, o.dis)
       IN s2 \/ InSeq(id, o.en)
Enabled(id, o, g) == Selected(id, o, g) /\ LevelRank(First(id)) >= LevelRank(LevelInForce(o, g))
EnabledSet(o, g) == { AllIds[i] : i \in { j \in 1..Len(AllIds) : Enabled(AllIds[j], o, g) } }
=============================================================================
