-------------------------------- MODULE SELint --------------------------------
(* A run of the checker as a state machine.  One behaviour per case: start-up *)
(* (command line, configuration), discovery and loading of support files,     *)
(* parsing of every file in the order of the program, the closure of the      *)
(* transform marks, the checks of every analysed file, and the final status.  *)
(*                                                                            *)
(* A case c is a record (see Options, Discovery, Support for argv, args, ctx, *)
(* cfg, tree, sups) with                                                      *)
(*   files   the policy files: [kind, raw, src, nl] (te, if: its lines        *)
(*           without line ends, and whether the last one has one) or          *)
(*           [kind, bad, lines] (fc).  What the text of a te or if file says  *)
(*           is found out first: bad (it is not a sentence of the language),  *)
(*           badl (the line of the first error) and nodes.                    *)
EXTENDS Support

Language == INSTANCE Grammar

CONSTANT Cases      \* sequence of cases

VARIABLES
  C,       \* the case
  phase,   \* "read", "start", "scan", "parse", "check", "done"
  pos,     \* what is parsed or checked next
  env,     \* outcome of start-up and discovery
  sym,     \* symbols known so far
  found,   \* findings so far: sequence of [f, l, id, w, cnt]
  exit     \* exit status, Running before the end
vars == <<C, phase, pos, env, sym, found, exit>>

FileOf(c, e) == c.files[c.tree[e.t].fid]
\* The module of a parsed file: its name without the last three characters.
ModOf(path) == LET b == BaseOf(path) IN SubSeq(b, 1, Len(b) - 3)
\* The module of a checked file: its name up to the last dot.  (The same.)
Unparsable(c, e) == e.t = 0 \/ c.tree[e.t].fid = 0 \/ FileOf(c, e).bad

NoEnv == [st |-> <<>>, d |-> <<>>, sup |-> NoSupport, on |-> {}, swarn |-> {}, queue |-> <<>>]
Init ==
  /\ C \in Range(Cases)
  /\ phase = "read" /\ pos = 1 /\ env = NoEnv /\ sym = EmptySym /\ found = <<>> /\ exit = Running

(******************************* the texts ***********************************)
ReadFile(f) ==
  IF ~f.raw THEN f
  ELSE LET r == TLCEval(Language!Parsed(f.src, f.nl, f.kind)) IN [f EXCEPT !.bad = r.bad, !.badl = r.badl, !.nodes = r.nodes]
ReadSup(s) ==
  IF ~s.raw THEN s
  ELSE LET r == TLCEval(Language!ParsedSupport(s.src, s.nl, s.kind))
       IN [s EXCEPT !.defs = r.defs, !.badat = IF r.bad THEN Len(r.defs) + 1 ELSE 0, !.badl = r.badl]
Prepared(c) ==
  [c EXCEPT !.files = TLCEval([ i \in 1..Len(@) |-> ReadFile(@[i]) ]), !.sups = TLCEval([ i \in 1..Len(@) |-> ReadSup(@[i]) ])]
Read ==
  /\ phase = "read"
  /\ phase' = "start" /\ C' = TLCEval(Prepared(C))
  /\ UNCHANGED <<pos, env, sym, found, exit>>

(******************************* start-up ************************************)
Assumed(g) == [ d \in ({ <<"user", u>> : u \in Range(g.users) } \cup { <<"role", r>> : r \in Range(g.roles) }) |-> "__assumed__" ]
InitialSym(s) == IF s.exit # Running THEN EmptySym ELSE [EmptySym EXCEPT !.decl = Assumed(s.g)]
Start ==
  /\ phase = "start"
  /\ LET s == StartUp(C)
     IN /\ env' = [env EXCEPT !.st = s]
        /\ sym' = InitialSym(s)
        /\ IF s.exit # Running THEN phase' = "done" /\ exit' = s.exit
           ELSE phase' = "scan" /\ UNCHANGED exit
  /\ UNCHANGED <<C, pos, found>>

\* The work list: files in parsing order, with the closure of the marks as a step.
Entries(step, q) == [ i \in 1..Len(q) |-> [step |-> step, e |-> q[i]] ]
Scanned(c, en, sy) ==
  LET d == TLCEval(Discover(c, en.st.o))
      l == TLCEval(LoadSupport(c, d, en.st.o, sy))
      macros == Len(l.sup.macroOrder) > 0
      on0 == EnabledSet(en.st.o, en.st.g)
      on1 == IF macros /\ CountOf(l.sym, "perm") > 0 THEN on0 ELSE on0 \ {"E-007"}
      on2 == IF CountOf(l.sym, "class") > 0 THEN on1 ELSE on1 \ {"E-008"}
  IN [sym |-> l.sym,
      env |-> [en EXCEPT !.d = d, !.sup = l.sup, !.swarn = l.warned, !.on = on2,
                 !.queue = Entries("if", d.if) \o Entries("if", d.cif) \o <<[step |-> "mark"]>>
                           \o Entries("te", d.cte) \o Entries("te", d.te) \o Entries("fc", d.fc)]]
Scan ==
  /\ phase = "scan"
  /\ LET r == TLCEval(Scanned(C, env, sym)) IN env' = r.env /\ sym' = r.sym
  /\ phase' = "parse" /\ pos' = 1
  /\ UNCHANGED <<C, found, exit>>

(******************************** parsing ************************************)
IfNodes(c, d) == LET q == d.if \o d.cif IN [ i \in 1..Len(q) |-> [nodes |-> FileOf(c, q[i]).nodes] ]
\* Whether entry q of the work list stops the run, and what it makes known.
Stops(c, q) == q.step # "mark" /\ Unparsable(c, q.e)
ParsedEntry(c, d, q, sy) ==
  CASE q.step = "mark" -> MarkTransform(sy, IfNodes(c, d))
    [] q.step = "fc" -> sy
    [] OTHER -> ParseFile(sy, [nodes |-> FileOf(c, q.e).nodes, mod |-> ModOf(q.e.path)])
Parse ==
  /\ phase = "parse"
  /\ IF pos > Len(env.queue)
     THEN phase' = "check" /\ pos' = 1 /\ UNCHANGED <<sym, exit>>
     ELSE IF Stops(C, env.queue[pos])
     THEN phase' = "done" /\ exit' = EX_SOFTWARE /\ UNCHANGED <<sym, pos>>
     ELSE sym' = ParsedEntry(C, env.d, env.queue[pos], sym) /\ pos' = pos + 1 /\ UNCHANGED <<phase, exit>>
  /\ UNCHANGED <<C, env, found>>

(******************************** checking ***********************************)
Users1 == {"AV", "XAV", "CALL", "TT", "RT", "RALLOW", "RTYPES", "ALIAS", "TYPEALIAS", "TATTR", "RATTR", "PERMISSIVE", "DECL"}
\* The checks that look at a node of kind k (C-001 is separate).
Applies(k) ==
  (IF k \in Users1 THEN <<"W-001", "W-002">> ELSE <<>>) \o
  (CASE k \in {"INTERFACE", "TEMPLATE"} -> <<"C-004">>
     [] k = "AV" -> <<"C-005", "C-007", "S-009", "S-010", "W-008", "E-007", "E-008">>
     [] k = "XAV" -> <<"C-005", "C-007">>
     [] k \in {"TT", "RT"} -> <<"E-008">>
     [] k = "DECL" -> <<"C-005", "S-005", "W-003", "W-011", "E-006">>
     [] k = "REQUIRE" -> <<"C-006", "S-001", "E-009">>
     [] k = "GENREQ" -> <<"C-006", "S-001", "S-008", "E-009">>
     [] k = "SEMICOLON" -> <<"S-003">>
     [] k = "CALL" -> <<"S-004", "W-005", "W-006", "W-007", "W-010">>
     [] k = "HEADER" -> <<"S-006", "W-009">>
     [] k = "OPTIONAL" -> <<"E-009">>
     [] k = "WORD" -> <<"E-010">>
     [] OTHER -> <<>>)

Find(id, x, i, s, sup, cfg) ==
  LET N == x.nodes
      n == N[i]
  IN CASE id = "C-004" -> C004(N, i)
       [] id = "C-005" -> C005(n)
       [] id = "C-006" -> C006(N, i, cfg)
       [] id = "C-007" -> C007(n, s)
       [] id = "S-001" -> S001(x, N, i)
       [] id = "S-003" -> S003
       [] id = "S-004" -> S004(x, N, i, s)
       [] id = "S-005" -> S005(x, N, i)
       [] id = "S-006" -> S006(n)
       [] id = "S-008" -> S008(n)
       [] id = "S-009" -> S009(n)
       [] id = "S-010" -> S010(n, sup)
       [] id = "W-001" -> W001(x, N, i, s)
       [] id = "W-002" -> W002(x, N, i, s)
       [] id = "W-003" -> W003(x, N, i)
       [] id = "W-005" -> W005(x, N, i, s, sup)
       [] id = "W-006" -> W006(n)
       [] id = "W-007" -> W007(n, s)
       [] id = "W-008" -> W008(n)
       [] id = "W-009" -> W009(x, n)
       [] id = "W-010" -> W010(n, s, sup)
       [] id = "W-011" -> W011(x, N, i, s)
       [] id = "E-006" -> E006(n, s)
       [] id = "E-007" -> E007(n, s, sup)
       [] id = "E-008" -> E008(n, s)
       [] id = "E-009" -> E009(N, i)
       [] id = "E-010" -> E010(N, i, cfg)
       [] OTHER -> None

Finding(x, ln, id, w) == [f |-> x.base, l |-> ln, id |-> id, w |-> w, cnt |-> id]
NodeFindings(x, i, on, s, sup, cfg) ==
  LET n == x.nodes[i]
      ids == Filter(Applies(n.k), LAMBDA id : id \in on /\ ~InSeq(id, n.ex))
      one(q) == LET r == Find(ids[q], x, i, s, sup, cfg)
                IN IF r = None THEN <<>> ELSE << Finding(x, n.ln, ids[q], r[1]) >>
  IN IF ids = <<>> THEN <<>> ELSE Flat([ q \in 1..Len(ids) |-> one(q) ])
FileFindings(x, on, s, sup, cfg) ==
  Flat([ i \in 1..Len(x.nodes) |-> NodeFindings(x, i, on, s, sup, cfg) ])
  \o (IF x.kind = "te" /\ "C-001" \in on /\ Len(x.nodes) > 0
      THEN LET q == OrderFindings(x, s, sup, cfg.order)
           IN [ i \in 1..Len(q) |-> [f |-> x.base, l |-> q[i].ln, id |-> q[i].id, w |-> q[i].w, cnt |-> q[i].cnt] ]
      ELSE <<>>)
FcFindings(x, on, s, cfg) ==
  LET line(j) ==
        LET e == FcLine(x.lines[j], cfg.fcm)
            ids == Filter(FcIds, LAMBDA id : id \in on)
            one(q) == LET r == FcFind(ids[q], x, e, s, cfg)
                      IN IF r = None THEN <<>> ELSE << Finding(x, j, ids[q], r[1]) >>
        IN CASE e.st = "error" -> IF "E-002" \in on THEN << Finding(x, j, "E-002", <<>>) >> ELSE <<>>
             [] e.st = "entry" -> IF ids = <<>> THEN <<>> ELSE Flat([ q \in 1..Len(ids) |-> one(q) ])
             [] OTHER -> <<>>
  IN Flat([ j \in 1..Len(x.lines) |-> line(j) ])

ToCheck(d) == d.te \o d.if \o d.fc
CheckOne(c, e, en, sy) ==
  LET b == BaseOf(e.path)
      m == LET j == LastIndex(b, ".") IN SubSeq(b, 1, j - 1)
      kind == Drop(Suffix(e.path), 1)
  IN IF kind = "fc"
     THEN FcFindings([kind |-> "fc", base |-> b, mod |-> m, lines |-> FileOf(c, e).lines], en.on, sy, en.st.g)
     ELSE FileFindings([kind |-> kind, base |-> b, mod |-> m, nodes |-> FileOf(c, e).nodes], en.on, sy, en.sup, en.st.g)
FinalExit(en, fnd) == IF en.st.o.fail /\ fnd # <<>> THEN EX_DATAERR ELSE EX_OK
Check ==
  /\ phase = "check"
  /\ LET q == ToCheck(env.d)
     IN IF pos > Len(q)
        THEN /\ phase' = "done"
             /\ exit' = FinalExit(env, found)
             /\ UNCHANGED <<pos, found>>
        ELSE /\ found' = found \o CheckOne(C, q[pos], env, sym)
             /\ pos' = pos + 1 /\ UNCHANGED <<phase, exit>>
  /\ UNCHANGED <<C, env, sym>>

Next == Read \/ Start \/ Scan \/ Parse \/ Check
Spec == Init /\ [][Next]_vars

(* The end of the behaviour of a case, as a function: [exit, found, env, sym].  *)
(* (The machine above ends there: Deterministic, in Properties.)               *)
RECURSIVE ParseQueue(_, _, _, _), CheckQueue(_, _, _, _, _)
ParseQueue(c, en, i, sy) ==
  IF i > Len(en.queue) THEN [ok |-> TRUE, sym |-> sy]
  ELSE IF Stops(c, en.queue[i]) THEN [ok |-> FALSE, sym |-> sy]
  ELSE ParseQueue(c, en, i + 1, TLCEval(ParsedEntry(c, en.d, en.queue[i], sy)))
CheckQueue(c, en, q, i, sy) ==
  IF i > Len(q) THEN <<>> ELSE TLCEval(CheckOne(c, q[i], en, sy)) \o CheckQueue(c, en, q, i + 1, sy)
Outcome(c) ==
  LET s == TLCEval(StartUp(c))
      en0 == [NoEnv EXCEPT !.st = s]
      sc == TLCEval(Scanned(c, en0, InitialSym(s)))
      pr == TLCEval(ParseQueue(c, sc.env, 1, sc.sym))
      fnd == TLCEval(CheckQueue(c, sc.env, ToCheck(sc.env.d), 1, pr.sym))
  IN IF s.exit # Running THEN [exit |-> s.exit, found |-> <<>>, env |-> en0, sym |-> InitialSym(s)]
     ELSE IF ~pr.ok THEN [exit |-> EX_SOFTWARE, found |-> <<>>, env |-> sc.env, sym |-> pr.sym]
     ELSE [exit |-> FinalExit(sc.env, fnd), found |-> fnd, env |-> sc.env, sym |-> pr.sym]

(***************************** summary of a run ******************************)
SeverityRank(id) == CASE First(id) = "C" -> 1 [] First(id) = "S" -> 2 [] First(id) = "W" -> 3 [] OTHER -> 4
Completed == phase = "done" /\ env.st.exit = Running /\ exit \in {EX_OK, EX_DATAERR}
CountId(q, id) == Cardinality({ i \in 1..Len(q) : q[i].cnt = id })
\* The lines of the summary, in the order of AllIds.
Summary(q) ==
  LET ids == Filter(AllIds, LAMBDA id : CountId(q, id) > 0)
  IN [ i \in 1..Len(ids) |-> [id |-> ids[i], n |-> CountId(q, ids[i])] ]
=============================================================================
