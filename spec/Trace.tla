-------------------------------- MODULE Trace --------------------------------
(* Conformance of recorded runs.  Every case carries in obs what the real     *)
(* program did; the behaviour of SELint for the case must end the same way.   *)
(*   obs.exit      exit status                                                *)
(*   obs.findings  printed findings [f, l, id, sev, w]; w: words of the text  *)
(*   obs.f001      printed syntax errors [f, l]                               *)
(*   obs.summary   summary lines [id, n]; shown: header seen; none: "(none)"  *)
(*   obs.warned    ids warned about; swarn: warnings about support files      *)
(*   obs.san       memory error or undefined behaviour was reported           *)
EXTENDS Properties, Json, IOUtils

Recorded == ndJsonDeserialize(IOEnv.CASES)
Property == IOEnv.PROPERTY

\* The check ids a property is about.
IdsOf(p) ==
  CASE p = "P11" -> {"W-001"}
    [] p = "P12" -> {"W-002", "W-003", "W-011"}
    [] p = "P13" -> {"W-005", "W-006", "W-007", "W-010", "S-004"}
    [] p = "P14" -> {"C-005", "C-007", "W-008", "E-007", "E-008"}
    [] p = "P15" -> {"S-009", "S-010"}
    [] p = "P16" -> {"C-001", "F-002"}
    [] p = "P17" -> {"C-004", "C-006", "S-001", "S-003", "S-005", "S-008", "E-009", "E-010", "F-002"}
    [] p \in {"P18", "P19"} -> {"E-002", "E-003", "E-004", "E-005", "S-002", "S-007", "W-004"}
    [] p = "P20" -> {"S-006", "W-009", "E-006"}
    [] OTHER -> Range(AllIds) \cup {"F-002"}
\* Properties that say what a finding names.
Worded == {"P06", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P19", "P20", "P23"}

O == C.obs
Ids == IdsOf(Property)
Mine(q) == Filter(q, LAMBDA r : r.id \in Ids)
Predicted == IF Completed /\ ~env.st.o.quiet THEN Mine(found) ELSE <<>>
Key(r) == <<r.f, r.l, r.id>>

\* The words w occur in the text t in this order; quotes are not compared.
Unquoted(s) == IF Len(s) >= 2 /\ First(s) = "\"" THEN SubSeq(s, 2, Len(s) - 1) ELSE s
RECURSIVE WordsIn(_, _)
WordsIn(w, t) ==
  IF w = <<>> THEN TRUE
  ELSE IF w[1] = "" THEN WordsIn(Tail(w), t)
  ELSE IF Unquoted(w[1]) # w[1] THEN WordsIn(<<Unquoted(w[1])>> \o Tail(w), t)
  ELSE LET j == FirstIdx(Len(t), LAMBDA q : t[q] = w[1])
       IN j # 0 /\ WordsIn(Tail(w), SubSeq(t, j + 1, Len(t)))

Bag(q) ==
  LET keys == { Key(q[i]) : i \in 1..Len(q) }
      kq == TLCEval([ i \in 1..Len(q) |-> Key(q[i]) ])
  IN [ k \in keys |-> Cardinality({ i \in 1..Len(q) : kq[i] = k }) ]
Get(b, k) == IF k \in DOMAIN b THEN b[k] ELSE 0

FindingDiff ==
  LET p == TLCEval(Predicted)
      o == TLCEval(Mine(O.findings))
      bp == TLCEval(Bag(p))
      bo == TLCEval(Bag(o))
      ks == { k \in DOMAIN bp \cup DOMAIN bo : Get(bp, k) # Get(bo, k) }
      named == IF Property \notin Worded THEN {}
               ELSE { i \in 1..Len(p) : Key(p[i]) \notin ks /\
                        ~\E j \in 1..Len(o) : Key(o[j]) = Key(p[i]) /\ WordsIn(p[i].w, o[j].w) }
      orphan == IF Property \notin Worded THEN {}
               ELSE { j \in 1..Len(o) : Key(o[j]) \notin ks /\
                        ~\E i \in 1..Len(p) : Key(o[j]) = Key(p[i]) /\ WordsIn(p[i].w, o[j].w) }
  IN { <<"count", k[1], k[2], k[3], Get(bp, k), Get(bo, k)>> : k \in ks }
     \cup { <<"words", p[i].f, p[i].l, p[i].id, p[i].w>> : i \in named }
     \cup { <<"text", o[j].f, o[j].l, o[j].id, o[j].w>> : j \in orphan }
     \cup { <<"severity", O.findings[j].f, O.findings[j].l, O.findings[j].id, O.findings[j].sev>> :
              j \in { i \in 1..Len(O.findings) : O.findings[i].sev # First(O.findings[i].id) } }

\* The syntax error a failed parse reports: the file that stopped the run.
Stopper == IF env.st.exit = Running /\ exit = EX_SOFTWARE THEN env.queue[pos].e ELSE [path |-> "", t |-> 0, up |-> ""]
SyntaxErrors ==
  IF Stopper.t = 0 \/ C.tree[Stopper.t].fid = 0 THEN {}
  ELSE { <<BaseOf(Stopper.path), FileOf(C, Stopper).badl>> }
\* Support files that do not parse are reported in the same way.
SupportErrors ==
  LET line(t) == LET s == C.sups[C.tree[t].sid] IN IF s.raw THEN s.badl ELSE 0
  IN (IF "av-failed" \in env.swarn THEN { <<"access_vectors", line(env.d.av)>> } ELSE {})
     \cup (IF "spt-failed" \in env.swarn THEN { <<"obj_perm_sets.spt", line(env.d.spt)>> } ELSE {})
SyntaxDiff ==
  LET seen == { O.f001[i].f : i \in 1..Len(O.f001) }
      line(f) == LET j == FirstIdx(Len(O.f001), LAMBDA i : O.f001[i].f = f) IN O.f001[j].l
      all == SyntaxErrors \cup SupportErrors
  IN IF seen # { s[1] : s \in all } THEN { <<"syntax", SyntaxErrors, SupportErrors, O.f001>> }
     ELSE { <<"syntax line", s, line(s[1])>> : s \in { t \in all : t[2] # 0 /\ line(t[1]) # t[2] } }

SummaryDiff ==
  LET show == Completed /\ env.st.o.sum
      s == IF show THEN Summary(found) ELSE <<>>
  IN (IF O.shown # show THEN { <<"shown", show>> } ELSE {})
     \cup (IF [ i \in 1..Len(O.summary) |-> <<O.summary[i].id, O.summary[i].n>> ]
              # [ i \in 1..Len(s) |-> <<s[i].id, s[i].n>> ] THEN { <<"summary", s, O.summary>> } ELSE {})
     \cup (IF O.none # (show /\ s = <<>>) THEN { <<"none", show /\ s = <<>>>> } ELSE {})

ExitDiff == (IF O.exit # exit THEN { <<"exit", exit, O.exit>> } ELSE {})
            \cup (IF O.san THEN { <<"sanitizer">> } ELSE {})
WarnDiff == (IF Range(O.warned) # env.st.warned THEN { <<"warned", env.st.warned, O.warned>> } ELSE {})
            \cup (IF Range(O.swarn) # env.swarn THEN { <<"support warnings", env.swarn, O.swarn>> } ELSE {})

\* Of a damaged input only the kind of end is known: a documented status.
Documented == {0, EX_USAGE, EX_DATAERR, EX_SOFTWARE, EX_CONFIG}
FreeDiff == IF O.exit \in Documented /\ ~O.san THEN {} ELSE { <<"end", O.exit, O.san>> }
Diff == IF C.free THEN FreeDiff ELSE FindingDiff \cup SyntaxDiff \cup ExitDiff \cup SummaryDiff
             \cup (IF Property \in {"P01", "P07", "P22"} THEN WarnDiff ELSE {})

(* Conformance of a run.  A rejected run is reported and counted; the count    *)
(* must be zero in the end.  (A violated invariant would do as well, but TLC  *)
(* rebuilds the whole behaviour for each one.)                                *)
Reported(d) == PrintT("REJECT " \o ToJson([case |-> C.id, diff |-> d])) /\ TLCSet(1, 1 + TLCGet(1))
ASSUME TLCSet(1, 0)
Conforms == phase = "done" => LET d == TLCEval(Diff) IN d = {} \/ Reported(d)
AllConform == \A n \in Range(TLCGet("all")[1]) : n = 0

(* The properties of the specification itself, on every Every-th case: an end  *)
(* of a behaviour that breaks one is reported and counted in register 2.      *)
Every == ToNat(IOEnv.EVERY, 0)
ASSUME TLCSet(2, 0)
Wrong(what) == PrintT("BROKEN " \o ToJson([case |-> C.id, property |-> what])) /\ TLCSet(2, 1 + TLCGet(2))
Sampled == ~C.free /\ Every > 0 /\ C.id > 0 /\ C.id % Every = 0
Sound == TypeOK /\ (phase = "done" /\ Sampled => (Deterministic \/ Wrong("Deterministic")) /\ (Holds(Property) \/ Wrong(Property)))
AllSound == \A n \in Range(TLCGet("all")[2]) : n = 0
Ends == AllConform /\ AllSound

\* The trees of the cases are linked consistently, and those that their author *)
\* meant (files: chk says that the case tells) are those that were read.
Meant(f) == f.chk => f.bad = f.meant.bad /\ (f.meant.badl # 0 => f.badl = f.meant.badl) /\ (~f.bad => f.nodes = f.meant.nodes)
MeantSup(s) == s.chk =>
  IF s.kind = "av" THEN LoadAv(EmptySym, s) = LoadAv(EmptySym, s.meant)
  ELSE LET load(f) == LoadSpt([order |-> <<>>, macros |-> EmptyFn], f.defs, 1, Upto(f.defs, f.badat)) IN load(s) = load(s.meant) /\ (s.badat = 0) = (s.meant.badat = 0)
Shape == phase = "start" =>
  /\ \A i \in 1..Len(C.files) : C.files[i].kind = "fc" \/ C.files[i].bad \/ WellFormed(C.files[i].nodes)
  /\ \A i \in 1..Len(C.files) : Meant(C.files[i]) \/ Wrong(<<"Meant", i, C.files[i].src>>)
  /\ \A i \in 1..Len(C.sups) : MeantSup(C.sups[i]) \/ Wrong(<<"MeantSup", i, C.sups[i].src>>)
View == <<C.id, phase, pos, Len(found), exit>>

Short == [case |-> C.id, phase |-> phase]
===============================================================================
