------------------------------ MODULE Properties ------------------------------
(* The properties, stated over whole runs.  SELint says what every run does,  *)
(* step by step; here is what must be true of it, written independently of    *)
(* those steps: bounds, frame conditions, and relations between the run of a  *)
(* case and the run of a changed case (Outcome).  Evaluated at the end of     *)
(* the behaviour of a case.                                                   *)
EXTENDS SELint

Ended == phase = "done" /\ env.st.exit = Running       \* the analysis was started
Finished == Ended /\ exit # EX_SOFTWARE                \* and was not cut short

(****************************** auxiliaries **********************************)
KeyOf(r) == <<r.f, r.l, r.id>>
BagOf(q) ==
  LET kq == TLCEval([ i \in 1..Len(q) |-> KeyOf(q[i]) ])
  IN [ k \in Range(kq) |-> Cardinality({ i \in 1..Len(q) : kq[i] = k }) ]
At(b, k) == IF k \in DOMAIN b THEN b[k] ELSE 0
Plain(q) == [ i \in 1..Len(q) |-> KeyOf(q[i]) ]
Reverse(q) == [ i \in 1..Len(q) |-> q[Len(q) + 1 - i] ]
IsSubBag(a, b) == \A k \in DOMAIN a : a[k] <= At(b, k)

Checked == env.d.te \o env.d.if \o env.d.fc
Parsed == env.d.if \o env.d.cif \o env.d.te \o env.d.cte
\* The parsed te and if files: [base, mod, main, N].
Sources == { [base |-> BaseOf(Parsed[i].path), mod |-> ModOf(Parsed[i].path), main |-> i <= Len(env.d.if) \/ InSeq(Parsed[i], env.d.te),
              kind |-> Drop(Suffix(Parsed[i].path), 1), N |-> FileOf(C, Parsed[i]).nodes] : i \in 1..Len(Parsed) }
MainSources == { x \in Sources : x.main }
Ctx(x) == [kind |-> x.kind, base |-> x.base, mod |-> x.mod, nodes |-> x.N]
ForNodes(P(_, _)) == \A x \in MainSources : \A i \in 1..Len(x.N) : P(x, i)
FcTexts == { C.files[C.tree[env.d.fc[i].t].fid].lines : i \in 1..Len(env.d.fc) }

(******************************** the machine ********************************)
Phases == {"read", "start", "scan", "parse", "check", "done"}
TypeOK ==
  /\ phase \in Phases /\ pos \in Nat
  /\ exit \in {Running, EX_OK, EX_USAGE, EX_DATAERR, EX_SOFTWARE, EX_CONFIG}
  /\ (phase = "done") = (exit # Running)
  /\ phase \in {"read", "start", "scan", "parse"} => found = <<>>
  /\ phase \in {"scan", "parse", "check"} => env.st.exit = Running
\* What is known stays known, with its owner; findings are only added; one exit.
Grow ==
  /\ \A k \in DOMAIN sym.decl : k \in DOMAIN sym'.decl /\ sym'.decl[k] = sym.decl[k]
  /\ \A k \in DOMAIN sym.ifs : k \in DOMAIN sym'.ifs /\ sym'.ifs[k] = sym.ifs[k]
  /\ sym.transform \subseteq sym'.transform /\ sym.filetrans \subseteq sym'.filetrans /\ sym.roleif \subseteq sym'.roleif
  /\ Len(found) <= Len(found') /\ SubSeq(found', 1, Len(found)) = found
  /\ exit # Running => exit' = exit
  /\ phase = "check" => sym' = sym /\ env' = env
Monotone == [][Grow]_vars
Deterministic == LET r == Outcome(C) IN r.exit = exit /\ r.found = found /\ r.sym = sym /\ r.env = env

(******************************** the texts **********************************)
\* The te and if files of the case that come as a text and are read.
Texts == { f \in Range(C.files) : f.kind # "fc" /\ f.raw }
ReadAs(f, src) == Language!Parsed(src, f.nl, f.kind)
Moved(N, d) == [ j \in 1..Len(N) |-> [N[j] EXCEPT !.ln = @ + d] ]
\* Lines that change nothing but the lines behind them.
Filler == <<"", "\t ", "dnl allow a b:c d; '", "\r", "", "dnl", " ">>
LaidOut == \A f \in Texts : (~f.bad) =>
  /\ LET r == ReadAs(f, Filler \o f.src) IN ~r.bad /\ r.nodes = Moved(f.nodes, Len(Filler))
  /\ LET r == ReadAs(f, [ j \in 1..Len(f.src) |-> "\t" \o f.src[j] ]) IN ~r.bad /\ r.nodes = f.nodes
\* A text without its disable comments.
Stripped(f) ==
  LET T == Language!Tokens(f.src, f.nl)
      L == { T[i].ln : i \in { j \in 1..Len(T) : T[j].t = "DISABLE" } }
  IN [ j \in 1..Len(f.src) |-> IF j \in L THEN SubSeq(f.src[j], 1, Index(f.src[j], "#") - 1) ELSE f.src[j] ]
CommentsOnly == \A f \in Texts : (~f.bad) =>
  LET r == ReadAs(f, Stripped(f)) IN ~r.bad /\ r.nodes = [ j \in 1..Len(f.nodes) |-> [f.nodes[j] EXCEPT !.ex = <<>>] ]
\* What is wrong stays wrong, and where it is, whatever follows; what is right goes wrong where something wrong follows.
PrefixErrors == \A f \in Texts : f.nl =>
  LET r == ReadAs(f, Append(f.src, ")"))
  IN r.bad /\ (IF f.bad /\ f.badl <= Len(f.src) THEN r.badl = f.badl ELSE r.badl = Len(f.src) + 1)
HasHeader(f) == \E i \in 1..Len(f.nodes) : f.nodes[i].k = "HEADER"
\* One statement more is one node more.
OneMore == \A f \in Texts : (f.nl /\ ~f.bad /\ HasHeader(f)) =>
  LET r == ReadAs(f, Append(f.src, ";"))
      n == Len(f.nodes)
  IN /\ ~r.bad /\ Len(r.nodes) = n + 1
     /\ r.nodes[n + 1].k = "SEMICOLON" /\ r.nodes[n + 1].ln = Len(f.src) + 1 /\ r.nodes[n + 1].p = 0
     /\ \A i \in 1..n : [r.nodes[i] EXCEPT !.nx = 0] = [f.nodes[i] EXCEPT !.nx = 0]

(************************* P01: which checks run *****************************)
Wanted(id) ==
  LET o == env.st.o  g == env.st.g
      said == CASE InSeq(id, o.en) -> TRUE
                [] o.only -> FALSE
                [] InSeq(id, o.dis) -> FALSE
                [] InSeq(id, g.en) -> TRUE
                [] OTHER -> ~InSeq(id, g.dis)
      least == IF o.lvl # "" THEN o.lvl ELSE IF g.lvl # "" THEN g.lvl ELSE "C"
      rank == [ l \in {"C", "S", "W", "E", "F"} |-> CHOOSE i \in 1..5 : Ch("CSWEF", i) = l ]
  IN said /\ rank[First(id)] >= rank[least]
With(c, opt, id) == [c EXCEPT !.argv = Append(@, [o |-> opt, a |-> id])]
PropP01 == Ended =>
  /\ \A id \in env.on : Wanted(id)
  /\ Finished => \A id \in Range(AllIds) \ {"E-007", "E-008"} : Wanted(id) => id \in env.on
  /\ \A i \in 1..Len(found) : found[i].cnt \in env.on
  /\ found # <<>> =>
       LET id == found[1].cnt
           less == Outcome(With(C, "d", id))
           same == Outcome(With(C, "e", id))
       IN /\ same.found = found
          /\ (~env.st.o.only /\ ~InSeq(id, env.st.o.en)) => less.found = Filter(found, LAMBDA r : r.cnt # id)
          /\ less.sym = sym

(********************** P02: disabling in the source *************************)
Undisabled(c) ==
  [c EXCEPT !.files = [ i \in 1..Len(@) |-> [@[i] EXCEPT !.nodes = [ j \in 1..Len(@) |-> [@[j] EXCEPT !.ex = <<>>] ]] ]]
NodesAt(f, l) == UNION { { [n |-> x.N[i]] : i \in { j \in 1..Len(x.N) : x.N[j].ln = l } } : x \in { y \in MainSources : y.base = f } }
PropP02 == Finished =>
  LET r == Outcome(Undisabled(C))
      a == BagOf(Filter(found, LAMBDA q : q.cnt # "C-001"))
      b == BagOf(Filter(r.found, LAMBDA q : q.cnt # "C-001"))
  IN /\ CommentsOnly
     /\ r.sym = sym /\ r.env = env
     /\ IsSubBag(a, b)
     /\ \A k \in DOMAIN b : At(a, k) < b[k] =>
          LET at == NodesAt(k[1], k[2])
          IN /\ \E m \in at : InSeq(k[3], m.n.ex)
             /\ (\A m \in at : InSeq(k[3], m.n.ex)) => At(a, k) = 0

(************************ P03: summary and status ****************************)
Rank(id) == SeverityRank(id)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Total(Tail(s))
Toggled(c) == With(c, "so", "")
PropP03 == Finished =>
  LET s == Summary(found)
  IN /\ \A i \in 1..(Len(s) - 1) :
          Rank(s[i].id) < Rank(s[i + 1].id) \/ (Rank(s[i].id) = Rank(s[i + 1].id) /\ StrCmp(s[i].id, s[i + 1].id) < 0)
     /\ Total(s) = Len(found) /\ \A i \in 1..Len(s) : s[i].n > 0
     /\ exit = EX_DATAERR <=> (env.st.o.fail /\ Len(found) > 0)
     /\ exit \in {EX_OK, EX_DATAERR}
     /\ LET r == Outcome(Toggled(C)) IN r.found = found /\ r.exit = exit

(*********************** P04: what cannot be read ****************************)
Queued == { i \in 1..Len(env.queue) : env.queue[i].step # "mark" }
Broken(c, f) == [c EXCEPT !.files[f].bad = TRUE]
PropP04 == Ended =>
  /\ PrefixErrors
  /\ exit = EX_SOFTWARE <=> \E i \in Queued : Unparsable(C, env.queue[i].e)
  /\ exit = EX_SOFTWARE => found = <<>>
  /\ (exit # EX_SOFTWARE /\ Queued # {}) =>
       LET r == Outcome(Broken(C, C.tree[env.queue[Max(Queued)].e.t].fid))
       IN r.exit = EX_SOFTWARE /\ r.found = <<>>

(*************************** P05: which files ********************************)
RECURSIVE Reach(_, _)
Reach(S, open) ==   \* entries reachable from S through directories that are entered
  LET more == UNION { Range(C.tree[t].kids) : t \in { u \in S : C.tree[u].dir /\ u \in open } }
  IN IF more \subseteq S THEN S ELSE Reach(S \cup more, open)
NameSuffix(t, suf) == LET s == C.tree[t].name IN ~C.tree[t].dir /\ EndsWith(s, suf)
PropP05 == Ended =>
  LET dirs == { t \in 1..Len(C.tree) : C.tree[t].dir }
      argDirs == { C.args[i].t : i \in { j \in 1..Len(C.args) : C.args[j].t # 0 /\ ~Hidden(BaseOf(C.args[j].path)) } }
      openMain == IF env.st.o.rec THEN (IF env.st.o.hidden THEN dirs ELSE { t \in dirs : ~Hidden(C.tree[t].name) }) \cup (argDirs \cap dirs) ELSE {}
      main == Reach({ C.args[i].t : i \in 1..Len(C.args) } \ {0}, openMain)
      ctx == Reach({ C.ctx[i].t : i \in 1..Len(C.ctx) } \ {0}, dirs)
      Set(q) == { q[i].t : i \in 1..Len(q) } \ {0}
      Of(S, suf) == { t \in S : NameSuffix(t, suf) }
  IN /\ \A suf \in {".te", ".if", ".fc"} :
          LET q == CASE suf = ".te" -> env.d.te [] suf = ".if" -> env.d.if [] OTHER -> env.d.fc
          IN { t \in Set(q) : ~C.tree[t].dir } = Of(main, suf)
     /\ Set(env.d.cte) \subseteq Of(ctx, ".te") /\ Set(env.d.cif) \subseteq Of(ctx, ".if")
     /\ Of(ctx, ".te") \subseteq Of(main, ".te") \cup Set(env.d.cte)
     /\ Of(ctx, ".if") \subseteq Of(main, ".if") \cup Set(env.d.cif)
     /\ ~env.st.o.src => env.d.av = 0 /\ env.d.mods = 0 /\ env.d.spt = 0
     /\ \A t \in {env.d.av, env.d.mods, env.d.spt} : t \in main \cup ctx \cup {0}

(******************************* P06: context ********************************)
AsArgs(c) == [With(With(c, "r", ""), "hidden", "") EXCEPT !.args = @ \o c.ctx, !.ctx = <<>>]
NoTemplatesInTe == \A x \in Sources : x.kind = "te" => \A i \in 1..Len(x.N) : x.N[i].k # "TEMPLATE"
DeclNames(s) == { k \in DOMAIN s.decl : k[1] \notin {"class", "perm"} }
PropP06 == Ended =>
  /\ \A i \in 1..Len(found) : found[i].f \in { BaseOf(Checked[j].path) : j \in 1..Len(Checked) }
  /\ (Finished /\ C.ctx # <<>> /\ NoTemplatesInTe) =>
       LET r == Outcome(AsArgs(C))
       IN (/\ r.exit # EX_SOFTWARE
           /\ PathsOf(r.env.d.te) = PathsOf(env.d.te) \cup PathsOf(env.d.cte)
           /\ PathsOf(r.env.d.if) = PathsOf(env.d.if) \cup PathsOf(env.d.cif))
          => /\ DeclNames(r.sym) = DeclNames(sym)
             /\ DOMAIN r.sym.ifs = DOMAIN sym.ifs
             /\ r.sym.transform = sym.transform /\ r.sym.filetrans = sym.filetrans /\ r.sym.roleif = sym.roleif

(************************ P07: command line, settings ************************)
Deciding(x) == x.o \in {"h", "V", "bad"} \/ (x.o = "l" /\ First(x.a) \notin Range(Levels)) \/ (x.o = "color" /\ x.a \notin {"on", "off", "auto"})
PropP07 ==
  LET j == FirstIdx(Len(C.argv), LAMBDA i : Deciding(C.argv[i]))
  IN phase = "done" =>
     /\ (j # 0) => exit = IF C.argv[j].o \in {"h", "V"} THEN EX_OK ELSE EX_USAGE
     /\ env.st.exit # Running => found = <<>> /\ env.queue = <<>> /\ exit = env.st.exit
     /\ exit \in {EX_USAGE, EX_CONFIG} => env.st.exit # Running
     /\ exit = EX_CONFIG => env.st.o.cfg /\ C.cfg.readable
     /\ (j = 0 /\ C.args = <<>> /\ exit # EX_CONFIG) => exit = EX_USAGE
     \* what is wrong with an id is only a warning
     /\ env.st.warned \cap { id \in Range(AllIds) : TRUE } = {}

(******************************* P08: places *********************************)
Shift == 7
Shifted(c) ==
  [c EXCEPT !.files = [ i \in 1..Len(@) |->
     IF @[i].kind = "fc" THEN [@[i] EXCEPT !.lines = [ j \in 1..Shift |-> "" ] \o @]
     ELSE [@[i] EXCEPT !.nodes = [ j \in 1..Len(@) |-> [@[j] EXCEPT !.ln = @ + Shift] ]] ]]
PropP08 == Finished =>
  LET r == Outcome(Shifted(C))
  IN /\ LaidOut
     /\ Plain(r.found) = [ i \in 1..Len(found) |-> <<found[i].f, found[i].l + Shift, found[i].id>> ]
     /\ \A i \in 1..Len(found) :
          \E j \in 1..Len(Checked) :
            /\ BaseOf(Checked[j].path) = found[i].f
            /\ LET f == FileOf(C, Checked[j])
               IN IF f.kind = "fc" THEN found[i].l \in 1..Len(f.lines) ELSE \E q \in 1..Len(f.nodes) : f.nodes[q].ln = found[i].l

(************************ P10, P23: what is declared *************************)
\* Parameters replaced character by character.
RECURSIVE Replace(_, _)
Replace(s, args) ==
  IF s = "" THEN ""
  ELSE IF First(s) # "$" THEN First(s) \o Replace(Drop(s, 1), args)
  ELSE LET e == CHOOSE q \in 1..Len(s) : (q = Len(s) \/ Ch(s, q + 1) \notin Digits) /\ \A h \in 2..q : Ch(s, h) \in Digits
           num == IF e = 1 THEN 1 ELSE Max({1, ToNat(SubSeq(s, 2, e), 0)})
       IN (IF num <= Len(args) THEN args[num] ELSE "") \o Replace(Drop(s, e), args)
Bare(s) == \E i \in 1..Len(s) : Ch(s, i) = "$" /\ (i = Len(s) \/ Ch(s, i + 1) \notin Digits)

TmplNodes(name) ==   \* the declarations and calls of the templates of that name: [n]
  UNION { { x.N[i] : i \in { j \in 1..Len(x.N) : TemplateOf(x.N, j) # 0 /\ x.N[TemplateOf(x.N, j)].name = name /\
             (x.N[j].k \in {"ALIAS", "CALL"} \/ (x.N[j].k = "DECL" /\ ~InRequire(x.N, j))) } } : x \in Sources }
TmplNames == UNION { { x.N[i].name : i \in { j \in 1..Len(x.N) : x.N[j].k = "TEMPLATE" } } : x \in Sources }
DeclOf(n) == IF n.k = "ALIAS" THEN <<"type", n.str>> ELSE <<n.fl, n.name>>
\* Everything a call declares; the mark <<"error", "">> if it cannot be expanded.
RECURSIVE Expansion(_, _, _, _)
Expansion(T, name, args, chain) ==
  IF name \notin DOMAIN T THEN {}
  ELSE IF name \in chain THEN { <<"error", "">> }
  ELSE UNION { IF n.k = "CALL"
               THEN IF \E j \in 1..Len(n.args) : Bare(n.args[j]) THEN { <<"error", "">> }
                    ELSE Expansion(T, n.name, [ j \in 1..Len(n.args) |-> Replace(n.args[j], args) ], chain \cup {name})
               ELSE IF Bare(DeclOf(n)[2]) THEN { <<"error", "">> }
               ELSE { <<DeclOf(n)[1], Replace(DeclOf(n)[2], args)>> } : n \in T[name] }
Templates == [ t \in TmplNames |-> TmplNodes(t) ]
\* Declarations with the modules that make them: set of <<flavor, name, module>>.
Direct == UNION { { <<DeclOf(x.N[i])[1], DeclOf(x.N[i])[2], x.mod>> :
    i \in { j \in 1..Len(x.N) : /\ x.N[j].k \in {"DECL", "ALIAS"} /\ TemplateOf(x.N, j) = 0
                                /\ x.N[j].k = "DECL" => ~InRequire(x.N, j) /\ First(x.N[j].name) # "$" } } : x \in Sources }
ByCall(kinds) == LET T == TLCEval(Templates)
  IN UNION { UNION { { <<d[1], d[2], x.mod>> : d \in Expansion(T, x.N[i].name, x.N[i].args, {}) } :
       i \in { j \in 1..Len(x.N) : x.N[j].k = "CALL" /\ TemplateOf(x.N, j) = 0 } } : x \in { y \in Sources : y.kind \in kinds } }
Assumption == { <<"user", u, "__assumed__">> : u \in Range(env.st.g.users) } \cup { <<"role", r, "__assumed__">> : r \in Range(env.st.g.roles) }
RECURSIVE Below(_)
Below(t) == UNION { {k} \cup Below(k) : k \in Range(C.tree[t].kids) }
OfKernel == IF env.st.o.src \/ C.kern = 0 THEN {}
  ELSE { IF C.tree[t].dir THEN <<"class", C.tree[t].name, "__kernel__">> ELSE <<"perm", C.tree[t].name, "__kernel__">> :
           t \in { k \in Below(C.kern) : C.tree[k].name # IF C.tree[k].dir THEN "perms" ELSE "index" } }
Vectors == IF env.d.av = 0 THEN OfKernel
  ELSE LET f == C.sups[C.tree[env.d.av].sid]
           n == Upto(f.defs, f.badat)
       IN { <<"class", f.defs[i].cls, "__av_file__">> : i \in { j \in 1..n : f.defs[j].cls # "" } }
          \cup UNION { { <<"perm", p, "__av_file__">> : p \in Range(f.defs[i].perms) } : i \in 1..n }
Pairs(S) == { <<d[1], d[2]>> : d \in S }
DeclarationsRight ==
  LET te == TLCEval(ByCall({"te"}))
      if == TLCEval(ByCall({"if"}))
      sure == TLCEval(Direct \cup Assumption \cup Vectors)
      all == TLCEval(sure \cup te \cup if)
      known == { <<k[1], k[2], sym.decl[k]>> : k \in DOMAIN sym.decl }
      err == \E d \in te \cup if : d[1] = "error"
  IN /\ known \subseteq all
     /\ Pairs(sure) \subseteq DOMAIN sym.decl
     \* the closure of the calls; in an interface only templates met before count
     /\ (~err /\ NoTemplatesInTe) => Pairs(te) \subseteq DOMAIN sym.decl
     /\ \A d \in Assumption : sym.decl[<<d[1], d[2]>>] = "__assumed__"
PropP10 == Finished => DeclarationsRight
PropP23 == Finished =>
  /\ DeclarationsRight
  \* a name in one kind says nothing about another kind; interfaces have one owner
  /\ \A k \in DOMAIN sym.ifs : \E x \in Sources : x.mod = sym.ifs[k] /\ \E i \in 1..Len(x.N) : IsDef(x.N[i]) /\ x.N[i].name = k
  /\ \A x \in Sources : \A i \in 1..Len(x.N) : IsDef(x.N[i]) => x.N[i].name \in DOMAIN sym.ifs

(************************* P09: order, presentation **************************)
Ambiguous ==
  LET all == Direct \cup ByCall({"te", "if"})
      defs == UNION { { <<x.N[i].name, x.mod>> : i \in { j \in 1..Len(x.N) : IsDef(x.N[j]) } } : x \in Sources }
      names == [ i \in 1..Len(Parsed) |-> BaseOf(Parsed[i].path) ]
  IN \/ \E a, b \in all : a[1] = b[1] /\ a[2] = b[2] /\ a[3] # b[3]
     \/ \E a, b \in defs : a[1] = b[1] /\ a[2] # b[2]
     \/ Cardinality(Range(names)) < Len(names)
     \/ \E d \in all : d[1] = "error"
     \/ ByCall({"if"}) # {} \/ ~NoTemplatesInTe
     \/ \E n \in {"access_vectors", "modules.conf", "obj_perm_sets.spt"} :
          Cardinality({ i \in 1..Len(C.tree) : C.tree[i].name = n }) > 1
Reversed(c) == [c EXCEPT !.args = Reverse(@), !.ctx = Reverse(@), !.tree = [ i \in 1..Len(@) |-> [@[i] EXCEPT !.kids = Reverse(@)] ]]
Presented(c) == With(With(With(c, "S", ""), "v", ""), "color", "on")
PropP09 == Finished =>
  /\ ~Ambiguous => LET r == Outcome(Reversed(C)) IN BagOf(r.found) = BagOf(found) /\ r.exit = exit
  /\ LET p == Outcome(Presented(C)) IN p.found = found /\ p.exit = exit

(***************************** P11: W-001 ************************************)
\* The reach of a require block: its own block, from itself to the end.
InReach(N, r, i) == r <= i /\ (N[r].p = 0 \/ i <= LastDesc(N, N[r].p))
OwnerIn(nm) == LET fl == KindOf(sym, nm, <<"type", "attribute", "attribute_role">>) IN IF fl = "" THEN "" ELSE Owner(sym, nm, fl)
PropP11 == Finished =>
  /\ ForNodes(LAMBDA x, i : LET v == Visible(x.N, i) IN \A r \in 1..Len(x.N) : IsReq(x.N[r]) => ((r \in v) <=> InReach(x.N, r, i)))
  /\ ForNodes(LAMBDA x, i :
       LET w == W001(Ctx(x), x.N, i, sym)
       IN w # None => /\ x.kind = "te"
                      /\ w[1][1] \in Range(Names(x.N[i])) /\ OwnerIn(w[1][1]) = w[1][4] /\ w[1][4] # x.mod
                      /\ \A r \in 1..Len(x.N) : (IsReq(x.N[r]) /\ InReach(x.N, r, i)) =>
                           ~ListsName(x.N, r, w[1][1], KindOf(sym, w[1][1], <<"type", "attribute", "attribute_role">>)))

(************************ P12: interface requirements ************************)
PropP12 == Finished =>
  ForNodes(LAMBDA x, i :
    LET n == x.N[i]
        w2 == IF n.k \in Users1 THEN W002(Ctx(x), x.N, i, sym) ELSE None
        w3 == IF n.k = "DECL" THEN W003(Ctx(x), x.N, i) ELSE None
        w11 == IF n.k = "DECL" THEN W011(Ctx(x), x.N, i, sym) ELSE None
        d == EnclosingDef(x.N, i)
        nm(w) == LET q == { w[1][j] : j \in 1..Len(w[1]) } \cap (Range(Names(n)) \cup {""}) IN q
    IN /\ (w2 # None \/ w3 # None \/ w11 # None) => x.kind = "if"
       /\ w2 # None =>
            /\ d # 0 /\ nm(w2) # {}
            /\ \E u \in nm(w2) : u # "system_r" /\ KindOf(sym, u, <<"type", "attribute", "attribute_role", "role">>) # ""
                 /\ \A r \in d..(i - 1) : IsReq(x.N[r]) => \A j \in Range(Children(x.N, r)) : u \notin Range(Names(x.N[j]))
       /\ w3 # None =>
            /\ d # 0 /\ InRequire(x.N, i)
            /\ ~(x.N[d].k = "INTERFACE" /\ EndsWith(x.N[d].name, "_stub"))
            /\ LET top == x.N[OutermostReq(x.N, i, 0)].p
               IN \E u \in nm(w3) : \A j \in (i + 1)..LastDesc(x.N, top) : ~InRequire(x.N, j) => u \notin Range(Names(x.N[j]))
       /\ w11 # None => InRequire(x.N, i) /\ Owner(sym, n.name, n.fl) # x.mod)

(****************************** P13: calls ***********************************)
PropP13 == Finished =>
  LET allBase == [env.sup EXCEPT !.mods = [ m \in DOMAIN @ |-> "base" ]]
      noMods == [env.sup EXCEPT !.mods = EmptyFn]
      unknown == [sym EXCEPT !.ifs = EmptyFn]
  IN ForNodes(LAMBDA x, i :
       LET n == x.N[i] IN n.k = "CALL" =>
         /\ W005(Ctx(x), x.N, i, sym, allBase) = None
         /\ W005(Ctx(x), x.N, i, sym, noMods) = None /\ W010(n, sym, noMods) = None
         /\ W005(Ctx(x), x.N, i, unknown, env.sup) = None
         /\ (\E a \in 1..(i - 1) : x.N[a].k = "OPTIONAL" /\ i <= LastDesc(x.N, a)) => W005(Ctx(x), x.N, i, sym, env.sup) = None
         /\ n.name \in DOMAIN sym.ifs => W010(n, sym, env.sup) = None
         /\ W010(n, sym, env.sup) # None => Index(n.name, "_") # 0
         /\ ~(W006(n) # None /\ W007(n, sym) # None)
         /\ (\A j \in 1..Len(n.sp) : ~n.sp[j]) => W007(n, sym) = None
         /\ S004(Ctx(x), x.N, i, sym) # None => x.kind = "if" /\ \E a \in 1..(i - 1) : x.N[a].k = "INTERFACE" /\ i <= LastDesc(x.N, a))

(****************************** P14: lists ***********************************)
Ascending(q) == \A j, k \in 1..Len(q) : j < k => StrCmp(q[j], q[k]) < 0
PropP14 == Finished =>
  ForNodes(LAMBDA x, i :
    LET n == x.N[i]
        q == IF n.k \in {"AV", "XAV", "DECL"} THEN PermList(n) ELSE <<>>
        more == [env.sup EXCEPT !.macros = @ @@ [ p \in Range(q) |-> <<>> ]]
    IN /\ (n.k \in {"AV", "XAV"} \/ (n.k = "DECL" /\ n.fl = "class")) =>
            /\ (\A j \in 1..Len(q) : q[j] \notin {"~", "-"}) => ((C005(n) = None) <=> Ascending(q))
            /\ C005([n EXCEPT !.ln = 0]) = C005(n)
       /\ n.k = "AV" =>
            /\ E007(n, sym, more) = None
            /\ (\A p \in Range(n.perms) : PermKnown(p, sym, env.sup)) <=> E007(n, sym, env.sup) = None
            /\ C007(n, EmptySym) # None => First(n.src[1]) = "$"
            /\ W008(n) # None => n.av = "allow"
       /\ n.k \in {"AV", "TT", "RT"} => ((E008(n, sym) = None) <=> \A c \in Range(n.cls) : ClassKnown(c, sym)))

(************************* P15: permission macros ****************************)
PropP15 == Finished =>
  ForNodes(LAMBDA x, i :
    LET n == x.N[i] IN n.k = "AV" =>
      LET r == TLCEval(S010(n, env.sup))
          back == S010([n EXCEPT !.perms = Reverse(@)], env.sup)
      IN /\ S009(n) # None => \E p \in Range(n.perms) : EndsWith(p, "_perms") /\ Mismatch(p, n.cls)
         /\ (r = None) <=> (back = None)
         /\ r # None =>
              LET w == r[1]
                  nm == w[2]
                  to == CHOOSE j \in 1..Len(w) : w[j] = "would" /\ w[j + 1] = "add"
                  repl == { w[j] : j \in 4..(to - 1) }
                  added == { w[j] : j \in (to + 2)..Len(w) } \ {"none"}
                  rest == Filter(n.perms, LAMBDA p : p \notin repl)
                  before == RawAll(n.perms, env.sup.macros)
                  after == RawAll(Append(rest, nm), env.sup.macros)
              IN \* nothing is lost, and what is gained is what is said, and tolerated
                 /\ back[1][2] = nm
                 /\ before \subseteq after
                 /\ after \ before = added
                 /\ Cardinality({ q \in 1..Len(n.perms) : n.perms[q] \in repl }) >= 2
                 /\ repl \subseteq Range(n.perms) /\ nm \notin Range(n.perms)
                 /\ nm \in DOMAIN env.sup.macros /\ MacroClass(nm) = n.cls[1]
                 \* no macro for the class covers more of the rule without going beyond it
                 /\ \A m \in DOMAIN env.sup.macros :
                      LET rm == RawAll(env.sup.macros[m], env.sup.macros)
                      IN (MacroClass(m) = n.cls[1] /\ rm \subseteq before \ {U}
                            /\ Cardinality({ q \in 1..Len(n.perms) : RawOf(n.perms[q], env.sup.macros, {}) \subseteq rm }) >= 2)
                         => Cardinality(rm) <= Cardinality(RawAll(env.sup.macros[nm], env.sup.macros) \cap before))

(************************* P16: order of statements **************************)
RECURSIVE Sorted(_, _)     \* consecutive members of a set of positions
Sorted(S, cmp) ==
  IF Cardinality(S) < 2 THEN TRUE
  ELSE LET a == Min(S) b == Min(S \ {a}) IN cmp[a][b] >= 0 /\ Sorted(S \ {a}, cmp)
PropP16 == Finished =>
  \A x \in { y \in MainSources : y.kind = "te" /\ Len(y.N) > 0 } :
    LET o == OrderCtx(Ctx(x), sym, env.sup, env.st.g.order)
        Q == TLCEval(Filter(Parts(x.N), LAMBDA i : x.N[i].k # "START"))
        n == Len(Q)
        cmp == TLCEval([ a \in 1..n |-> [ b \in 1..n |-> Compare(o, Q[a], Q[b]) ] ])
        Leq(a, b) == cmp[a][b] >= 0
        Lt(a, b) == ~Leq(b, a)
        run == TLCEval(Run(n, Leq))
        out == OrderFindings(Ctx(x), sym, env.sup, env.st.g.order)
        weak == n <= 10 /\ \A a, b, c \in 1..n : (Leq(a, b) \/ Leq(b, a)) /\ ((Leq(a, b) /\ Leq(b, c)) => Leq(a, c))
    IN /\ Sorted(run, cmp)
       /\ (n > 0 => run # {})
       /\ (\A a, b \in 1..n : a < b => Leq(a, b)) => out = <<>>
       /\ \A j \in 1..Len(out) : \E q \in 1..n : q \notin run /\ x.N[Q[q]].ln = out[j].ln /\ x.N[Q[q]].k \in C001Nodes
       \* nothing longer is in order (where order is a weak order, and small)
       /\ (weak /\ n <= 10) => \A S \in SUBSET (1..n) : Sorted(S, cmp) => Cardinality(S) <= Cardinality(run)

(*************************** P17: structure **********************************)
CountAt(f, id) == Cardinality({ i \in 1..Len(found) : found[i].f = f /\ found[i].id = id })
PropP17 == Finished =>
  /\ ForNodes(LAMBDA x, i :
       LET n == x.N[i]
           kids == Range(Children(x.N, i))
       IN /\ n.k \in {"REQUIRE", "GENREQ", "OPTIONAL"} =>
               ((E009(x.N, i) = None) <=> \E j \in (i + 1)..LastDesc(x.N, i) : x.N[j].k \notin {"START", "COMMENT", "SEMICOLON"})
          /\ IsReq(n) => /\ S001([Ctx(x) EXCEPT !.kind = "if"], x.N, i) = None
                         /\ (C006(x.N, i, env.st.g) = None /\ env.st.g.same) =>
                              \A a, b \in kids : (a < b /\ x.N[a].k = "DECL" /\ x.N[b].k = "DECL" /\ x.N[a].fl = x.N[b].fl) => x.N[a].name # x.N[b].name
          /\ n.k = "WORD" => E010(x.N, i, [env.st.g EXCEPT !.tem = Append(@, n.name)]) = None
          /\ (n.k = "DECL" /\ S005(Ctx(x), x.N, i) # None) => x.kind = "if" /\ \E a \in 1..i : x.N[a].k = "INTERFACE" /\ i <= LastDesc(x.N, a)
          /\ IsDef(n) /\ i = 1 => C004(x.N, i) # None)
  /\ \A f \in { x.base : x \in MainSources } :
       ("S-003" \in env.on /\ Cardinality({ j \in 1..Len(Checked) : BaseOf(Checked[j].path) = f }) = 1) =>
         CountAt(f, "S-003") = LET x == CHOOSE y \in MainSources : y.base = f
                               IN Cardinality({ i \in 1..Len(x.N) : x.N[i].k = "SEMICOLON" /\ ~InSeq("S-003", x.N[i].ex) })

(*************************** P18, P19: contexts ******************************)
PropP18 == Finished =>
  \A t \in FcTexts : \A j \in 1..Len(t) :
    LET raw == t[j]
        e == FcLine(raw, env.st.g.fcm)
    IN /\ e.st \in {"skip", "error", "none", "entry"}
       /\ e.st # "skip" => FcLine(" \t" \o raw, env.st.g.fcm) = e /\ FcLine(raw \o "\t ", env.st.g.fcm) = e
       /\ e.st = "entry" => Index(e.path, " ") = 0 /\ e.path # "" /\ e.type # "" /\ Index(e.user, ":") = 0
       /\ e.st \in {"entry", "none"} => FcLine("#" \o raw, env.st.g.fcm).st = "skip"
       /\ e.st = "entry" => FcLine(e.path \o " <<none>>", env.st.g.fcm).st \in {"none", "skip"}
\* W-004 as an automaton: the state says whether a bracket is open.
RECURSIVE Suspicious(_, _, _, _)
Suspicious(s, i, in, p) ==
  IF i > Len(s) THEN 0
  ELSE LET c == Ch(s, i)
           after == Ch(s \o " ", i + 1)
       IN CASE in -> Suspicious(s, IF c = "]" /\ p # "\\" THEN i ELSE i + 1, ~(c = "]" /\ p # "\\"), IF c = "]" /\ p # "\\" THEN p ELSE c)
            [] c = "[" /\ p # "\\" -> Suspicious(s, i, TRUE, p)
            [] c = "." /\ p # "\\" /\ after \notin {"*", "+", "?"} -> i
            [] c \in {"*", "+"} /\ p \notin {"\\", ".", "]", ")"} -> i
            [] OTHER -> Suspicious(s, i + 1, FALSE, c)
PropP19 == Finished =>
  \A t \in FcTexts : \A j \in 1..Len(t) :
    LET e == FcLine(t[j], env.st.g.fcm)
        q == RegexPos(e.path, 1, "")
    IN e.st = "entry" =>
         /\ q = Suspicious(e.path, 1, FALSE, "")
         /\ q # 0 => Ch(e.path, q) \in {".", "*", "+"} /\ RegexPos(SubSeq(e.path, 1, Min({q + 1, Len(e.path)})), 1, "") = q
         /\ FcFind("E-005", [base |-> "x.fc", mod |-> "x"], e, EmptySym, env.st.g) # None
         /\ (FcFind("S-002", [base |-> "x.fc", mod |-> Owner(sym, e.type, "type")], e, sym, env.st.g) = None)

(************************ P20: names of modules ******************************)
PropP20 == Finished =>
  /\ ForNodes(LAMBDA x, i :
       LET n == x.N[i] IN n.k = "HEADER" =>
         /\ (S006(n) # None) <=> n.bare
         /\ (W009(Ctx(x), n) = None) <=> (n.name \o "." \o x.kind = x.base))
  /\ ForNodes(LAMBDA x, i : (x.N[i].k = "DECL" /\ E006(x.N[i], sym) # None) => \E y \in Sources : \E j \in 1..Len(y.N) : IsDef(y.N[j]) /\ y.N[j].name = x.N[i].name)

(************************** P21: every run ends ******************************)
PropP21 == phase = "done" => exit \in {EX_OK, EX_USAGE, EX_DATAERR, EX_SOFTWARE, EX_CONFIG}

(************************** P22: support files *******************************)
RECURSIVE Doubled(_)
Doubled(q) == IF q = <<>> THEN <<>> ELSE <<Head(q), Head(q)>> \o Doubled(Tail(q))
PropP22 == (Ended /\ env.st.o.src) =>
  LET F(t) == C.sups[C.tree[t].sid]
  IN /\ env.d.mods # 0 =>
          LET f == F(env.d.mods)
              m == LoadMods(EmptyFn, f.lines, 1)
          IN /\ m.mods = env.sup.mods
             /\ m.ok => LET two == LoadMods(EmptyFn, Doubled(f.lines), 1) IN two.ok /\ two.mods = m.mods
             /\ \A k \in DOMAIN m.mods : \E j \in 1..Len(f.lines) : LET r == ModsLine(f.lines[j].s, f.lines[j].nl) IN r.st = "mod" /\ r.name = k
     /\ env.d.spt # 0 =>
          LET f == F(env.d.spt)
              n == Upto(f.defs, f.badat)
              names == { f.defs[i].name : i \in { j \in 1..n : ~f.defs[j].warn /\ EndsWith(f.defs[j].name, "_perms") } }
              s == LoadSpt([order |-> <<>>, macros |-> EmptyFn], Doubled(SubSeq(f.defs, 1, n)), 1, 2 * n)
          IN /\ DOMAIN env.sup.macros = names /\ Range(env.sup.macroOrder) = names
             /\ Len(env.sup.macroOrder) = Cardinality(names)
             /\ s.macros = env.sup.macros /\ s.order = env.sup.macroOrder
     /\ env.d.av # 0 =>
          LET f == F(env.d.av)
              n == Upto(f.defs, f.badat)
              a == LoadAv(EmptySym, [f EXCEPT !.defs = SubSeq(@, 1, n), !.badat = 0])
              b == LoadAv(EmptySym, [f EXCEPT !.defs = Reverse(SubSeq(@, 1, n)), !.badat = 0])
          IN a.decl = b.decl
     /\ (env.d.spt = 0 \/ env.d.av = 0) => env.on \cap {"E-007", "E-008"} \subseteq {"E-008"} \/ env.d.av # 0 \/ \E k \in DOMAIN sym.decl : k[1] \in {"class", "perm"}

(************************* P24: every statement ******************************)
\* How often a check may speak: once for every statement it looks at.
Limit(id) ==
  LET kinds == { "AV", "XAV", "CALL", "TT", "RT", "RALLOW", "RTYPES", "ALIAS", "TYPEALIAS", "TATTR", "RATTR", "PERMISSIVE", "DECL",
                 "INTERFACE", "TEMPLATE", "REQUIRE", "GENREQ", "SEMICOLON", "HEADER", "OPTIONAL", "WORD" }
      of == { k \in kinds : InSeq(id, Applies(k)) }
  IN IF id \in Range(FcIds) \cup {"E-002"} THEN LET q == [ i \in 1..Len(env.d.fc) |-> Len(FileOf(C, env.d.fc[i]).lines) ] IN q
     ELSE LET fs == env.d.te \o env.d.if
              ks == IF id = "C-001" THEN C001Nodes ELSE of
          IN [ i \in 1..Len(fs) |-> LET N == FileOf(C, fs[i]).nodes IN Cardinality({ j \in 1..Len(N) : N[j].k \in ks }) ]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
PropP24 == Finished =>
  /\ OneMore
  /\ \A id \in Range(AllIds) : CountId(found, id) <= Sum(Limit(id))
  \* the walk visits every node once: the findings of a file are those of its nodes, in order
  /\ "S-003" \in env.on => CountId(found, "S-003") =
       Sum(LET fs == env.d.te \o env.d.if
           IN [ i \in 1..Len(fs) |-> LET N == FileOf(C, fs[i]).nodes IN Cardinality({ j \in 1..Len(N) : N[j].k = "SEMICOLON" /\ ~InSeq("S-003", N[j].ex) }) ])
  /\ "W-006" \in env.on => CountId(found, "W-006") =
       Sum(LET fs == env.d.te \o env.d.if
           IN [ i \in 1..Len(fs) |-> LET N == FileOf(C, fs[i]).nodes IN Cardinality({ j \in 1..Len(N) : N[j].k = "CALL" /\ N[j].args = <<>> /\ ~InSeq("W-006", N[j].ex) }) ])

Holds(p) ==
  CASE p = "P01" -> PropP01 [] p = "P02" -> PropP02 [] p = "P03" -> PropP03 [] p = "P04" -> PropP04
    [] p = "P05" -> PropP05 [] p = "P06" -> PropP06 [] p = "P07" -> PropP07 [] p = "P08" -> PropP08
    [] p = "P09" -> PropP09 [] p = "P10" -> PropP10 [] p = "P11" -> PropP11 [] p = "P12" -> PropP12
    [] p = "P13" -> PropP13 [] p = "P14" -> PropP14 [] p = "P15" -> PropP15 [] p = "P16" -> PropP16
    [] p = "P17" -> PropP17 [] p = "P18" -> PropP18 [] p = "P19" -> PropP19 [] p = "P20" -> PropP20
    [] p = "P21" -> PropP21 [] p = "P22" -> PropP22 [] p = "P23" -> PropP23 [] p = "P24" -> PropP24
    [] OTHER -> TRUE
=============================================================================
