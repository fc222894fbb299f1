------------------------------ MODULE Discovery -------------------------------
(* Which files are analysed, used as context, or loaded as support files.     *)
(*   c.tree  the scanned part of the file system: sequence of entries         *)
(*           [name, dir, kids]; kids: indices of the entries of a directory,  *)
(*           fid: index of the policy file with that content (0: none),       *)
(*           sid: index of the support file with that content (0: none)       *)
(*   c.dev, c.kern  the entries of the installed policy headers and of the    *)
(*           classes of the kernel, 0 if there are none                       *)
(*   c.args  path arguments [path, t], t: index of the entry, 0: none there   *)
EXTENDS Options

Suffix(path) == IF Len(path) > 3 THEN SubSeq(path, Len(path) - 2, Len(path)) ELSE ""
Hidden(name) == Len(name) > 1 /\ First(name) = "." /\ Ch(name, 2) # "."
JoinPath(p, name) == IF EndsWith(p, "/") THEN p \o name ELSE p \o "/" \o name
BaseOf(path) == LET j == LastIndex(path, "/") IN Drop(path, j)

\* Everything met below a path: sequence of [path, t, up].
RECURSIVE Walk(_, _, _, _, _, _), WalkKids(_, _, _, _, _, _)
Walk(tree, path, t, up, rec, hidden) ==
  IF t = 0 THEN << [path |-> path, t |-> 0, up |-> up] >>
  ELSE IF ~tree[t].dir THEN << [path |-> path, t |-> t, up |-> up] >>
  ELSE IF ~rec \/ (Hidden(BaseOf(path)) /\ ~hidden) THEN <<>>
  ELSE WalkKids(tree, path, t, 1, rec, hidden)
WalkKids(tree, path, t, i, rec, hidden) ==
  IF i > Len(tree[t].kids) THEN <<>>
  ELSE LET k == tree[t].kids[i]
       IN Walk(tree, JoinPath(path, tree[k].name), k, BaseOf(path), rec, hidden)
          \o WalkKids(tree, path, t, i + 1, rec, hidden)
RECURSIVE WalkAll(_, _, _, _, _)
WalkAll(tree, args, i, rec, hidden) ==
  IF i > Len(args) THEN <<>>
  ELSE Walk(tree, args[i].path, args[i].t, "", rec, hidden) \o WalkAll(tree, args, i + 1, rec, hidden)

OfKind(met, suf) == Filter(met, LAMBDA e : Suffix(e.path) = suf)
Supports(met, name) ==
  Filter(met, LAMBDA e : Suffix(e.path) \notin {".te", ".if", ".fc"} /\ BaseOf(e.path) = name)
PathsOf(q) == { q[i].path : i \in 1..Len(q) }
\* The support file that is used: the last one scanned, else the first one of the context.
Pick(main, ctx, name) ==
  LET a == Supports(main, name) b == Supports(ctx, name)
  IN IF a # <<>> THEN a[Len(a)].t ELSE IF b # <<>> THEN b[1].t ELSE 0

\* The headers installed on the system count as context outside of source mode.
Headers(c, o) ==
  IF o.src THEN <<>> ELSE OfKind(Walk(c.tree, "/usr/share/selinux/devel", c.dev, "", TRUE, TRUE), ".if")

Discover(c, o) ==
  LET main == WalkAll(c.tree, c.args, 1, o.rec, o.hidden)
      ctx == WalkAll(c.tree, c.ctx, 1, TRUE, TRUE)
      te == OfKind(main, ".te")
      if == OfKind(main, ".if")
      fc == OfKind(main, ".fc")
      hdr == Headers(c, o)
      all == if \o hdr
      Layer(i) == [mod |-> LET b == BaseOf(all[i].path) IN SubSeq(b, 1, Len(b) - 3), layer |-> all[i].up]
      first == { i \in 1..Len(all) : \A j \in 1..(i - 1) : Layer(j).mod # Layer(i).mod }
  IN [te |-> te, if |-> if, fc |-> fc,
      cte |-> Filter(OfKind(ctx, ".te"), LAMBDA e : e.path \notin PathsOf(te)),
      cif |-> Filter(OfKind(ctx, ".if"), LAMBDA e : e.path \notin PathsOf(if)) \o hdr,
      layers |-> [ m \in { Layer(i).mod : i \in first } |-> Layer(CHOOSE i \in first : Layer(i).mod = m).layer ],
      av |-> IF o.src THEN Pick(main, ctx, "access_vectors") ELSE 0,
      mods |-> IF o.src THEN Pick(main, ctx, "modules.conf") ELSE 0,
      spt |-> IF o.src THEN Pick(main, ctx, "obj_perm_sets.spt") ELSE 0]
=============================================================================
