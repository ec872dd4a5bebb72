------------------------------- MODULE P18_Paths -------------------------------
(* Where a requested path is found. Layout: sets of files (sequences of names) below the working directory (cwd),
   an unrelated directory that only absolute paths reach (abs), the package (pkg) and its models folder (models).
   Request: [base, p]: base "rel" or "abs" (below the unrelated directory), p the path.
   Looking it up tries one place after the other; the last resort are the entries of the models folder, in sorted
   order, first those with the same name, then those with the same stem, tables (.csv) before anything else. *)
EXTENDS Emit
CONSTANTS StemOf, IsCsv, AllItems, CwdU, AbsU, PkgU, ModU, Requests

Exists(S, p) == p \in S \/ \E f \in S : Len(f) > Len(p) /\ SubSeq(f, 1, Len(p)) = p
None == [where |-> "none", p |-> <<>>]
Found(w, p) == [where |-> w, p |-> p]
InModels(items, p) ==
  LET name == p[Len(p)]
      same == SelectSeq(items, LAMBDA f : f[Len(f)] = name)
      stem == SelectSeq(items, LAMBDA f : StemOf[f[Len(f)]] = StemOf[name])
      csv == SelectSeq(stem, LAMBDA f : IsCsv[f[Len(f)]])
  IN IF same # <<>> THEN Found("models", Head(same))
     ELSE IF csv # <<>> THEN Found("models", Head(csv))
     ELSE IF stem # <<>> THEN Found("models", Head(stem)) ELSE None
\* the stages of the search, in order; items: the entries of the models folder in sorted order
Stage(l, items, r, i) ==
  CASE i = 1 -> IF r.base = "abs" /\ Exists(l.abs, r.p) THEN Found("abs", r.p) ELSE None
    [] i = 2 -> IF r.base = "rel" /\ Exists(l.cwd, r.p) THEN Found("cwd", r.p) ELSE None
    [] i = 3 -> IF r.base = "rel" /\ Exists(l.pkg, r.p) THEN Found("pkg", r.p) ELSE None
    [] i = 4 -> IF r.base = "rel" /\ Exists(l.models, r.p) THEN Found("models", r.p) ELSE None
    [] i = 5 -> InModels(items, r.p)
RECURSIVE Search(_, _, _, _)
Search(l, items, r, i) == IF i > 5 THEN None ELSE LET s == Stage(l, items, r, i) IN IF s # None THEN s ELSE Search(l, items, r, i + 1)
Resolve(l, items, r) == Search(l, items, r, 1)
ItemsOf(l) == SelectSeq(AllItems, LAMBDA p : Exists(l.models, p))

----------------------------------------------------------------------------
VARIABLES l, req, stage, found
vars == <<l, req, stage, found>>
Layouts == [cwd : SUBSET CwdU, abs : SUBSET AbsU, pkg : SUBSET PkgU, models : SUBSET ModU]
Init == l \in Layouts /\ req = None /\ stage = 0 /\ found = None
\* one request per behaviour, looked up stage by stage
Request == stage = 0 /\ \E r \in Requests : req' = r /\ stage' = 1 /\ UNCHANGED <<l, found>>
Look == stage \in 1..5 /\ found = None /\ found' = Stage(l, ItemsOf(l), req, stage) /\ stage' = stage + 1 /\ UNCHANGED <<l, req>>
Next == Request \/ Look
\* one line per layout, with the outcome of every request
EmitCase == (stage = 0 /\ req' = CHOOSE r \in Requests : TRUE) =>
    Emit([l |-> [k \in DOMAIN l |-> SetToSeq(l[k])], rs |-> SetToSeq({[q |-> r, w |-> Resolve(l, ItemsOf(l), r)] : r \in Requests})])

(* properties of the design *)
Agrees == (stage = 6 \/ found # None) => found = Resolve(l, ItemsOf(l), req)
OnlyExisting == found # None => Exists(l[found.where], found.p)
NearFirst == (stage > 1 /\ req.base = "rel" /\ Exists(l.cwd, req.p) /\ (stage = 6 \/ found # None)) => found = Found("cwd", req.p)
SameStem == found # None => StemOf[found.p[Len(found.p)]] = StemOf[req.p[Len(req.p)]]
NeverRefusedWhenThere == (stage = 6 /\ found = None /\ req.base = "rel") => ~Exists(l.cwd, req.p) /\ ~Exists(l.pkg, req.p) /\ ~Exists(l.models, req.p)
=============================================================================
