----------------------------- MODULE P10_Overrides -----------------------------
(* Who provides each variable of the pre-mission models, and what everybody reads.
   A world is a sequence of variables; variable i may be given by the user, computed by core models (one, or two code
   origins of which one is preferred) and by models outside of them (external subsystems, propulsion):
     [n: number of entries, user: <<>> or its values, core: producers, pref: 0 or the preferred one of two, ext: producers, dflt: value when nobody provides it]
   A producer [c, reads] computes entry k as c + 7k + 2 * (sum of all entries of the variables it reads); it only reads variables before its own.
   Evaluation goes variable by variable. *)
EXTENDS Emit
CONSTANTS Options, NVars

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Src(w, i) == IF w[i].ext # <<>> THEN "external" ELSE IF w[i].user # <<>> THEN "user" ELSE IF w[i].core # <<>> THEN "core" ELSE "default"
Winner(v) == IF Len(v.core) = 2 THEN v.core[v.pref] ELSE v.core[1]
Loser(v) == v.core[3 - v.pref]
Compute(p, n, val) == [k \in 1..n |-> p.c + 7 * k + 2 * Sum([j \in DOMAIN p.reads |-> Sum(val[p.reads[j]])])]
ValueOf(w, i, val) == LET v == w[i] IN CASE Src(w, i) = "external" -> Compute(v.ext[1], v.n, val)
                                         [] Src(w, i) = "user" -> v.user
                                         [] Src(w, i) = "core" -> Compute(Winner(v), v.n, val)
                                         [] OTHER -> [k \in 1..v.n |-> v.dflt]
RECURSIVE Eval(_, _, _)
Eval(w, i, val) == IF i > Len(w) THEN val ELSE Eval(w, i + 1, Append(val, ValueOf(w, i, val)))
Values(w) == Eval(w, 1, <<>>)
\* what is kept of the values that lost: under which name, and which value
Kept(w, i, val) == LET v == w[i] IN
   (IF v.core # <<>> /\ Src(w, i) = "external" THEN {[as |-> "EXTERNAL_SUBSYSTEM_OVERRIDE", i |-> i, v |-> Compute(Winner(v), v.n, val)]} ELSE {})
   \cup (IF v.core # <<>> /\ Src(w, i) = "user" THEN {[as |-> "AIRCRAFT_DATA_OVERRIDE", i |-> i, v |-> Compute(Winner(v), v.n, val)]} ELSE {})
   \cup (IF Len(v.core) = 2 THEN {[as |-> "CODE_ORIGIN_OVERRIDE", i |-> i, v |-> Compute(Loser(v), v.n, val)]} ELSE {})
\* two models outside of the core models that provide the same variable cannot be told apart
Legal(w) == \A i \in DOMAIN w : Len(w[i].ext) <= 1
Outcome(w) == IF ~Legal(w) THEN [ok |-> FALSE, seen |-> <<>>, kept |-> {}, sources |-> <<>>]
              ELSE LET val == Values(w) IN
                   [ok |-> TRUE, seen |-> val, kept |-> UNION {Kept(w, i, val) : i \in DOMAIN w}, sources |-> [i \in DOMAIN w |-> IF Src(w, i) \in {"external", "core"} THEN 1 ELSE 0]]

----------------------------------------------------------------------------
VARIABLES world, val, kept, stage
vars == <<world, val, kept, stage>>
Init == world = <<>> /\ val = <<>> /\ kept = {} /\ stage = "build"
Declare == stage = "build" /\ Len(world) < NVars /\ (\E v \in Options[Len(world) + 1] : world' = Append(world, v)) /\ UNCHANGED <<val, kept, stage>>
Start == stage = "build" /\ Len(world) = NVars /\ stage' = "run" /\ UNCHANGED <<world, val, kept>>
Step == stage = "run" /\ Len(val) < Len(world)
        /\ LET i == Len(val) + 1 IN val' = Append(val, ValueOf(world, i, val)) /\ kept' = kept \cup Kept(world, i, val)
        /\ UNCHANGED <<world, stage>>
Next == Declare \/ Start \/ Step
EmitCase == (stage = "build" /\ stage' = "run") => Emit([w |-> world])

(* properties of the design *)
Done == stage = "run" /\ Len(val) = Len(world)
Agrees == Done => val = Outcome(world).seen /\ kept = Outcome(world).kept
UserSeen == Done => \A i \in DOMAIN world : (world[i].user # <<>> /\ world[i].ext = <<>>) => val[i] = world[i].user
ExternalWins == Done => \A i \in DOMAIN world : world[i].ext # <<>> => val[i] = Compute(world[i].ext[1], world[i].n, val)
NobodyElse == Done => \A i \in DOMAIN world : (world[i].ext = <<>> /\ world[i].user = <<>> /\ world[i].core # <<>>) => val[i] = Compute(Winner(world[i]), world[i].n, val)
NothingLost == Done => \A i \in DOMAIN world :
    Cardinality({k \in kept : k.i = i}) = Len(world[i].core) - (IF Src(world, i) = "core" THEN 1 ELSE 0)
Reads(w, i) == LET v == w[i] IN CASE Src(w, i) = "external" -> Range(v.ext[1].reads) [] Src(w, i) = "core" -> Range(Winner(v).reads) [] OTHER -> {}
RECURSIVE Depends(_, _, _)
Depends(w, i, j) == i = j \/ \E r \in Reads(w, i) : Depends(w, r, j)
\* giving one more value only moves the variables computed from it
Frame == (stage = "run" /\ val = <<>>) => \A j \in DOMAIN world : world[j].user # <<>> =>
    LET w2 == [world EXCEPT ![j].user = <<>>] IN \A i \in DOMAIN world : ~Depends(w2, i, j) => Values(w2)[i] = Values(world)[i]
=============================================================================
