------------------------------- MODULE P11_Links -------------------------------
(* How the phases of a mission are ordered and joined.
   A phase is [reserve, links: names it asks to link, opts: variable -> its settings, over: the variable it integrates over,
   moves: has it states at all?]. A name "initial_x" is a parameter that takes the value of x at the start of the phase.
   Settings of a variable: opt "yes"/"no" (a control that is optimised / given) or "none"; fin/ini: value given for its end / its
   start; direct: "yes"/"no" value passed forward or a constraint ("none": not said); ref, ref0, unit: its scaling. *)
EXTENDS Emit
CONSTANTS Names, Settings, MaxPhases, Shapes

None == <<>>
Given(x) == x # <<>>
NoSet == [opt |-> "none", fin |-> None, ini |-> None, direct |-> "none", ref |-> None, ref0 |-> None, unit |-> ""]
SetOfVar(p, v) == IF v \in DOMAIN p.opts THEN p.opts[v] ELSE NoSet
Carried(v) == CASE v = "initial_time" -> "time" [] v = "initial_distance" -> "distance" [] v = "initial_mass" -> "mass" [] OTHER -> v
IsStart(v) == Carried(v) # v
Carries(p, x) == \E v \in p.links : Carried(v) = x

----------------------------------------------------------------------------
(* regular phases come first *)
Ordered(m) == \A i, j \in 1..Len(m) : i < j /\ m[i].reserve => m[j].reserve
FirstReserve(m) == IF \E i \in 1..Len(m) : m[i].reserve THEN CHOOSE i \in 1..Len(m) : m[i].reserve /\ \A j \in 1..(i - 1) : ~m[j].reserve ELSE 0

(* a join is scaled as the variable is scaled in the phase before, or in the phase after when the one before says nothing *)
Scale(l, r, v) ==
  LET x == IF v # "time" /\ l.moves /\ v = l.over THEN "time" ELSE v
      s == IF Given(SetOfVar(l, x).ref) THEN SetOfVar(l, x) ELSE SetOfVar(r, x)
      ts == SetOfVar(r, "time")
      td == SetOfVar(l, "duration")
  IN IF v = "time" /\ l.moves /\ l.over # "time" THEN [ref |-> None, ref0 |-> None, unit |-> ""]
     ELSE IF x = "time" THEN IF Given(ts.ref) THEN [ref |-> ts.ref, ref0 |-> None, unit |-> ts.unit] ELSE [ref |-> td.ref, ref0 |-> None, unit |-> td.unit]
     ELSE [ref |-> s.ref, ref0 |-> s.ref0, unit |-> s.unit]
\* a start time of zero is the start of the clock, which is where every phase begins to count: it holds nothing
Held(p, x) == Given(SetOfVar(p, x).ini) /\ ~(x = "time" /\ SetOfVar(p, x).ini[1] = <<0, 1>>)
\* a value can be passed forward unless phases run in parallel, the user asks for a constraint, or the phase after does not take it
Passed(l, r, x, par) == ~par /\ SetOfVar(r, x).direct # "no" /\ SetOfVar(r, x).opt # "no" /\ ~Held(r, x)
Needless(l, r, x) == \/ SetOfVar(l, x).opt = "no" /\ SetOfVar(r, x).opt = "no"       \* both given by the user at every point
                     \/ Given(SetOfVar(l, x).fin) /\ Held(r, x)       \* both ends held by the user
\* joins of two phases: every name the phase after asks for whose variable the phase before carries
Joins(l, r, par) ==
  LET wanted == {v \in r.links : Carries(l, Carried(v)) /\ ~(~IsStart(v) /\ v \in l.links /\ Needless(l, r, v)) /\ ~(~IsStart(v) /\ \E w \in r.links : IsStart(w) /\ Carried(w) = v)}
      \* a start parameter has no settings of its own but whether it is passed
      passed(v) == IF IsStart(v) THEN ~par /\ SetOfVar(r, Carried(v)).direct # "no" ELSE Passed(l, r, v, par)
  IN {[from |-> Carried(v), to |-> v, passed |-> passed(v), scale |-> IF passed(v) THEN [ref |-> None, ref0 |-> None, unit |-> ""] ELSE Scale(l, r, Carried(v))] : v \in wanted}
Links(m, par) == [i \in 1..(Len(m) - 1) |-> IF FirstReserve(m) = i + 1 THEN {} ELSE Joins(m[i], m[i + 1], par)]

\* phases that must cover a distance or take a time
Targets(m) == {[phase |-> i, what |-> w] : i \in 1..Len(m), w \in {"distance", "duration"}}
Asked(m) == {t \in Targets(m) : IF t.what = "distance" THEN Given(m[t.phase].target) ELSE m[t.phase].bymass /\ Given(m[t.phase].lasts)}

----------------------------------------------------------------------------
VARIABLES mission, par
vars == <<mission, par>>
Init == mission = <<>> /\ par \in BOOLEAN
\* shapes: [links, over, moves] of a phase
Add == /\ Len(mission) < MaxPhases
       /\ \E s \in Shapes, o \in Settings, rv \in BOOLEAN :
            mission' = Append(mission, [reserve |-> rv, links |-> s.links, over |-> s.over, moves |-> s.moves, opts |-> [v \in Names |-> o]])
       /\ UNCHANGED par
Next == Add
EmitState == Len(mission) = MaxPhases => Emit([m |-> mission, par |-> par])

Gapless == \A i \in 1..(Len(mission) - 1) : LET l == mission[i] r == mission[i + 1] IN
             \A x \in {"time", "distance", "mass"} : Carries(l, x) /\ Carries(r, x) /\ FirstReserve(mission) # i + 1 =>
               (\E j \in Links(mission, par)[i] : j.from = x) \/ Needless(l, r, x)
OneJoinEach == \A i \in 1..(Len(mission) - 1) : \A j, k \in Links(mission, par)[i] : j.to = k.to => j = k
ParallelAllConstraints == par => \A i \in 1..(Len(mission) - 1) : \A j \in Links(mission, par)[i] : ~j.passed
HeldTakesNothing == \A i \in 1..(Len(mission) - 1) : \A j \in Links(mission, par)[i] : j.passed /\ ~IsStart(j.to) => ~Held(mission[i + 1], j.to)
Local == [][\A i \in 1..(Len(mission) - 1) : Ordered(mission') => Links(mission', par)[i] = Links(mission, par)[i]]_vars
=============================================================================
