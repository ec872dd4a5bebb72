------------------------------- MODULE P12_Phase -------------------------------
(* What the options of a phase turn into. An option value is <<>> (not given) or <<rational>>; switches are 0/1.
   Kind "state"/"control": one variable of the phase. Kind "time": the phase time under a mission method.
   Kind "extra": the remaining options of a flight phase (throttle, climb, descent, allocation, user constraints). *)
EXTENDS Emit
CONSTANTS Kind, Vals      \* Vals: option name -> set of values it may be given

None == <<>>
Given(x) == x # <<>>
One == <<1, 1>>
Zero == <<0, 1>>
Rabs(a) == <<Abs(a[1]), a[2]>>
Some(x) == <<x>>

----------------------------------------------------------------------------
(* A state is fixed at its start exactly when an initial value is given, constrained at its end exactly when a final
   value is given; the constraint is scaled by constraint_ref, else by the final value (a zero scales nothing). *)
EndRef(o) == IF Given(o.constraint_ref) THEN o.constraint_ref[1] ELSE IF o.final[1] = Zero THEN One ELSE o.final[1]
StateQ(o) ==
  [fix |-> Given(o.initial), input |-> FALSE, lower |-> o.lower, upper |-> o.upper, ref |-> o.ref, ref0 |-> o.ref0, defect |-> o.defect_ref,
   solve |-> o.solve = 1, start |-> <<>>, end |-> IF Given(o.final) THEN <<[eq |-> o.final[1], ref |-> EndRef(o)]>> ELSE <<>>]

(* A control is a design variable exactly when it is optimised, and only then it carries bounds and scaling; it is held at its
   ends when it is optimised and a value is given, unless the user constrains the variable himself. A reference left at one is
   replaced by the largest magnitude among the bounds and end values. *)
Cands(o) == {Rabs(x[1]) : x \in {y \in {o.lower, o.upper, o.initial, o.final} : Given(y)}}
Largest(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
CRef(o) == IF o.ref # Some(One) \/ Cands(o) = {} THEN o.ref[1] ELSE IF Largest(Cands(o)) = Zero THEN One ELSE Largest(Cands(o))
ControlQ(o) ==
  LET opt == o.optimize = 1
      held(x) == IF opt /\ Given(x) /\ o.user = 0 THEN <<[eq |-> x[1], ref |-> CRef(o)]>> ELSE <<>>
  IN [opt |-> opt, order |-> o.order,
      lower |-> IF opt THEN o.lower ELSE None, upper |-> IF opt THEN o.upper ELSE None,
      ref |-> IF opt THEN Some(CRef(o)) ELSE None, ref0 |-> IF opt THEN o.ref0 ELSE None,
      cont |-> IF opt THEN Some(CRef(o)) ELSE None, start |-> held(o.initial), end |-> held(o.final)]

(* Phase time. pos: 0 first phase, 1 linked directly to the phase before, 2 linked by a constraint, 3 first reserve phase (not
   linked). par: phases run in parallel. An initial time that is fixed or fed by the phase before carries no bounds. *)
Fed(o) == o.pos = 1 /\ o.par = 0
Free(o) == ~Given(o.initial) /\ ~Fed(o)
Upper(b) == b.hi
Part(x) == IF Given(x) THEN x[1] ELSE Zero
IRef(o, m) == IF o.iref # Some(One) \/ m # "energy" THEN o.iref[1]
              ELSE IF Given(o.ihi) /\ o.ihi[1] # Zero THEN o.ihi[1] ELSE <<600, 1>>
DRef(o, m) == IF o.dref # Some(One) \/ m # "energy" \/ (~Given(o.dlo) /\ ~Given(o.dhi)) THEN o.dref[1]
              ELSE RDiv(RAdd(Part(o.dlo), Part(o.dhi)), <<2, 1>>)
TimeQ(o, m) ==
  [fixi |-> Given(o.initial), fixd |-> Given(o.duration),
   ib |-> IF Free(o) THEN <<o.ilo, o.ihi>> ELSE <<>>, ir |-> IF Free(o) THEN Some(IRef(o, m)) ELSE None,
   db |-> IF Given(o.duration) THEN <<>> ELSE <<o.dlo, o.dhi>>, dr |-> IF Given(o.duration) THEN None ELSE Some(DRef(o, m))]

(* The other options of a flight phase. `user`: the user's own constraints, each replacing the one the phase would add. *)
Bound(v, l, u) == [var |-> v, lower |-> l, upper |-> u]
\* twist: alias - an additional constraint of the user under a name of its own; bad - one of an unknown type; picard/other - transcription
ExtraQ(o) ==
  IF o.twist \in {"bad", "other"} THEN [ok |-> FALSE] ELSE
  [ok |-> TRUE, alias |-> o.twist = "alias", told |-> o.enforce,
   grid |-> IF o.twist = "picard" THEN [kind |-> "picard", segments |-> 1, order |-> o.order * o.segments] ELSE [kind |-> "radau", segments |-> o.segments, order |-> o.order],
   path |-> (IF (o.no_descent = 1 \/ o.no_climb = 1) /\ "rate" \notin o.user
             THEN {Bound("rate", IF o.no_descent = 1 THEN Some(Zero) ELSE None, IF o.no_climb = 1 THEN Some(Zero) ELSE None)} ELSE {})
            \cup (IF Given(o.climb_rate) /\ "ratemax" \notin o.user THEN {Bound("ratemax", o.climb_rate, None)} ELSE {})
            \cup (IF o.enforce = "path_constraint" /\ "throttle" \notin o.user THEN {Bound("throttle", Some(Zero), Some(One))} ELSE {})
            \cup {Bound(v, Some(<<-7, 1>>), Some(<<9, 1>>)) : v \in o.user},
   ends |-> IF o.enforce = "boundary_constraint" /\ "throttle" \notin o.user THEN {"initial", "final"} ELSE {},
   throttle |-> o.enforce = "control",
   alloc |-> IF o.engines = 1 THEN "none" ELSE o.alloc,
   shares |-> IF o.engines = 1 THEN <<>> ELSE [i \in 1..(o.engines - 1) |-> <<1, o.engines>>]]

MadeK(k, o) == CASE k = "state" -> StateQ(o) [] k = "control" -> ControlQ(o) [] k = "extra" -> ExtraQ(o) [] OTHER -> TimeQ(o, k)
Made(o) == MadeK(Kind, o)

----------------------------------------------------------------------------
VARIABLES opts
vars == <<opts>>
Init == opts = [n \in DOMAIN Vals |-> CHOOSE v \in Vals[n] : TRUE]
Set(n) == \E v \in Vals[n] : v # opts[n] /\ opts' = [opts EXCEPT ![n] = v]
Next == \E n \in DOMAIN Vals : Set(n)
EmitState == Emit([opts |-> opts])    \* as an invariant: once per state

FixedIffGiven == Kind = "state" => (Made(opts).fix <=> Given(opts.initial))
EndIffGiven == Kind = "state" => (Made(opts).end # <<>> <=> Given(opts.final))
OptimisedIffAsked == Kind = "control" => ((Made(opts).opt <=> opts.optimize = 1) /\ (opts.optimize = 0 => Made(opts).start = <<>> /\ Made(opts).end = <<>> /\ Made(opts).lower = None))
Scaled == /\ Kind = "control" => Made(opts).ref # Some(Zero)
          /\ Kind = "state" => \A i \in 1..Len(Made(opts).end) : Made(opts).end[i].ref # Zero
TimeFree == Kind \in {"energy", "two_dof", "solved"} => (Made(opts).fixi <=> Given(opts.initial)) /\ (Made(opts).db = <<>> <=> Given(opts.duration))
OneBoundEach == Kind = "extra" /\ Made(opts).ok => \A v \in {"rate", "ratemax", "throttle"} : Cardinality({b \in Made(opts).path : b.var = v}) <= 1
\* an option changes only what it is documented to change
Touches(n) ==
  CASE Kind = "state" -> (CASE n = "initial" -> {"fix"} [] n \in {"final", "constraint_ref"} -> {"end"} [] n = "defect_ref" -> {"defect"} [] OTHER -> {n})
    [] Kind = "control" -> (CASE n \in {"initial", "final", "lower", "upper", "ref"} -> {"ref", "cont", "start", "end", "lower", "upper"}
                              [] n \in {"order", "ref0"} -> {n} [] n = "user" -> {"start", "end"} [] OTHER -> DOMAIN Made(opts) \ {"order"})
    [] Kind = "extra" -> (CASE n = "twist" -> DOMAIN ExtraQ(opts) [] n \in {"segments", "order"} -> {"grid"} [] n \in {"no_climb", "no_descent", "climb_rate"} -> {"path"} [] n = "user" -> {"path", "ends"}
                            [] n = "enforce" -> {"path", "ends", "throttle", "told"} [] n = "engines" -> {"alloc", "shares"} [] OTHER -> {"alloc"})
    [] OTHER -> (CASE n \in {"duration", "dlo", "dhi", "dref"} -> {"fixd", "db", "dr"} [] OTHER -> {"fixi", "ib", "ir"})
Frame == [][\A n \in DOMAIN Vals : opts'[n] # opts[n] => \A f \in DOMAIN Made(opts) : f \in DOMAIN Made(opts') /\ Made(opts)[f] # Made(opts')[f] => f \in Touches(n)]_vars
=============================================================================
