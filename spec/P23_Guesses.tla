------------------------------ MODULE P23_Guesses ------------------------------
(* What the guesses of a mission do to the variables of its phases.
   A phase: [name, kind, guess, opts, sub, vars] with
     kind   "energy", "two_dof", "breguet" (integrates mass) or "builder" (guesses applied by the phase builder)
     guess  sequence of [key, n, v]: n = 0 for a number, otherwise the number of values of the profile; entries may be None
     sub    the same, offered by external subsystems
     opts   [mass: default mass, ti, tib, td, tdb, ai, af, ab, mi, mf, mb]: sequences of [v, u] (u: factor to the unit things are read in), <<>> when not set
     vars   sequence of [n, pos, own]: what the phase has; pos the nodes between 0 (start) and P (end); own: not taken from another phase
   A profile is [kind: "keep"] or [kind: "line", v: sequence]: linear pieces through v, evenly spread over the phase. *)
EXTENDS Emit
CONSTANTS Phases, Kinds
P == 10000
None == -999999
Keep == [kind |-> "keep", v |-> <<>>]
Line(v) == [kind |-> "line", v |-> v]

(* value at node t, times P: pieces of width P / (k - 1) *)
At(v, t) == LET k == Len(v) IN
            IF k = 1 THEN v[1] * P
            ELSE LET i == IF t >= P THEN k - 1 ELSE ((t * (k - 1)) \div P) + 1
                     f == t * (k - 1) - (i - 1) * P
                 IN v[i] * (P - f) + v[i + 1] * f

Find(g, key) == {i \in DOMAIN g : g[i].key = key}
Has(g, key) == Find(g, key) # {}
Get(g, key) == g[CHOOSE i \in Find(g, key) : TRUE]
(* how a variable is named in the guesses *)
Controls(ph) == CASE ph.kind = "energy" -> {"mach", "altitude", "throttle"}
                  [] ph.kind = "two_dof" -> {"velocity_rate", "throttle"} \cup (IF ph.name = "ascent" THEN {"angle_of_attack"} ELSE {})
                  [] ph.kind = "builder" -> {"mach", "altitude"}
                  [] OTHER -> {}
States(ph) == CASE ph.kind = "energy" -> {"mass", "distance"}
                [] ph.kind = "two_dof" -> {"altitude", "mass", "distance", "velocity", "flight_path_angle", "angle_of_attack"} \ Controls(ph)
                [] ph.kind = "builder" -> {"mass", "distance"}
                [] OTHER -> {}
Tops(ph) == IF ph.kind \in {"energy", "two_dof"} THEN {"tau_gear", "tau_flaps"} ELSE {}
VarOf(ph, key) == CASE ph.kind = "breguet" /\ key \notin {"mass", "time"} -> "parameters:" \o key
                    [] key \in Controls(ph) -> "controls:" \o key
                    [] key \in States(ph) -> "states:" \o key
                    [] OTHER -> key
HasVar(ph, n) == \E i \in DOMAIN ph.vars : ph.vars[i].n = n
Pair(ph, key) == key = "time" \/ (key = "mass" /\ ph.kind = "breguet")
Colon == {"states:aux", "parameters:aux_p", "states:mass", "states:distance", "controls:altitude", "controls:mach", "controls:throttle", "controls:aux_c"}
(* a guess that cannot be placed *)
Unknown(ph, g) == IF Pair(ph, g.key) THEN FALSE
                  ELSE IF ph.kind = "breguet" THEN ~HasVar(ph, VarOf(ph, g.key))
                  ELSE IF g.key \in Controls(ph) \cup States(ph) \cup Tops(ph) \cup Colon THEN ~HasVar(ph, VarOf(ph, g.key))
                  ELSE TRUE
(* profiles of three values and more are only spread over the phase where the documentation of the method says so *)
Optional(ph, g) == ~Pair(ph, g.key) /\ g.n > 2 /\ ph.kind \in {"energy", "builder"} /\ g.key \notin Colon
Refused(ph) == \E i \in DOMAIN ph.guess : Unknown(ph, ph.guess[i])
MayRefuse(ph) == \E i \in DOMAIN ph.guess : Optional(ph, ph.guess[i])

First(s) == s[1]
Num(o) == IF o = <<>> THEN None ELSE o[1].v * o[1].u
Lower(o) == IF o = <<>> \/ o[1].v = None THEN <<>> ELSE <<o[1].v * o[1].u, 1>>
(* time guesses: entry 1 the start, entry 2 the duration, as <<numerator, denominator>>; <<>> stays as it was.
   f: number of seconds in the unit of the guess *)
TimeEntry(ph, i) ==
   LET given == Has(ph.guess, "time")
       g == Get(ph.guess, "time")
       fixed == IF i = 1 THEN ph.opts.ti ELSE ph.opts.td
       bounds == IF i = 1 THEN ph.opts.tib ELSE ph.opts.tdb
       f == IF given THEN ph.tf ELSE 1
   IN CASE given /\ g.v[i] # None -> <<g.v[i], 1>>
        [] ph.kind # "energy" -> <<>>
        [] fixed # <<>> -> <<Num(fixed), f>>
        [] OTHER -> LET m == Lower(bounds) IN IF m = <<>> THEN <<>> ELSE <<m[1], m[2] * f>>
Ends(a, b, bounds) == LET i == IF a # <<>> THEN Num(a) ELSE bounds[1].v * bounds[1].u IN Line(<<i, IF b # <<>> THEN Num(b) ELSE i>>)
Derived(ph, n) == CASE ph.kind = "energy" /\ n = "states:mass" -> Line(<<ph.opts.mass>>)
                    [] ph.kind = "two_dof" /\ n = "states:mass" -> Line(<<ph.opts.mass>>)
                    [] ph.kind = "energy" /\ n = "controls:altitude" -> Ends(ph.opts.ai, ph.opts.af, ph.opts.ab)
                    [] ph.kind = "energy" /\ n = "controls:mach" -> Ends(ph.opts.mi, ph.opts.mf, ph.opts.mb)
                    [] OTHER -> Keep
Profile(ph, n) ==
   LET mine == {i \in DOMAIN ph.guess : ~Pair(ph, ph.guess[i].key) /\ VarOf(ph, ph.guess[i].key) = n}
       offered == {i \in DOMAIN ph.sub : VarOf(ph, ph.sub[i].key) = n \/ ("states:" \o ph.sub[i].key) = n \/ ("controls:" \o ph.sub[i].key) = n}
   IN IF mine # {} THEN Line(ph.guess[CHOOSE i \in mine : TRUE].v)
      ELSE IF Derived(ph, n) # Keep THEN Derived(ph, n)
      ELSE IF offered # {} THEN Line(ph.sub[CHOOSE i \in offered : TRUE].v)
      ELSE Keep
TimeVar(n) == n \in {"t_initial", "t_duration"}
MassPair(ph) == ph.kind = "breguet" /\ Has(ph.guess, "mass")
(* what every node of variable k holds afterwards, times P; None: as before *)
Node(ph, k, j) ==
   LET x == ph.vars[k]
       i == IF x.n = "t_initial" THEN 1 ELSE 2
   IN IF TimeVar(x.n)
      THEN IF ph.kind = "breguet" THEN (IF MassPair(ph) THEN Get(ph.guess, "mass").v[i] * P ELSE None)
           ELSE LET e == TimeEntry(ph, i) IN IF e = <<>> THEN None ELSE (e[1] * P) \div e[2]
      ELSE LET p == Profile(ph, x.n) IN IF p = Keep THEN None ELSE At(p.v, x.pos[j])
After(ph) == [k \in DOMAIN ph.vars |-> [j \in DOMAIN ph.vars[k].pos |-> Node(ph, k, j)]]

----------------------------------------------------------------------------
(* a mission of two phases whose guesses are applied, then others *)
VARIABLES mission, held, round
vars == <<mission, held, round>>
Init == mission = <<>> /\ held = <<>> /\ round = 0
Junk(ph) == [k \in DOMAIN ph.vars |-> [j \in DOMAIN ph.vars[k].pos |-> 1]]
Declare == /\ round = 0 /\ mission = <<>>
           /\ \E kd \in Kinds : \E a \in {x \in Phases : x.kind = kd} : \E b \in {x \in Phases : x.kind = kd /\ x.quiet} :
                mission' = <<a, b>> /\ held' = <<Junk(a), Junk(b)>>
           /\ round' = 1
Apply == /\ round = 1 /\ \A i \in DOMAIN mission : ~Refused(mission[i])
         /\ held' = [i \in DOMAIN mission |-> LET w == After(mission[i]) IN
                       [k \in DOMAIN w |-> [j \in DOMAIN w[k] |-> IF w[k][j] = None THEN held[i][k][j] ELSE w[k][j]]]]
         /\ round' = 2 /\ UNCHANGED mission
Next == Declare \/ Apply
EmitCase == (round = 0 /\ round' = 1) => Emit([a |-> mission'[1], b |-> mission'[2]])

(* properties of the design *)
Done == round = 2
(* the nodes at the two ends of a phase hold the ends of the guess, those between never leave its range *)
EndsHeld == Done => \A i \in DOMAIN mission : \A g \in DOMAIN mission[i].guess : \A k \in DOMAIN mission[i].vars :
    LET ph == mission[i]
        x == ph.vars[k]
        v == ph.guess[g].v
    IN (~Pair(ph, ph.guess[g].key) /\ VarOf(ph, ph.guess[g].key) = x.n) =>
       \A j \in DOMAIN x.pos : /\ (x.pos[j] = 0 => held[i][k][j] = v[1] * P) /\ (x.pos[j] = P => held[i][k][j] = v[Len(v)] * P)
                               /\ (\E y \in DOMAIN v : v[y] * P <= held[i][k][j]) /\ (\E y \in DOMAIN v : v[y] * P >= held[i][k][j])
(* what the first phase is given never reaches the second *)
Apart == Done => held[2] = [k \in DOMAIN mission[2].vars |-> [j \in DOMAIN mission[2].vars[k].pos |->
                     IF Node(mission[2], k, j) = None THEN 1 ELSE Node(mission[2], k, j)]]
(* fields nobody gave are the derived ones, or as before *)
UserWins == Done => \A k \in DOMAIN mission[1].vars : LET ph == mission[1] IN
               (~TimeVar(ph.vars[k].n) /\ ~(\E g \in DOMAIN ph.guess : VarOf(ph, ph.guess[g].key) = ph.vars[k].n) /\ Derived(ph, ph.vars[k].n) = Keep /\ ph.sub = <<>>)
                  => held[1][k] = Junk(ph)[k]
(* applying the same guesses twice changes nothing more *)
Again == Done => \A i \in DOMAIN mission : LET w == After(mission[i]) IN \A k \in DOMAIN w : \A j \in DOMAIN w[k] : w[k][j] = None \/ w[k][j] = held[i][k][j]
=============================================================================
