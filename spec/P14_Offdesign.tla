---------------------------- MODULE P14_Offdesign ----------------------------
(* Off-design missions and payload-range studies of a sized aircraft.
   A sized aircraft s: [mass: "FLOPS"/"GASP", eom, custom, first, bus, eco, pax, dfirst, dbus, deco, wing, misc, cargo, gross, range, cruise, target,
     phases, iter, tools, converged, multi, flown (takeoff gross mass of the sizing mission), oper, capacity, unusable, payload, fuel]
   with masses in pounds, ranges in nautical miles, cruise the upper bound of the cruise duration (M when there is none).
   An off-design request q: [ptype, first, bus, eco, pax, wing, misc, cargo, mass, range, fillc, fillf, own, conf, name] (M / "" when not given);
     own = <<>> inherits the mission, <<[phases, cruise, target]>> brings one.
   The history is a sequence of requests; the original aircraft and whatever the caller passed in stay as they are. *)
EXTENDS Emit
CONSTANTS Sized, Requests, Results, MaxLen

M == -999
Given(x, y) == IF x # M THEN x ELSE y
Classes(q) == q.first # M \/ q.bus # M \/ q.eco # M
\* passengers on board, by class for FLOPS masses
Pax(s, q) ==
  IF s.mass = "GASP" THEN [first |-> s.first, bus |-> s.bus, eco |-> s.eco, pax |-> Given(q.pax, s.pax)]
  ELSE IF Classes(q)
       THEN LET f == Given(q.first, s.first)
                b == Given(q.bus, s.bus)
                e == Given(q.eco, s.eco)
            IN IF f + b + e > 0 THEN [first |-> f, bus |-> b, eco |-> e, pax |-> f + b + e]
               ELSE [first |-> 0, bus |-> 0, eco |-> Given(q.pax, 0), pax |-> Given(q.pax, 0)]
       ELSE IF q.pax # M THEN [first |-> 0, bus |-> 0, eco |-> q.pax, pax |-> q.pax]
       ELSE [first |-> s.first, bus |-> s.bus, eco |-> s.eco, pax |-> s.pax]
Refusal == [refused |-> TRUE]
Float(s, q) == IF ~q.fillc THEN {}
               ELSE IF s.mass = "GASP" THEN {"cargo"}
               ELSE IF q.misc \notin {M, 0} THEN {"misc"}
               ELSE IF q.wing \notin {M, 0} THEN {"wing"} ELSE {"misc"}
Off(s, q) ==
  IF q.ptype = "sizing" \/ (q.fillc /\ q.fillf) THEN Refusal
  ELSE LET p == Pax(s, q)
           mission == IF q.own = <<>> THEN [phases |-> s.phases, cruise |-> s.cruise, target |-> s.target] ELSE q.own[1]
       IN [refused |-> FALSE, ptype |-> q.ptype, first |-> p.first, bus |-> p.bus, eco |-> p.eco, pax |-> p.pax,
           wing |-> IF s.mass = "GASP" THEN s.wing ELSE Given(q.wing, s.wing), misc |-> IF s.mass = "GASP" THEN s.misc ELSE Given(q.misc, s.misc),
           cargo |-> Given(q.cargo, s.cargo), design |-> s.gross,
           gross |-> IF q.ptype = "max_range" THEN Given(q.mass, s.gross) ELSE M,          \* a guess otherwise
           guess |-> IF q.ptype = "min_fuel" THEN Given(q.mass, s.gross) ELSE M,
           range |-> IF q.ptype = "min_fuel" THEN Given(q.range, s.range) ELSE M,
           phases |-> mission.phases, cruise |-> mission.cruise,
           target |-> IF q.ptype = "min_fuel" THEN Given(q.range, s.range) ELSE mission.target,
           float |-> Float(s, q), fuelfree |-> q.fillf, iter |-> s.iter, tools |-> s.tools, conf |-> IF q.conf # "" THEN q.conf ELSE s.conf,
           rest |-> TRUE]
\* the study: the missions it flies and the table it writes
Skip(s) == s.oper + s.capacity - s.unusable >= s.flown
Ask(s) == [ptype |-> "max_range", first |-> 0, bus |-> 0, eco |-> 0, pax |-> M, wing |-> 0, misc |-> 0, cargo |-> M, mass |-> M, range |-> M, fillc |-> FALSE, fillf |-> FALSE,
           own |-> << [phases |-> s.phases, cruise |-> IF s.cruise = M THEN M ELSE 2 * s.cruise, target |-> s.target] >>, conf |-> ""]
Left(s) == s.flown - s.oper - (s.capacity - s.unusable)         \* payload that still fits beside full tanks
Share(s, x) == (x * Left(s)) \div s.payload
MaxFuel(s) == [Ask(s) EXCEPT !.first = Share(s, s.dfirst), !.bus = Share(s, s.dbus), !.eco = Share(s, s.deco),
                             !.wing = Share(s, s.wing), !.misc = Share(s, s.misc), !.fillc = TRUE]
Ferry(s) == [Ask(s) EXCEPT !.mass = IF Skip(s) THEN s.flown ELSE s.oper + s.capacity - s.unusable, !.fillf = TRUE]
Possible(s) == s.converged /\ ~s.multi /\ s.eom = "energy" /\ s.conf \notin {"A", "B"}
Study(s, r) ==                        \* r: results of the two missions, [maxfuel |-> [ok, payload, fuel, range], ferry |-> ...]
  IF ~Possible(s) THEN [missions |-> <<>>, table |-> <<>>]
  ELSE [missions |-> IF Skip(s) THEN <<Off(s, Ferry(s))>> ELSE <<Off(s, MaxFuel(s)), Off(s, Ferry(s))>>,
        table |-> LET third == IF Skip(s) THEN r.ferry ELSE r.maxfuel
                  IN IF ~(third.ok /\ r.ferry.ok) THEN <<>>
                     ELSE << <<s.payload, 0, 0>>, <<s.payload, s.fuel, s.range>>, <<third.payload, third.fuel, third.range>>, <<r.ferry.payload, r.ferry.fuel, r.ferry.range>> >>]
\* the name of an unnamed mission: the first that has no output directory
RECURSIVE Free(_, _)
Free(k, taken) == IF k \in taken THEN Free(k + 1, taken) ELSE k

----------------------------------------------------------------------------
VARIABLES orig, hist, taken
vars == <<orig, hist, taken>>
Init == orig \in Sized /\ hist = <<>> /\ taken = {}
Do(q) == LET o == IF q.kind = "study" THEN Study(orig, q.res) ELSE Off(orig, q.q)
             n == IF q.kind = "off" /\ ~Off(orig, q.q).refused /\ q.q.name = "" THEN Free(0, taken) ELSE M
         IN /\ hist' = Append(hist, [q |-> q, o |-> o, name |-> n])
            /\ taken' = IF n = M THEN taken ELSE taken \cup {n}
            /\ UNCHANGED orig
Fits(s, q) == CASE q.kind = "study" -> s.mass = "FLOPS"            \* GASP masses are announced as not ready for it
                [] OTHER -> (q.q.conf # "" => s.conf \in {"A", "B"}) /\ (s.mass = "GASP" /\ q.q.fillc => q.q.cargo # M) /\ (s.mass = "GASP" => q.q.own = <<>>)
Next == Len(hist) < MaxLen /\ \E q \in Requests \cup [kind : {"study"}, res : Results] : Fits(orig, q) /\ Do(q)
EmitCase == Emit([s |-> orig, hist |-> hist'])

(* properties of the design *)
OriginalKept == [][orig' = orig]_vars
Outcomes == \A i \in 1..Len(hist) : hist[i].q.kind = "off" => hist[i].o = Off(orig, hist[i].q.q)                 \* no request depends on an earlier one
NamesApart == \A i, j \in 1..Len(hist) : (i # j /\ hist[i].name # M) => hist[i].name # hist[j].name
Every(P(_)) == \A i \in 1..Len(hist) : (hist[i].q.kind = "off" /\ ~hist[i].o.refused) => P(hist[i])
Aircraft(h) == h.o.design = orig.gross
Total(h) == orig.mass = "FLOPS" => h.o.pax = h.o.first + h.o.bus + h.o.eco
Honoured(h) == /\ (h.q.q.pax # M /\ ~Classes(h.q.q) => h.o.pax = h.q.q.pax)
               /\ (orig.mass = "FLOPS" /\ h.q.q.eco # M /\ h.q.q.eco > 0 => h.o.eco = h.q.q.eco)
               /\ (h.o.ptype = "max_range" => h.o.gross # M) /\ (h.o.ptype = "min_fuel" => h.o.range # M /\ h.o.target = h.o.range)
NoMore == \A i \in 1..Len(hist) : hist[i].q.kind = "study" => \A k \in 1..Len(hist[i].o.missions) :
            LET m == hist[i].o.missions[k] IN m.design = orig.gross /\ m.gross <= Max2(orig.gross, orig.flown) /\ m.first <= orig.dfirst /\ m.bus <= orig.dbus /\ m.eco <= orig.deco
Inv == Outcomes /\ NamesApart /\ NoMore /\ Every(Aircraft) /\ Every(Total) /\ Every(Honoured)
=============================================================================
