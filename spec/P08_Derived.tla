------------------------------ MODULE P08_Derived ------------------------------
(* Values derived from other inputs. An input is <<>> (not given) or <<x>>. Numbers are hundredths, so that all thresholds are whole.
   Three parts: options implied by other inputs, initial guesses, fuel capacities. Derived numbers are terms over the inputs. *)
EXTENDS Emit
CONSTANTS Part, Menu          \* Part: which of the three; Menu: input -> set of choices

Given(x) == x # <<>>
The(x) == x[1]

\* ---- options ------------------------------------------------------------------
\* <<input, relation, threshold, the option it decides>>
Rules == << <<"wing_loading", "gt", 2000, "loading_above_20">>, <<"attachment", "ne", 0, "has_strut">>, <<"attachment", "gt", 100, "strut_dim">>,
            <<"fold_coefficient", "gt", 0, "has_fold">>, <<"folded_span", "gt", 100, "fold_dim">>, <<"part25", "lt", 0, "ulf">>,
            <<"htail", "eq", 0, "compute_htail">>, <<"vtail", "eq", 0, "compute_vtail">> >>
Holds(r, x, y) == CASE r = "gt" -> x > y [] r = "lt" -> x < y [] r = "eq" -> x = y [] r = "ne" -> x # y
Default == [has_strut |-> FALSE, has_fold |-> FALSE, strut_dim |-> TRUE, choose_fold |-> TRUE]
Or(v, n) == IF Given(v[n]) THEN The(v[n]) ELSE Default[n]
RECURSIVE Rule(_, _)
Rule(v, rs) == IF rs = <<>> THEN v
               ELSE LET r == Head(rs) IN Rule(IF Given(v[r[1]]) THEN [v EXCEPT ![r[4]] = <<Holds(r[2], The(v[r[1]]), r[3])>>] ELSE v, Tail(rs))
Strut(v) == IF Or(v, "has_strut") THEN v ELSE [v EXCEPT !.strut_dim = <<FALSE>>]
Fold(v) == IF ~Or(v, "has_fold") THEN [v EXCEPT !.choose_fold = <<TRUE>>, !.fold_dim = <<FALSE>>]
           ELSE IF ~Or(v, "choose_fold") THEN [v EXCEPT !.fold_dim = <<TRUE>>]
           ELSE [v EXCEPT !.fold_dim = <<Or(v, "strut_dim")>>]
Options(v) == Fold(Strut(Rule(v, Rules)))
Backwards == [i \in DOMAIN Rules |-> Rules[Len(Rules) + 1 - i]]

\* ---- initial guesses ------------------------------------------------------------
V(n) == [op |-> "v", n |-> n, a |-> <<>>]
C(x) == [op |-> "c", n |-> x, a |-> <<>>]
Plus(x, y) == [op |-> "+", n |-> "", a |-> <<x, y>>]
Times(x, y) == [op |-> "*", n |-> "", a |-> <<x, y>>]
Over(x, y) == [op |-> "/", n |-> "", a |-> <<x, y>>]
F(f, x) == [op |-> f, n |-> "", a |-> <<x>>]
PerMile(v) == IF v.fb <= 0 THEN C("0.1") ELSE V("fb")
Burn(v) == Times(Times(V("pax"), PerMile(v)), V("range"))
Reserves(v) == IF v.reserves = 0 THEN Plus(V("additional"), Times(V("margin"), Burn(v)))
               ELSE IF v.reserves < 1000 THEN Times(V("reserves"), Burn(v)) ELSE V("reserves")
Payload == Times(V("pax"), V("pax_mass"))
Landing(v) == Plus(Plus(V("oem"), Payload), Reserves(v))
NoMass(v) == ~Given(v.gross) /\ ~Given(v.dgross)
First(v) == IF Given(v.gross) THEN The(v.gross) ELSE The(v.dgross)
Takeoff(v) == IF First(v) > 0 THEN V(IF Given(v.gross) THEN "gross" ELSE "dgross")
              ELSE IF v.ptype = "min_fuel" THEN Plus(Landing(v), Burn(v))
              ELSE IF v.ptype \in {"sizing", "max_range"} THEN V("dgross")
              ELSE V(IF Given(v.gross) THEN "gross" ELSE "dgross")
\* an analysis without any takeoff mass is outside
Massless(v) == NoMass(v) \/ (First(v) <= 0 /\ (v.ptype = "other" \/ (v.ptype \in {"sizing", "max_range"} /\ (~Given(v.dgross) \/ The(v.dgross) <= 0))))
Fraction(x, v) == Times(Takeoff(v), x)
CruiseEnd(v) == IF v.cruise_mass = 0 /\ v.ptype = "sizing" THEN Fraction(C("0.8"), v)
                ELSE IF v.cruise_mass <= 0 THEN Landing(v)
                ELSE IF v.cruise_mass <= 100 THEN Fraction(V("cruise_mass"), v) ELSE V("cruise_mass")
Rotation(v) == IF v.rotation <= 0 THEN Fraction(C("0.99"), v) ELSE IF v.rotation <= 100 THEN Fraction(V("rotation"), v) ELSE V("rotation")
Mach(v) == IF v.design_mach THEN V("dmach") ELSE V("cmach")
Hours(x) == Times(x, C("3600"))
Duration(v) == IF v.duration <= 0 THEN Hours(Over(V("range"), Times(C("667"), Mach(v)))) ELSE IF v.duration <= 1500 THEN Hours(V("duration")) ELSE V("duration")
Speed(v) == Times(C("333.5"), Mach(v))
Gamma(v) == F("asin", F("clip", Over(Times(C("0.5"), V("thrust")), Takeoff(v))))
Climb(v) == IF v.climb_time <= 0 THEN Over(V("altitude"), Times(Speed(v), F("sin", Gamma(v))))
            ELSE IF v.climb_time <= 200 THEN Hours(V("climb_time")) ELSE IF v.climb_time <= 20000 THEN Over(V("altitude"), V("climb_time")) ELSE V("climb_time")
ClimbRange(v) == IF v.climb_range <= 0 THEN Times(Over(Climb(v), C("3600")), Times(Speed(v), F("cos", Gamma(v)))) ELSE V("climb_range")
Guesses(v) == IF v.reserves < 0 THEN [ok |-> FALSE] ELSE
              [ok |-> TRUE, reserves |-> Reserves(v), takeoff |-> Takeoff(v), cruise_mass |-> CruiseEnd(v), rotation |-> Rotation(v),
               duration |-> Duration(v), climb_time |-> Climb(v), climb_range |-> ClimbRange(v), fb |-> PerMile(v)]

\* ---- fuel capacities ---------------------------------------------------------------
Known(v) == {n \in {"wing", "fuselage", "auxiliary"} : Given(v[n])}
RECURSIVE Sum(_, _)
Sum(v, ns) == IF ns = {} THEN 0 ELSE LET n == CHOOSE x \in ns : TRUE IN The(v[n]) + Sum(v, ns \ {n})
Fuel(v) == IF v.method = "none" THEN [ok |-> FALSE]
           ELSE IF v.method = "GASP" THEN [ok |-> TRUE, v |-> v]
           ELSE IF ~Given(v.total) THEN [ok |-> TRUE, v |-> [v EXCEPT !.fuselage = IF Given(@) THEN @ ELSE <<0>>, !.auxiliary = IF Given(@) THEN @ ELSE <<0>>]]
           ELSE IF Cardinality(Known(v)) = 3 THEN [ok |-> Sum(v, Known(v)) = The(v.total), v |-> v]
           ELSE [ok |-> Sum(v, Known(v)) <= The(v.total), v |-> v]

Result(part, v) == CASE part = "options" -> Options(v) [] part = "guesses" -> Guesses(v) [] part = "fuel" -> Fuel(v)
Counts(part, v) == part = "guesses" => ~Massless(v)

----------------------------------------------------------------------------
VARIABLES in, at, out          \* inputs chosen one after the other, then derived, then derived again
vars == <<in, at, out>>
Init == in = <<>> /\ at = "choose" /\ out = <<>>
Names == DOMAIN Menu
Pick == /\ at = "choose" /\ DOMAIN in # Names
        /\ LET n == CHOOSE x \in Names \ DOMAIN in : TRUE IN \E c \in Menu[n] : in' = in @@ (n :> c)
        /\ UNCHANGED <<at, out>>
Derive == /\ at = "choose" /\ DOMAIN in = Names /\ Counts(Part, in)
          /\ at' = "derived" /\ out' = Result(Part, in) /\ in' = in
Next == Pick \/ Derive
EmitCase == (at' = "derived" /\ at = "choose") => Emit([v |-> in, w |-> out'])

\* what is derived does not change when it is derived again, nor with the order of the rules
Twice == (at = "derived" /\ Part = "options") => (Options(out) = out /\ Fold(Strut(Rule(in, Backwards))) = out)
\* inputs that decide are never changed, and an option nobody decides stays as given
Kept == (at = "derived" /\ Part = "options") =>
           /\ \A r \in 1..Len(Rules) : out[Rules[r][1]] = in[Rules[r][1]]
           /\ \A n \in {"loading_above_20", "ulf", "compute_htail", "compute_vtail", "has_strut", "has_fold"} :
                 (\A r \in 1..Len(Rules) : Rules[r][4] = n => ~Given(in[Rules[r][1]])) => out[n] = in[n]
           /\ (Or(out, "has_fold") => out.choose_fold = in.choose_fold)
\* consistent options: no strut has no dimensional place, a fold that is chosen with the strut agrees with it
Consistent == (at = "derived" /\ Part = "options") =>
           /\ (~Or(out, "has_strut") => out.strut_dim = <<FALSE>>)
           /\ (Or(out, "has_fold") /\ Or(out, "choose_fold") => The(out.fold_dim) = Or(out, "strut_dim"))
FuelTwice == (at = "derived" /\ Part = "fuel" /\ out.ok) => (Fuel(out.v) = out /\ \A n \in Names : (n # "method" /\ Given(in[n])) => out.v[n] = in[n])
\* a guess above every threshold is what the user gave
GuessKept == (at = "derived" /\ Part = "guesses" /\ out.ok) =>
           /\ (in.reserves >= 1000 => out.reserves = V("reserves")) /\ (in.cruise_mass > 100 => out.cruise_mass = V("cruise_mass"))
           /\ (in.rotation > 100 => out.rotation = V("rotation")) /\ (in.duration > 1500 => out.duration = V("duration"))
           /\ (in.climb_time > 20000 => out.climb_time = V("climb_time")) /\ (in.climb_range > 0 => out.climb_range = V("climb_range"))
=============================================================================
