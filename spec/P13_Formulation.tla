--------------------------- MODULE P13_Formulation ---------------------------
(* The optimisation problem that is set up for a mission method and a problem type.
   A configuration c is
     [method: "energy" | "two_dof" | "solved", ptype: "sizing" | "min_fuel" | "max_range" | "multi" | "unknown",
      obj: the objective asked for ("" = not asked), ref: its reference x1000 or None, target: a target range is given,
      takeoff, mopt, aopt: detailed takeoff joined to an optimised Mach / altitude of the first phase,
      subs: the design variables each subsystem asks for, massopt: the mass of a solved mission is optimised,
      ignorecap: fuel capacity ignored, last: the last phase that is not a reserve, first: the first phase, mtow: the design gross mass (lbm) x1000]
   The problem is built by calls that may come in any order: variables, objective, user.
   Bounds and references are integers x1000; None where there is none. *)
EXTENDS Emit
CONSTANTS Configs, UserVars

None == -999
Dv(n, lo, up, ref) == [n |-> n, lo |-> lo, up |-> up, ref |-> ref]
Eq(n, v, ref) == [n |-> n, kind |-> "eq", v |-> v, ref |-> ref]
Lo(n, v, ref) == [n |-> n, kind |-> "lo", v |-> v, ref |-> ref]
Types == {"sizing", "min_fuel", "max_range", "multi"}
Objectives == {"", "mass", "time", "hybrid_objective", "fuel_burned", "fuel"}
Refuses(c) == \/ c.ptype \notin Types
              \/ c.obj \notin Objectives
              \/ c.ptype = "multi" /\ c.obj # ""             \* an objective of several missions is composed (P22)

DESIGN == "aircraft:design:gross_mass"
ACTUAL == "mission:gross_mass"
RANGE == "mission:constraints:range_residual"
MASS == "mission:constraints:mass_residual"

SubVars(c) == UNION {{c.subs[i][j] : j \in 1..Len(c.subs[i])} : i \in 1..Len(c.subs)}
MassVars(c) ==
  IF c.method = "solved" THEN IF c.massopt THEN {Dv(DESIGN, 10000, 900000000, 175000000)} ELSE {}
  ELSE CASE c.ptype = "sizing" -> {Dv(DESIGN, 10000, None, 175000000), Dv(ACTUAL, 10000, None, 175000000)}
         [] c.ptype = "min_fuel" -> {Dv(ACTUAL, 10000, c.mtow, c.mtow)}
         [] c.ptype = "multi" -> {Dv(ACTUAL, 10000, 900000000, 175000000)}
         [] OTHER -> {}
AscentVars(c) == IF c.method # "two_dof" THEN {}
                 ELSE {Dv("mission:takeoff:ascent_t_initial", 0, 100000, 30000), Dv("mission:takeoff:ascent_duration", 1000, 1000000, 10000),
                       Dv("tau_gear", 10, 1000, 1000), Dv("tau_flaps", 10, 1000, 1000)}
DesignVars(c) == SubVars(c) \cup MassVars(c) \cup AscentVars(c)

\* constraints that come with the variables
VarCons(c) ==
  (IF c.method = "solved" THEN {}
   ELSE CASE c.ptype = "sizing" -> {Eq("gtow_constraint.GTOW", 0, 1000)} \cup (IF c.method = "two_dof" \/ c.target THEN {Eq(RANGE, 0, 1000000)} ELSE {})
          [] c.ptype = "min_fuel" -> {Eq(RANGE, 0, 1000000)}
          [] c.ptype = "multi" -> {Eq(RANGE, 0, 1000000), Lo("gross_mass_resid", 0, c.mtow \div 4)}
          [] OTHER -> {})
  \cup (IF c.method # "two_dof" THEN {} ELSE {Eq("h_fit.h_init_gear", 50000, 50000), Eq("h_fit.h_init_flaps", 400000, 400000)})
\* constraints that every mission of the method has
MissionCons(c) ==
  {IF c.method = "solved" THEN Lo(MASS, 0, 100000000) ELSE Eq(MASS, 0, 100000000)}
  \cup (IF c.ignorecap THEN {} ELSE {Lo("mission:constraints:excess_fuel_mass_capacity", 0, 100000000)})
  \cup (CASE c.method = "energy" /\ c.takeoff -> (IF c.mopt THEN {Eq("mach_diff_comp.mach_resid_for_connecting_takeoff", 0, 1000)} ELSE {})
                                                 \cup (IF c.aopt THEN {Eq("alt_diff_comp.altitude_resid_for_connecting_takeoff", 0, 1000)} ELSE {})
          [] c.method = "two_dof" -> {Eq("ascent_initial_time_slack_constraint.con_val", 0, 30000), Eq("taxi_groundroll_mass_constraint.mass", 0, 10000000)}
          [] OTHER -> {Eq("link_" \o c.first \o "_mass.mass", 0, 100000000)})
\* the objective: where it is read and how it is scaled
Or(r, d) == IF r = None THEN d ELSE r
Objective(c) ==
  CASE c.ptype = "multi" -> [n |-> "", ref |-> None]
    [] c.obj = "" -> [n |-> IF c.ptype = "max_range" THEN "mission:objectives:range" ELSE "mission:objectives:fuel", ref |-> Or(c.ref, 1000)]
    [] c.obj = "mass" -> [n |-> "traj." \o c.last \o ".timeseries.mass", ref |-> Or(c.ref, 50000000)]
    [] c.obj = "time" -> [n |-> "traj." \o c.last \o ".timeseries.time", ref |-> Or(c.ref, 1000)]
    [] c.obj = "hybrid_objective" -> [n |-> "obj_comp.obj", ref |-> Or(c.ref, 1000)]
    [] c.obj = "fuel_burned" -> [n |-> "mission:fuel_mass", ref |-> Or(c.ref, 10000000)]
    [] OTHER -> [n |-> "mission:objectives:fuel", ref |-> Or(c.ref, 10000000)]

----------------------------------------------------------------------------
VARIABLES conf, dvs, cons, objs, calls
vars == <<conf, dvs, cons, objs, calls>>
Init == conf \in Configs /\ dvs = {} /\ cons = MissionCons(conf) /\ objs = {} /\ calls = <<>>
Made(a) == IsIn(a, calls)
Variables == ~Made("variables") /\ calls' = Append(calls, "variables") /\ dvs' = dvs \cup DesignVars(conf) /\ cons' = cons \cup VarCons(conf) /\ UNCHANGED <<conf, objs>>
SetObjective == ~Made("objective") /\ conf.ptype # "multi" /\ calls' = Append(calls, "objective") /\ objs' = {Objective(conf)} /\ UNCHANGED <<conf, dvs, cons>>
User == ~Made("user") /\ conf.ptype # "multi" /\ \E u \in UserVars : calls' = Append(calls, "user") /\ dvs' = dvs \cup {u} /\ UNCHANGED <<conf, cons, objs>>
Next == (~Refuses(conf) = TRUE) /\ (Variables \/ SetObjective \/ User)
Complete == Made("variables") /\ (Made("objective") \/ conf.ptype = "multi")
EmitState == IF (Complete \/ (Refuses(conf) /\ calls = <<>>)) = TRUE THEN Emit([conf |-> conf, calls |-> calls, refused |-> Refuses(conf)]) ELSE TRUE

(* properties of the design *)
Names(s) == {x.n : x \in s}
Free(n) == n \in Names(dvs)
\* one definition per name, and at most one objective
OneEach == /\ Cardinality(Names(dvs)) = Cardinality(dvs) /\ Cardinality(Names(cons)) = Cardinality(cons) /\ Cardinality(objs) <= 1
\* off design (and in each of several missions) the aircraft is not resized by the formulation itself
NotResized == Made("variables") /\ conf.method # "solved" /\ conf.ptype \in {"min_fuel", "max_range", "multi"} => ~Free(DESIGN)
\* a free design mass is tied to the mass that is flown
Tied == Made("variables") /\ conf.method # "solved" => (Free(DESIGN) <=> "gtow_constraint.GTOW" \in Names(cons))
\* never minimise fuel without fixing the range, never fix the range that is maximised
RangeClosed == Complete => /\ (conf.ptype = "max_range" => RANGE \notin Names(cons))
                           /\ (conf.ptype = "min_fuel" /\ conf.method # "solved" => RANGE \in Names(cons))
\* the fuel carried is always tied to the fuel needed
FuelClosed == MASS \in Names(cons)
\* variables asked for by subsystems are never lost
SubsKept == Made("variables") => SubVars(conf) \subseteq dvs
\* the order of the calls does not matter
OrderFree == [][Complete' => dvs' \ UserVars = DesignVars(conf) \ UserVars /\ cons' = MissionCons(conf) \cup VarCons(conf)]_vars
=============================================================================
