------------------------------ MODULE P15_Options ------------------------------
(* Options travel from the aircraft inputs of a mission to the components of its model. A value is [s: is it a plain value
   rather than a list, v: the entries (rationals; what is not a number is coded)]. Opts[o] = [eng: inside an engine the entry of that engine is
   meant, vec: one entry per engine, unit: default unit or "", def: default value]. Factor[u]: size of unit u.
   Fleet[m]: engine names of mission m. A place is [m: mission, e: the engine the component belongs to, "" for none];
   a declaration is [o: option, u: unit asked for, own: it has a default of its own, d: that default]. *)
EXTENDS Emit
CONSTANTS Opts, Factor, Fleet, Places, Decls, Values, GivenUnits, MaxGiven

Conv(v, u, w) == [s |-> v.s, v |-> [i \in 1..Len(v.v) |-> IF u = "" THEN v.v[i] ELSE RMul(v.v[i], Rat(Factor[u], Factor[w]))]]
EngineIdx(F, e) == CHOOSE i \in 1..Len(F) : F[i] = e
\* what the component at place p of the fleet F gets for declaration d of an option with attributes q when its mission was given g
Deliver(F, g, p, d, q) ==
  IF d.o \notin DOMAIN g
  THEN IF d.own THEN Conv(d.d, d.u, d.u) ELSE Conv(q.def, q.unit, d.u)
  ELSE LET x == g[d.o]
           v == IF p.e # "" /\ q.eng THEN [s |-> TRUE, v |-> <<x.v[EngineIdx(F, p.e)]>>] ELSE [s |-> x.s, v |-> x.v]
       IN Conv(v, x.u, d.u)

----------------------------------------------------------------------------
VARIABLES given
vars == <<given>>
Missions == DOMAIN Fleet
Init == given = [m \in Missions |-> <<>>]
Tuples(m, o) == IF Opts[o].vec THEN [1..Len(Fleet[m]) -> Values] ELSE [1..1 -> Values]
Count == SumSeq([i \in 1..Cardinality(Missions) |-> Cardinality(DOMAIN given[SetToSeq(Missions)[i]])])
Give(m, o) == /\ Count < MaxGiven /\ o \notin DOMAIN given[m]
              /\ \E v \in Tuples(m, o), u \in GivenUnits[o] : given' = [given EXCEPT ![m] = (o :> [v |-> v, u |-> u, s |-> ~Opts[o].vec]) @@ given[m]]
Change(m, o) == /\ o \in DOMAIN given[m]
                /\ \E i \in 1..Len(given[m][o].v), x \in Values : x # given[m][o].v[i] /\ given' = [given EXCEPT ![m][o].v[i] = x]
Next == \E m \in Missions, o \in DOMAIN Opts : Give(m, o) \/ Change(m, o)
Get(g, p, d) == Deliver(Fleet[p.m], g[p.m], p, d, Opts[d.o])
Declared == {x \in Places \X Decls : x[1].e = "" => TRUE}
EmitCase == Emit([given |-> given', all |-> {[p |-> x[1], d |-> x[2], v |-> Get(given', x[1], x[2])] : x \in Declared}])

(* properties of the design *)
\* giving or changing one option of one mission reaches the components of that mission that declare that option, and no other
Isolated == [][\A m \in Missions, o \in DOMAIN Opts : given'[m] # given[m] =>
                 \A p \in Places, d \in Decls : Get(given', p, d) # Get(given, p, d) => p.m = m /\ given'[m][d.o] # (IF d.o \in DOMAIN given[m] THEN given[m][d.o] ELSE <<>>)]_vars
\* changing the entry of one engine changes what that engine's components get and leaves what the others get
OwnEntry == [][\A p \in Places, d \in Decls : (p.e # "" /\ Opts[d.o].eng /\ d.o \in DOMAIN given[p.m]) =>
                 LET i == EngineIdx(Fleet[p.m], p.e)
                 IN (given'[p.m][d.o].v[i] = given[p.m][d.o].v[i]) = (Get(given', p, d) = Get(given, p, d))]_vars
\* asking for another unit does not change the amount
SameAmount == \A p \in Places, d \in Decls, c \in Decls : (d.o = c.o /\ d.u # "" /\ d.o \in DOMAIN given[p.m]) =>
                 \A i \in 1..Len(Get(given, p, d).v) : RMul(Get(given, p, d).v[i], <<Factor[d.u], 1>>) = RMul(Get(given, p, c).v[i], <<Factor[c.u], 1>>)
=============================================================================
