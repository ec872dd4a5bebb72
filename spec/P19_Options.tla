------------------------------ MODULE P19_Options ------------------------------
(* The options of a mission phase. A table gives for every documented option [unit: its unit or "" when it has none,
   types: kinds of value it takes ({}: any), vals: the values it takes ({}: any), none: may it be None, def: default].
   A value is [t: kind, x: entries]: numbers are rationals, an entry <<>> is None, other values are coded as integers.
   A mission definition gives options in forms [tup: written as (value, unit)?, v: value, u: unit]. *)
EXTENDS Emit
CONSTANTS Table, Names, Forms, MaxPut, UTab

None == [t |-> "none", x |-> <<>>]
Refused == [ok |-> FALSE, v |-> None]
Ok(v) == [ok |-> TRUE, v |-> v]
Known(u) == u \in DOMAIN UTab
ConvE(e, u, w) == IF e = <<>> THEN <<>> ELSE RMul(e, RDiv(<<UTab[u].n, UTab[u].d>>, <<UTab[w].n, UTab[w].d>>))
Numeric(v) == v.t \in {"int", "float", "num", "seq"}
ConvV(v, u, w) == [t |-> IF v.t = "seq" THEN "seq" ELSE "num", x |-> [i \in 1..Len(v.x) |-> IF u = w THEN v.x[i] ELSE ConvE(v.x[i], u, w)]]
\* an option with a unit takes (number or numbers or None, compatible unit)
TakeUnit(o, f) ==
  IF ~f.tup THEN Refused
  ELSE IF f.v.t = "none" \/ (f.v.t = "seq" /\ \A i \in 1..Len(f.v.x) : f.v.x[i] = <<>>) THEN Ok(f.v)   \* nothing to convert
  ELSE IF ~Numeric(f.v) THEN Refused
  ELSE IF f.u = o.unit THEN Ok(ConvV(f.v, f.u, f.u))
  ELSE IF Known(f.u) /\ Known(o.unit) /\ UTab[f.u].dim = UTab[o.unit].dim THEN Ok(ConvV(f.v, f.u, o.unit))
  ELSE Refused
\* another option takes one of its values; (value, 'unitless') means value
TakePlain(o, f) ==
  IF f.tup /\ f.u # "unitless" THEN Refused
  ELSE IF f.v.t = "none" THEN IF o.none \/ None \in o.vals \/ (o.types = {} /\ o.vals = {}) THEN Ok(None) ELSE Refused
  ELSE IF o.types # {} /\ f.v.t \notin o.types THEN Refused
  ELSE IF o.vals # {} /\ f.v \notin o.vals THEN Refused
  ELSE Ok(f.v)
Take(o, f) == IF o.unit # "" THEN TakeUnit(o, f) ELSE TakePlain(o, f)
\* a mission definition may leave the unit of a unitless option out
Wrap(f) == IF f.tup THEN f ELSE [tup |-> TRUE, v |-> f.v, u |-> "unitless"]
Shown(o, v) == IF o.unit # "" THEN [t |-> v.t, x |-> v.x] ELSE v
\* options of a phase built from a definition (through a mission definition or given directly to the builder)
Build(T, def, info) ==
  IF \E n \in DOMAIN def : n \notin DOMAIN T THEN [ok |-> FALSE, b |-> <<>>]
  ELSE LET r == [n \in DOMAIN def |-> Take(T[n], IF info THEN Wrap(def[n]) ELSE def[n])]
       IN IF \E n \in DOMAIN def : ~r[n].ok THEN [ok |-> FALSE, b |-> <<>>]
          ELSE [ok |-> TRUE, b |-> [n \in DOMAIN T |-> IF n \in DOMAIN def THEN r[n].v ELSE T[n].def]]
ToInfo(T, b) == [n \in DOMAIN b |-> [tup |-> T[n].unit # "", v |-> b[n], u |-> T[n].unit]]
\* reading an option in another unit
Read(T, b, n, u) == IF T[n].unit = "" THEN Refused
                    ELSE IF b[n].t = "none" THEN Ok(None) ELSE TakeUnit([T[n] EXCEPT !.unit = u], [tup |-> TRUE, v |-> b[n], u |-> T[n].unit])

----------------------------------------------------------------------------
VARIABLES def, info
vars == <<def, info>>
Init == def = <<>> /\ info \in BOOLEAN
Put(n) == /\ n \in DOMAIN def \/ Cardinality(DOMAIN def) < MaxPut
          /\ \E f \in Forms : def' = (n :> f) @@ def
Drop(n) == n \in DOMAIN def /\ def' = [m \in DOMAIN def \ {n} |-> def[m]]
\* the definition of the phase that was built
Back == /\ Build(Table, def, info).ok
        /\ def' = ToInfo(Table, Build(Table, def, info).b)
Next == ((Cardinality(DOMAIN def) <= MaxPut /\ \E n \in Names : Put(n) \/ Drop(n)) \/ Back) /\ UNCHANGED info
EmitCase == Cardinality(DOMAIN def') <= MaxPut => Emit([def |-> def', info |-> info, r |-> Build(Table, def', info)])

B == Build(Table, def, info)
RoundTrip == B.ok => \A i \in BOOLEAN : Build(Table, ToInfo(Table, B.b), i) = B
Complete == B.ok => DOMAIN B.b = DOMAIN Table
OnlyGiven == B.ok => \A n \in DOMAIN Table : B.b[n] # Table[n].def => n \in DOMAIN def
UnitsIgnoreOthers == B.ok => \A n \in DOMAIN def : Build(Table, n :> def[n], info).b[n] = B.b[n]
=============================================================================
