-------------------------------- MODULE Units --------------------------------
(* The unit algebra the specifications need: dimension, scale n/d to the base unit of the
   dimension, offset o in hundredths (base = (v + o/100) * n/d). "foo" is not a unit. *)
EXTENDS Emit

UnitTab ==
  [ ft |-> [dim |-> "L", n |-> 12, d |-> 1, o |-> 0],
    inch |-> [dim |-> "L", n |-> 1, d |-> 1, o |-> 0],
    m |-> [dim |-> "L", n |-> 5000, d |-> 127, o |-> 0],
    s |-> [dim |-> "T", n |-> 1, d |-> 1, o |-> 0],
    min |-> [dim |-> "T", n |-> 60, d |-> 1, o |-> 0],
    h |-> [dim |-> "T", n |-> 3600, d |-> 1, o |-> 0],
    degK |-> [dim |-> "K", n |-> 1, d |-> 1, o |-> 0],
    degC |-> [dim |-> "K", n |-> 1, d |-> 1, o |-> 27315],
    degR |-> [dim |-> "K", n |-> 5, d |-> 9, o |-> 0],
    degF |-> [dim |-> "K", n |-> 5, d |-> 9, o |-> 45967],
    unitless |-> [dim |-> "1", n |-> 1, d |-> 1, o |-> 0] ]

IsUnit(u) == u \in DOMAIN UnitTab
Compatible(u, w) == IsUnit(u) /\ IsUnit(w) /\ UnitTab[u].dim = UnitTab[w].dim

(* value v (rational, small) in unit u, expressed in unit w *)
Conv(v, u, w) ==
  IF u = w THEN v ELSE
  LET a == UnitTab[u]
      b == UnitTab[w]
      base == RMul(RAdd(v, Rat(a.o, 100)), Rat(a.n, a.d))
  IN  RSub(RMul(base, Rat(b.d, b.n)), Rat(b.o, 100))
=============================================================================
