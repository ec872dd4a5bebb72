------------------------------- MODULE P03_Trace -------------------------------
(* recorded loads: [k, deck, caller, ok, got: sequence of [cls, t, vals, u], changed: other names that moved, v] *)
EXTENDS P03_Deck
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid
TInit == tid = 1 /\ deck = <<>> /\ caller = "" /\ pos = 0 /\ mem = <<>> /\ state = ""
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                w == Load(t.deck, t.caller)
                got == {<<<<g.cls, g.t>>, [vals |-> g.vals, u |-> g.u]>> : g \in Range(t.got)}
                bad == IF ~w.ok THEN (IF t.ok THEN {"not-refused"} ELSE {})
                       ELSE IF ~t.ok THEN {"refused"}
                       ELSE {k \in {"values", "others", "verbosity"} : CASE k = "values" -> got # w.m [] k = "others" -> t.changed # <<>> [] OTHER -> t.v # w.v}
                diff == SetToSeq((got \ w.m) \cup (w.m \ got))
            IN bad # {} => Emit([tid |-> tid, bad |-> bad, want |-> w, diff |-> IF w.ok /\ t.ok THEN diff ELSE <<>>])
         /\ tid' = tid + 1 /\ UNCHANGED vars
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
