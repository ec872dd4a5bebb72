------------------------------- MODULE P08_Trace -------------------------------
(* recorded: one line per case, [part, v]: the inputs; what is to be derived from them is told for each *)
EXTENDS P08_Derived
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ Init
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid] IN Emit([tid |-> tid, pos |-> 1, bad |-> {"told"}, want |-> IF Counts(t.part, t.v) THEN [counts |-> TRUE, w |-> Result(t.part, t.v)] ELSE [counts |-> FALSE]])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
