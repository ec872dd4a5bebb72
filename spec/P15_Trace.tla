------------------------------- MODULE P15_Trace -------------------------------
(* recorded deliveries: [fleet: engine names, given, got: sequence of [p, d, q, v]] of one mission *)
EXTENDS P15_Options
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ given = <<>>
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                W(i) == Deliver(t.fleet, t.given, t.got[i].p, t.got[i].d, t.got[i].q)
                bad == {i \in 1..Len(t.got) : W(i) # t.got[i].v}
            IN bad # {} => \A i \in bad : Emit([tid |-> tid, pos |-> i, bad |-> {IF t.got[i].p.e # "" /\ t.got[i].q.eng THEN "engine-entry" ELSE "value"}, want |-> W(i)])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
