------------------------------- MODULE P17_Trace -------------------------------
(* recorded fleets: [fleet, mission, totals, pre] as observed *)
EXTENDS P17_Fleet
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ fleet = <<>> /\ agg = <<>> /\ al = <<>>
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                w == Result(t.fleet)
                bad == {q \in DOMAIN w.mission : w.mission[q] # t.mission[q]} \cup {"total-" \o q : q \in {q \in DOMAIN w.totals : w.totals[q] # t.totals[q]}}
                         \cup (IF w.pre # t.pre THEN {"pre"} ELSE {})
            IN bad # {} => Emit([tid |-> tid, pos |-> 1, bad |-> bad, want |-> w])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
