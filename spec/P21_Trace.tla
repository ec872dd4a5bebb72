---------------------------- MODULE P21_Trace ----------------------------
(* Recorded histories of processes. The first line gives, for every program, what its stages gave alone: [solo: program -> sequence of [out, err]];
   each further line a history: events [s, p, k, out, err, reg] in the order performed, reg the shipped tables that were no longer as shipped.
   A history is one of the specification if every event begins or continues its session; its results are those of the program alone. *)
EXTENDS P21_Independence
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ Init
Programs == Traces[1].solo
Bad(ev, i) == LET e == ev[i]
                  want == Programs[e.p][e.k]
                  earlier == {j \in 1..(i - 1) : ev[j].s = e.s} IN
   (IF Cardinality(earlier) # e.k - 1 \/ (\E j \in earlier : ev[j].p # e.p) THEN {"order"} ELSE {})
   \cup (IF e.err # want.err THEN {"refusal"} ELSE IF e.out # want.out THEN {"result"} ELSE {})
   \cup (IF e.reg # <<>> THEN {"shared"} ELSE {})
TNext == /\ tid <= Len(Traces)
         /\ LET ev == Traces[tid].events
                odd == {i \in 1..Len(ev) : Bad(ev, i) # {}} IN
            odd # {} => LET i == CHOOSE x \in odd : \A y \in odd : x <= y IN Emit([tid |-> tid, pos |-> i, bad |-> Bad(ev, i), want |-> Programs[ev[i].p][ev[i].k]])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
