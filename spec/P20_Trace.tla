------------------------------- MODULE P20_Trace -------------------------------
(* recorded: one line per case, [k, f, runs: [c, out, err]]: every run of the case must come out the same *)
EXTENDS P20_Verbosity
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ seen = <<>> /\ runs = 0
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                odd == {i \in 1..Len(t.runs) : t.runs[i].out # t.runs[1].out \/ t.runs[i].err # t.runs[1].err}
                first == CHOOSE i \in odd : \A j \in odd : i <= j
                off == {i \in 1..Len(t.runs) : ~Offered(t.f, t.runs[i].c)}
            IN ((odd # {} \/ off # {}) => Emit([tid |-> tid, bad |-> (IF off # {} THEN {"channels"} ELSE {}) \cup (IF odd = {} THEN {} ELSE IF t.runs[first].err # t.runs[1].err THEN {"refusal"} ELSE {"outcome"}),
                                               want |-> IF odd = {} THEN <<>> ELSE <<first, InEffect(t.runs[first].c)>>]))
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
