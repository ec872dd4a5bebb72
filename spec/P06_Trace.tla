------------------------------- MODULE P06_Trace -------------------------------
(* recorded completions: [o, err, r, r2]: inputs, outcome, inputs after one and after two completions *)
EXTENDS P06_Crew
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE tid
TInit == tid = 1 /\ o0 = Base /\ o = Base /\ err = "" /\ n = 0
Judge(t) == LET w == Result(t.o)
                d == ResultDev(t.o)
            IN [bad |-> (IF w.err # t.err THEN {"refusal"} ELSE {}) \cup (IF w.err = "" /\ t.err = "" /\ w.o # t.r THEN {"completion"} ELSE {})
                        \cup (IF t.err = "" /\ t.r2 # t.r THEN {"second"} ELSE {}),
                dev |-> d.err = t.err /\ d.o = t.r, unstable |-> Unstable(t.o), want |-> w]
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                j == Judge(t)
            IN j.bad # {} => Emit([tid |-> tid, pos |-> 1, bad |-> j.bad, dev |-> j.dev, unstable |-> j.unstable, want |-> j.want])
         /\ tid' = tid + 1 /\ UNCHANGED vars
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
