------------------------------- MODULE P09_Trace -------------------------------
(* recorded: t.kind "meta": calls [c, err, ds]; "hier": [hs, err, leaves] with leaves as sequences *)
EXTENDS P09_Merge
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos, cur
TInit == tid = 1 /\ pos = 1 /\ cur = <<>> /\ ds = <<>> /\ hist = <<>> /\ hs = <<>>
Before(t, i) == IF i = 1 THEN [d \in 1..ND |-> t.start] ELSE t.calls[i - 1].ds
MetaBad(t, i) == LET c == t.calls[i]
                     w == Step(Before(t, i), c.c)
                 IN (IF w.err # c.err THEN {"refusal"} ELSE {}) \cup (IF w.ds # c.ds /\ w.err = c.err THEN {"meta"} ELSE {})
HS(t) == [i \in 1..Len(t.hs) |-> [sup |-> t.hs[i].sup, leaves |-> Range(t.hs[i].leaves)]]
HierBad(t) == LET w == HMerge(HS(t)) IN (IF w.err # t.err THEN {"refusal"} ELSE {}) \cup (IF ~w.err /\ ~t.err /\ w.leaves # Range(t.leaves) THEN {"hierarchy"} ELSE {})
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                b == IF t.kind = "meta" THEN MetaBad(t, pos) ELSE HierBad(t)
                n == IF t.kind = "meta" THEN Len(t.calls) ELSE 1
            IN /\ (b # {} => Emit([tid |-> tid, pos |-> pos, bad |-> b, dev |-> t.kind = "hier" /\ PlainOverCore(HS(t))]))
               /\ IF pos < n THEN pos' = pos + 1 /\ tid' = tid ELSE pos' = 1 /\ tid' = tid + 1
         /\ UNCHANGED <<vars, cur>>
         /\ (tid = Len(Traces) /\ tid' > tid => Emit([done |-> tid]))
=============================================================================
