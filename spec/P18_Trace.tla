------------------------------- MODULE P18_Trace -------------------------------
(* recorded lookups: [l: layout (sequences), items: sorted entries of the models folder, rs: sequence of [q, w]] *)
EXTENDS P18_Paths
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ l = 0 /\ req = None /\ stage = 0 /\ found = None
Lay(t) == [k \in DOMAIN t.l |-> Range(t.l[k])]
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                bad == {i \in 1..Len(t.rs) : Resolve(Lay(t), t.items, t.rs[i].q) # t.rs[i].w}
            IN \A i \in bad : Emit([tid |-> tid, pos |-> i, bad |-> {"lookup"}, want |-> Resolve(Lay(t), t.items, t.rs[i].q)])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
