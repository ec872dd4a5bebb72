------------------------------- MODULE P12_Trace -------------------------------
(* recorded: [kind, opts, made: what the phase that was built holds, unit, units: declared and found] *)
EXTENDS P12_Phase
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
SetOf(s) == {s[i] : i \in 1..Len(s)}
OptsOf(t) == IF t.kind = "extra" THEN [t.opts EXCEPT !.user = SetOf(t.opts.user)] ELSE t.opts
MadeOf(t) == IF t.kind = "extra" /\ t.made.ok THEN [t.made EXCEPT !.path = SetOf(t.made.path), !.ends = SetOf(t.made.ends)] ELSE t.made
\* nothing is said about bounds and references of a time that is not free
Matters(t, o) == IF t.kind \in {"energy", "two_dof", "solved"}
                 THEN {"fixi", "fixd"} \cup (IF Free(o) THEN {"ib", "ir"} ELSE {}) \cup (IF Given(o.duration) THEN {} ELSE {"db", "dr"})
                 ELSE DOMAIN MadeK(t.kind, o)
TInit == tid = 1 /\ pos = 1 /\ opts = <<>>
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                o == OptsOf(t)
                w == MadeK(t.kind, o)
                m == MadeOf(t)
                bad == IF "crash" \in DOMAIN t THEN (IF t.kind = "extra" /\ ~w.ok THEN {} ELSE {"refused"})
                       ELSE IF t.kind = "extra" /\ ~w.ok THEN {"accepted"}
                       ELSE {f \in Matters(t, o) : m[f] # w[f]} \cup (IF t.unit # t.units THEN {"units"} ELSE {})
            IN bad # {} => Emit([tid |-> tid, pos |-> 1, bad |-> bad, want |-> w])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
