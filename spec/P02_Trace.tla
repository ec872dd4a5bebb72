------------------------------ MODULE P02_Trace ------------------------------
(* traces: [given, default, types, decl, ev]; ev: [v, u, ok, st] recorded from the code *)
EXTENDS P02_Types
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 0 /\ decl = 0 /\ st = Nothing /\ hist = <<>>
TDecl == /\ tid <= Len(Traces) /\ pos = 0
         /\ LET T == Traces[tid] IN
            /\ decl' = T.decl
            /\ (Declared(T.given, T.default) # T.decl.types =>
                  Emit([tid |-> tid, pos |-> 0, bad |-> {"types"}, want |-> Declared(T.given, T.default)]))
         /\ pos' = 1 /\ UNCHANGED <<tid, st, hist>>
TStep == /\ tid <= Len(Traces) /\ pos >= 1 /\ pos <= Len(Traces[tid].ev)
         /\ LET e == Traces[tid].ev[pos]
                r == SetStep(decl, st, e.v, e.u)
                dv == DevStep(decl, st, e.v, e.u)
                bad == (IF r.ok # e.ok THEN {"accepted"} ELSE {}) \cup (IF r.st # e.st THEN {"stored"} ELSE {})
            IN /\ st' = e.st      \* continue from what the code holds
               /\ (bad # {} => Emit([tid |-> tid, pos |-> pos, bad |-> bad, want |-> r,
                                     dev |-> dv.ok = e.ok /\ dv.st = e.st]))
         /\ pos' = pos + 1 /\ UNCHANGED <<tid, decl, hist>>
TEnd == /\ tid <= Len(Traces) /\ pos > Len(Traces[tid].ev)
        /\ tid' = tid + 1 /\ pos' = 0 /\ st' = Nothing /\ UNCHANGED <<decl, hist>>
        /\ (tid = Len(Traces) => Emit([done |-> tid]))
TNext == TDecl \/ TStep \/ TEnd
=============================================================================
