------------------------------ MODULE P01_Trace ------------------------------
EXTENDS P01_Store

(* validation of recorded traces: each trace is [cls, ev], ev a sequence of [op, res, st] *)
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
tvars == <<cls, st, hist, tid, pos>>
TInit == /\ tid = 1 /\ pos = 1 /\ st = <<Empty, Empty>> /\ hist = <<>> /\ cls = Traces[1].cls
TStep == /\ tid <= Len(Traces) /\ pos <= Len(Traces[tid].ev)
         /\ LET e == Traces[tid].ev[pos]
                r == Step(cls, st, e.op)
                bad == {c \in {"result", "state"} : (c = "result" /\ r.res # e.res) \/ (c = "state" /\ r.st # e.st)}
            IN /\ st' = r.st
               /\ (bad # {} => Emit([tid |-> tid, pos |-> pos, bad |-> bad, res |-> r.res, st |-> r.st]))
         /\ pos' = pos + 1 /\ UNCHANGED <<cls, hist, tid>>
TEnd == /\ tid <= Len(Traces) /\ pos > Len(Traces[tid].ev)
        /\ tid' = tid + 1 /\ pos' = 1 /\ st' = <<Empty, Empty>> /\ hist' = <<>>
        /\ cls' = IF tid < Len(Traces) THEN Traces[tid + 1].cls ELSE cls
        /\ (tid = Len(Traces) => Emit([done |-> tid]))
TNext == TStep \/ TEnd
=============================================================================
