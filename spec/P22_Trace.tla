------------------------------- MODULE P22_Trace -------------------------------
(* recorded objectives: [kind, args, ref, adv, vals: mission -> quantity -> value, r]; num/den/ref as observed rationals *)
EXTENDS P22_Objective
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ args = <<>> /\ ref = M /\ adv = NoAdv
Agree(t, w) == IF ~w.ok \/ ~t.r.ok THEN w.ok = t.r.ok ELSE /\ Rat(w.num, w.den) = <<t.r.num, t.r.den>> /\ w.ref = t.r.ref
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                w == IF t.kind = "adv" THEN Advanced(t.adv) ELSE Objective(t.args, t.ref)
            IN (~Agree(t, w) => Emit([tid |-> tid, pos |-> 1, bad |-> {IF w.ok # t.r.ok THEN "refusal" ELSE IF w.ref # t.r.ref THEN "ref" ELSE "value"}, want |-> w]))
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
