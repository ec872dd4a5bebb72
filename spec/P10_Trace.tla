------------------------------- MODULE P10_Trace -------------------------------
(* recorded models: [k, w, ok, seen: per variable the distinct readings, kept: sequence of [as, i, v], sources: number of sources per variable,
   report: <<>> or <<internal, external>> index lists of the overrides report] *)
EXTENDS P10_Overrides
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid
TInit == tid = 1 /\ world = <<>> /\ val = <<>> /\ kept = {} /\ stage = ""
Named(w, as) == {k.i : k \in {x \in Outcome(w).kept : x.as = as}}
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                o == Outcome(t.w)
                bad == IF ~o.ok THEN (IF t.ok THEN {"not-refused"} ELSE {})
                       ELSE IF ~t.ok THEN {"refused"}
                       ELSE {k \in {"seen", "kept", "sources", "report"} :
                               CASE k = "seen" -> \E i \in DOMAIN t.w : Range(t.seen[i]) \ {o.seen[i]} # {}
                                 [] k = "kept" -> Range(t.kept) # o.kept
                                 [] k = "sources" -> t.sources # o.sources
                                 [] OTHER -> t.report # <<>> /\ <<Range(t.report[1]), Range(t.report[2])>> # <<Named(t.w, "AIRCRAFT_DATA_OVERRIDE"), Named(t.w, "EXTERNAL_SUBSYSTEM_OVERRIDE")>>}
            IN bad # {} => Emit([tid |-> tid, bad |-> bad, want |-> o])
         /\ tid' = tid + 1 /\ UNCHANGED vars
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
