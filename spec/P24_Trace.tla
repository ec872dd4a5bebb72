------------------------------- MODULE P24_Trace -------------------------------
(* recorded conversions: [deck, known, rest, ok] *)
EXTENDS P24_Legacy
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
Fn(s) == [n \in {s[j].n : j \in 1..Len(s)} |-> LET j == CHOOSE j \in 1..Len(s) : s[j].n = n IN [v |-> s[j].v, u |-> s[j].u, b |-> s[j].b]]
TInit == tid = 1 /\ pos = 1 /\ deck = <<>> /\ st = Start
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid] w == Run(Start, t.deck) k == Fn(t.known) r == Fn(t.rest)
                bad == (IF w.ok # t.ok THEN {"refusal"} ELSE {}) \cup
                       (IF ~w.ok \/ ~t.ok THEN {} ELSE (IF k # w.known THEN {"known"} ELSE {}) \cup (IF r # w.rest THEN {"aside"} ELSE {}))
                diff == {n \in DOMAIN k \cup DOMAIN w.known : ~(n \in DOMAIN k /\ n \in DOMAIN w.known) \/ k[n] # w.known[n]}
            IN (bad # {} => Emit([tid |-> tid, pos |-> 1, bad |-> bad, diff |-> diff, want |-> [n \in diff \cap DOMAIN w.known |-> w.known[n]], rest |-> w.rest]))
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
