------------------------------- MODULE P14_Trace -------------------------------
(* recorded histories: [k, s, steps: [kind, q/res, got, same, name, taken]] *)
EXTENDS P14_Offdesign
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ orig = [x |-> 0] /\ hist = <<>> /\ taken = {}
Set(q) == {q[i] : i \in 1..Len(q)}
Same(w, g) == IF w.refused \/ g.refused THEN (IF w.refused = g.refused THEN {} ELSE {"refusal"})
              ELSE {f \in DOMAIN w : f \notin {"float", "guess", "refused"} /\ w[f] # g[f]}
                   \cup (IF w.float # Set(g.float) THEN {"float"} ELSE {})
                   \cup (IF w.guess # M /\ ~(2 * g.guess >= w.guess /\ g.guess <= w.guess) THEN {"guess"} ELSE {})
Judge(s, st) ==
  LET w == IF st.kind = "study" THEN Study(s, st.res) ELSE Off(s, st.q)
  IN (IF st.same THEN {} ELSE {"changed"})
     \cup (IF st.kind = "study"
           THEN (IF st.got.table # w.table THEN {"table"} ELSE {})
                \cup (IF Len(st.got.missions) # Len(w.missions) THEN {"missions"} ELSE UNION {Same(w.missions[i], st.got.missions[i]) : i \in 1..Len(w.missions)})
           ELSE Same(w, st.got) \cup (IF ~w.refused /\ ~st.got.refused /\ st.q.name = "" /\ st.name # Free(0, Set(st.taken)) THEN {"name"} ELSE {}))
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
            IN IF pos <= Len(t.steps)
               THEN LET b == Judge(t.s, t.steps[pos])
                    IN /\ (b # {} => Emit([tid |-> tid, pos |-> pos, bad |-> b, want |-> IF t.steps[pos].kind = "study" THEN Study(t.s, t.steps[pos].res) ELSE Off(t.s, t.steps[pos].q)]))
                       /\ pos' = pos + 1 /\ tid' = tid
               ELSE tid' = tid + 1 /\ pos' = 1
         /\ UNCHANGED vars
         /\ (tid = Len(Traces) /\ pos > Len(Traces[tid].steps) => Emit([done |-> tid]))
=============================================================================
