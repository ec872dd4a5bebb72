------------------------------- MODULE P11_Trace -------------------------------
(* recorded: [m, par, split: <<regular, reserve>> counts or <<>> when refused, links: per boundary a sequence of joins,
   goals: sequence of [phase, what, resid: target minus covered, on a try], first: [distance, mass: initial value comes from outside], takeoff] *)
EXTENDS P11_Links
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
SetOf(s) == {s[i] : i \in 1..Len(s)}
Mission(t) == [i \in 1..Len(t.m) |-> [t.m[i] EXCEPT !.links = SetOf(t.m[i].links)]]
Want(t, m) == [ordered |-> Ordered(m), links |-> IF Ordered(m) THEN Links(m, t.par) ELSE <<>>, goals |-> Asked(m)]
GoalOf(m, g) == RSub(IF g.what = "distance" THEN m[g.phase].target[1] ELSE m[g.phase].lasts[1], <<20, 1>>)
TInit == tid = 1 /\ pos = 1 /\ mission = <<>> /\ par = FALSE
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                m == Mission(t)
                w == Want(t, m)
                bad == IF "crash" \in DOMAIN t THEN {"refused"}
                       ELSE IF ~w.ordered THEN (IF t.split # <<>> THEN {"accepted-order"} ELSE {})
                       ELSE IF t.split = <<>> THEN {"refused-order"}
                       ELSE (IF t.split # <<Cardinality({i \in 1..Len(m) : ~m[i].reserve}), Cardinality({i \in 1..Len(m) : m[i].reserve})>> THEN {"split"} ELSE {})
                            \cup UNION {(IF {[from |-> j.from, to |-> j.to] : j \in SetOf(t.links[i])} # {[from |-> j.from, to |-> j.to] : j \in w.links[i]} THEN {"joins"} ELSE {})
                                        \cup (IF {[to |-> j.to, passed |-> j.passed] : j \in SetOf(t.links[i])} # {[to |-> j.to, passed |-> j.passed] : j \in w.links[i]} THEN {"manner"} ELSE {})
                                        \cup (IF {[to |-> j.to, scale |-> j.scale] : j \in SetOf(t.links[i])} # {[to |-> j.to, scale |-> j.scale] : j \in w.links[i]} THEN {"scale"} ELSE {}) : i \in 1..(Len(m) - 1)}
                            \cup (IF {[phase |-> g.phase, what |-> g.what] : g \in SetOf(t.goals)} # w.goals \/ Len(t.goals) # Cardinality(w.goals) THEN {"targets"} ELSE {})
                            \cup (IF \E i \in 1..Len(t.goals) : GoalOf(m, t.goals[i]) # t.goals[i].resid THEN {"target-value"} ELSE {})
                            \cup (IF t.first # t.firstwant THEN {"start"} ELSE {})
            IN bad # {} => Emit([tid |-> tid, pos |-> 1, bad |-> bad, want |-> w])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
