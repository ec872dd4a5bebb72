------------------------------- MODULE P23_Trace -------------------------------
(* recorded applications: [k, ok, phases: phases as in P23_Guesses whose vars also carry before and got (times P)] *)
EXTENDS P23_Guesses
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid
TInit == tid = 1 /\ mission = <<>> /\ held = <<>> /\ round = 0
Span(v) == LET a == {Abs(v[i]) : i \in DOMAIN v} IN (CHOOSE x \in a : \A y \in a : y <= x)
Tol(ph, x, w) == 3 + Abs(w) \div 1000000 + (IF TimeVar(x.n) THEN 0 ELSE LET p == Profile(ph, x.n) IN IF p = Keep \/ Len(p.v) = 1 THEN 0 ELSE 4 * Len(p.v) * Span(p.v))
Wrong(ph, k) == LET x == ph.vars[k] IN x.own /\
                \E j \in DOMAIN x.pos : LET w == Node(ph, k, j) IN
                    IF w = None THEN Abs(x.got[j] - x.before[j]) > 3 + Abs(x.before[j]) \div 1000000 ELSE Abs(x.got[j] - w) > Tol(ph, x, w)
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                must == \E i \in DOMAIN t.phases : Refused(t.phases[i])
                may == \E i \in DOMAIN t.phases : MayRefuse(t.phases[i])
                bad == IF must THEN (IF t.ok THEN {<<"accepted", "">>} ELSE {})
                       ELSE IF ~t.ok THEN (IF may THEN {} ELSE {<<"refused", "">>})
                       ELSE UNION {{<<t.phases[i].name, t.phases[i].vars[k].n>> : k \in {y \in DOMAIN t.phases[i].vars : Wrong(t.phases[i], y)}} : i \in DOMAIN t.phases}
                one == IF bad = {} \/ must \/ ~t.ok THEN <<>>
                       ELSE LET b == CHOOSE b \in bad : TRUE
                                i == CHOOSE i \in DOMAIN t.phases : t.phases[i].name = b[1]
                                k == CHOOSE k \in DOMAIN t.phases[i].vars : t.phases[i].vars[k].n = b[2]
                            IN [phase |-> b[1], var |-> b[2], want |-> After(t.phases[i])[k], got |-> t.phases[i].vars[k].got]
            IN bad # {} => Emit([tid |-> tid, bad |-> bad, want |-> one])
         /\ tid' = tid + 1 /\ UNCHANGED vars
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
