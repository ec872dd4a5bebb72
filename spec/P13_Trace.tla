------------------------------ MODULE P13_Trace ------------------------------
(* recorded formulations: [conf, user: Seq(Dv), refused, dvs, cons, objs: Seq, rel: Seq([name, ok-values])]
   rel: relations between values of the run model, [n, lhs: Int, terms: Seq([k, v]), tol]: lhs = sum of k*v within tol *)
EXTENDS P13_Formulation
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ conf = {} /\ dvs = {} /\ cons = {} /\ objs = {} /\ calls = <<>>
Got(s) == {s[i] : i \in 1..Len(s)}
\* bounds of the ascent's own duration are the phase's business
Loose(d) == IF d.n = "mission:takeoff:ascent_duration" THEN Dv(d.n, 0, 0, 0) ELSE d
Want(t) == {Loose(d) : d \in DesignVars(t.conf) \cup Got(t.user)}
Bad(t) ==
  IF Refuses(t.conf) \/ t.refused THEN IF Refuses(t.conf) = t.refused THEN {} ELSE {"refusal"}
  ELSE LET gd == {Loose(d) : d \in Got(t.dvs)} gc == Got(t.cons) wc == MissionCons(t.conf) \cup VarCons(t.conf)
       IN (IF Want(t) \subseteq gd THEN {} ELSE {"missing-variable"}) \cup (IF gd \subseteq Want(t) THEN {} ELSE {"extra-variable"})
          \cup (IF wc \subseteq gc THEN {} ELSE {"missing-constraint"}) \cup (IF gc \subseteq wc THEN {} ELSE {"extra-constraint"})
          \cup (IF t.conf.ptype = "multi" \/ Got(t.objs) = {Objective(t.conf)} THEN {} ELSE {"objective"})
Delta(t) == LET w == Want(t) \cup MissionCons(t.conf) \cup VarCons(t.conf) g == {Loose(d) : d \in Got(t.dvs)} \cup Got(t.cons)
            IN [missing |-> {x.n : x \in w} \ {x.n : x \in g}, extra |-> {x.n : x \in g} \ {x.n : x \in w}, objective |-> IF t.conf.ptype = "multi" THEN {} ELSE {Objective(t.conf)}]
Wrong(t) == {t.rel[i].n : i \in {i \in 1..Len(t.rel) : LET r == t.rel[i] d == r.lhs - SumSeq([j \in 1..Len(r.terms) |-> r.terms[j].k * r.terms[j].v]) IN Abs(d) > r.tol}}
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid] b == Bad(t) \cup (IF t.refused THEN {} ELSE Wrong(t))
            IN b # {} => Emit([tid |-> tid, pos |-> 1, bad |-> b, want |-> IF Refuses(t.conf) THEN [missing |-> {}, extra |-> {}, objective |-> {}] ELSE Delta(t)])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
