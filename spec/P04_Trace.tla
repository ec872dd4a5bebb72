------------------------------- MODULE P04_Trace -------------------------------
(* recorded histories: [k, steps: sequence of [op, f, found, ok, mem, got, kept]];
   op "set" (mem: the inputs now), "analyse", "deck", "results", "load" (got: what was loaded); mem is read after every step;
   inputs are sequences of [n, e, u] *)
EXTENDS P04_SaveLoad
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid
TInit == tid = 1 /\ Init
Fn(s) == [n \in {s[i].n : i \in DOMAIN s} |-> LET i == CHOOSE i \in DOMAIN s : s[i].n = n IN [e |-> s[i].e, u |-> s[i].u]]
Start == [mem |-> Nothing, files |-> [f \in {"a", "b"} |-> NoFile], found |-> [n \in {GROSS, DESIGN} |-> "0.0"], bad |-> {}]
Differ(x, y) == {n \in DOMAIN x \cup DOMAIN y : n \notin DOMAIN x \/ n \notin DOMAIN y \/ (IF n \in DOMAIN x \cap DOMAIN y THEN ~Same(x[n], y[n]) ELSE TRUE)}
Step(s, x) ==
   LET now == Fn(x.mem)
       same == Differ(now, s.mem)
       saved == IF x.op = "deck" THEN [kind |-> "deck", c |-> <<>>, was |-> s.mem] ELSE [kind |-> "results", c |-> <<>>, was |-> Results(s.mem, s.found)]
       wrong == CASE x.op = "set" -> {}
                  [] ~x.ok -> {<<x.op, "fails">>}
                  [] x.op = "load" -> {<<s.files[x.f].kind, n>> : n \in Differ(Fn(x.got), s.files[x.f].was)} \cup {<<"changed", n>> : n \in same}
                  [] OTHER -> {<<"changed", n>> : n \in same}
   IN [mem |-> now,
       files |-> IF x.op \in {"deck", "results"} /\ x.ok THEN [s.files EXCEPT ![x.f] = saved] ELSE s.files,
       found |-> IF x.op = "analyse" THEN [n \in {GROSS, DESIGN} |-> IF n = GROSS THEN x.found[1] ELSE x.found[2]] ELSE s.found,
       bad |-> s.bad \cup wrong]
RECURSIVE Walk(_, _, _)
Walk(s, xs, i) == IF i > Len(xs) THEN s ELSE Walk(Step(s, xs[i]), xs, i + 1)
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                r == Walk(Start, t.steps, 1)
            IN r.bad # {} => Emit([tid |-> tid, bad |-> r.bad, want |-> "what was saved"])
         /\ tid' = tid + 1 /\ UNCHANGED vars
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
