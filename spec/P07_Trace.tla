------------------------------- MODULE P07_Trace -------------------------------
(* recorded preprocessing runs: [a, e, r, r2, t, xs]: counts before, after one and two runs, totals, and for
   every other variable x = [a, e, d, multi, r, r2] *)
EXTENDS P07_Fleet
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLE tid
TInit == tid = 1 /\ w0 = 0 /\ a = 0 /\ n = 0
Cnt(t) == LET ex == [num |-> t.e.num, fus |-> t.e.fus, wng |-> t.e.wng, v |-> [i \in 1..Len(t.e.num) |-> <<>>], m |-> [i \in 1..Len(t.e.num) |-> <<>>]]
              r == Result([num |-> t.a.num, fus |-> t.a.fus, wng |-> t.a.wng, v |-> <<>>, m |-> <<>>], ex)
          IN [num |-> r.num, fus |-> r.fus, wng |-> r.wng]
\* an engine keeps the first of several values when the variable is declared with a scalar default
Eng(x) == IF x.cut THEN [i \in 1..Len(x.e) |-> IF x.e[i] = <<>> THEN <<>> ELSE <<x.e[i][1]>>] ELSE x.e
XWant(x) == Vec([a |-> x.a, e |-> Eng(x)], x.d, x.multi)
XBad(x) == (IF XWant(x) # x.r THEN {"vector"} ELSE {}) \cup (IF x.r2 # x.r THEN {"second"} ELSE {})
Rep(x) == x.multi /\ Vec([a |-> x.r, e |-> Eng(x)], x.d, TRUE) = x.r2
Judge(t) == LET c == Cnt(t) IN
   (IF c # t.r THEN {[c |-> "counts", k |-> "", rep |-> FALSE]} ELSE {})
   \cup (IF Totals(c) # t.t THEN {[c |-> "totals", k |-> "", rep |-> FALSE]} ELSE {})
   \cup (IF t.r2 # t.r THEN {[c |-> "second", k |-> "counts", rep |-> FALSE]} ELSE {})
   \cup UNION {{[c |-> b, k |-> t.xs[i].k, rep |-> b = "second" /\ Rep(t.xs[i])] : b \in XBad(t.xs[i])} : i \in 1..Len(t.xs)}
TNext == /\ tid <= Len(Traces)
         /\ LET j == Judge(Traces[tid]) IN j # {} => Emit([tid |-> tid, pos |-> 1, bad |-> j, want |-> Cnt(Traces[tid])])
         /\ tid' = tid + 1 /\ UNCHANGED vars
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
