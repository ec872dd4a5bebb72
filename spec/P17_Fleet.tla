------------------------------- MODULE P17_Fleet -------------------------------
(* A fleet is a sequence of engine types [k: kind, c: number of engines, p: its entry of a vector parameter, t: throttle
   per node (quarters of full), y: hybrid throttle per node]. Kinds[k] gives the performance coefficients of the model:
   a thrust, b fuel, e electric power, x NOx, h thrust per hybrid throttle, s and s2 thrust per parameter (p and a second one, p + 7), hyb / own: uses the
   hybrid throttle / computes its maximum thrust itself (m), gives: the performance it computes at all, pre: it has a
   pre-mission model, sls: which computes the scaled sea level thrust, r: reference thrust, g: gain option. *)
EXTENDS Emit
CONSTANTS Kinds, NN, Counts, Params, Throttles, MaxTypes, Ops, AllocMode, Aggs, Allocs

Full == 4
Nodes == 1..NN
Of(e) == IF "q" \in DOMAIN e THEN e.q ELSE Kinds[e.k]
Has(e, what) == IsIn(what, Of(e).gives)
Thrust(e, n) == IF Has(e, "thrust") THEN Of(e).g * Of(e).a * e.t[n] + (IF Of(e).hyb THEN Of(e).h * e.y[n] ELSE 0) + Of(e).s * e.p + Of(e).s2 * (e.p + 7) ELSE 0
ThrustMax(e, n) == IF ~Has(e, "thrust") THEN 0 ELSE IF Of(e).own THEN Of(e).m + e.t[n]
                   ELSE Of(e).g * Of(e).a * Full + (IF Of(e).hyb THEN Of(e).h * Full ELSE 0) + Of(e).s * e.p + Of(e).s2 * (e.p + 7)
Fuel(e, n) == IF Has(e, "fuel") THEN -(Of(e).b * e.t[n]) ELSE 0
Electric(e, n) == IF Has(e, "electric") THEN Of(e).e * e.t[n] ELSE 0
Nox(e, n) == IF Has(e, "nox") THEN Of(e).x * e.t[n] ELSE 0
Shaft(e, n) == IF Has(e, "shaft") THEN Of(e).a * e.t[n] + 1 ELSE 0
ShaftMax(e, n) == IF Has(e, "shaft") THEN (IF Of(e).own THEN Of(e).m ELSE Of(e).a * Full + 1) ELSE 0
\* scaled sea level thrust: computed before the mission, else as given
Sls(e) == IF Of(e).pre /\ Of(e).sls THEN Of(e).g * Of(e).r * e.p ELSE 100 * e.p
PerEngine(f, Q(_, _)) == [n \in Nodes |-> [i \in 1..Len(f) |-> Q(f[i], n)]]
Total(f, Q(_, _)) == [n \in Nodes |-> SumSeq([i \in 1..Len(f) |-> f[i].c * Q(f[i], n)])]
Mission(f) == [thrust |-> PerEngine(f, Thrust), thrust_max |-> PerEngine(f, ThrustMax), fuel |-> PerEngine(f, Fuel), electric |-> PerEngine(f, Electric),
               nox |-> PerEngine(f, Nox), shaft |-> PerEngine(f, Shaft), shaft_max |-> PerEngine(f, ShaftMax)]
Totals(f) == [thrust |-> Total(f, Thrust), thrust_max |-> Total(f, ThrustMax), fuel |-> Total(f, Fuel), electric |-> Total(f, Electric), nox |-> Total(f, Nox)]
PreMission(f) == [sls |-> [i \in 1..Len(f) |-> Sls(f[i])], total |-> SumSeq([i \in 1..Len(f) |-> f[i].c * Sls(f[i])])]
\* d total / d per-engine value of engine type i
Weight(f, i) == f[i].c
Result(f) == [mission |-> Mission(f), totals |-> Totals(f), pre |-> PreMission(f)]

(* throttle allocation: agg per node (quarters), al: row of shares (quarters) for every type but the last, one row per node when dynamic *)
Row(al, n) == IF AllocMode = "dynamic" THEN al[n] ELSE al[1]
Shares(al, n) == Append(Row(al, n), Full - SumSeq(Row(al, n)))
Alloc(agg, al) == [throttle |-> [n \in Nodes |-> [j \in 1..Len(Shares(al, n)) |-> agg[n] * Shares(al, n)[j]]],      \* in 16ths
                   sum |-> [i \in 1..Len(al) |-> SumSeq(al[i])]]
DAgg(agg, al, n, j) == Shares(al, n)[j]
DAlloc(agg, al, n, j, k) == IF j = Len(Row(al, n)) + 1 THEN -agg[n] ELSE IF j = k THEN agg[n] ELSE 0

----------------------------------------------------------------------------
VARIABLES fleet, agg, al
vars == <<fleet, agg, al>>
Engines == [k : DOMAIN Kinds, c : Counts, p : Params, t : [Nodes -> Throttles], y : [Nodes -> Throttles]]
\* throttles of the i-th type added: one pattern per position keeps the state space small
Pattern(i) == [n \in Nodes |-> (2 * i + 3 * n) % (Full + 1)]
HPattern(i) == [n \in Nodes |-> (i + 2 * n) % (Full + 1)]
Init == IF "alloc" \in Ops THEN fleet = <<>> /\ agg \in [Nodes -> Aggs] /\ al \in [1..(IF AllocMode = "dynamic" THEN NN ELSE 1) -> UNION {[1..m -> Allocs] : m \in 1..(MaxTypes - 1)}]
                                /\ \A i, j \in DOMAIN al : Len(al[i]) = Len(al[j])
        ELSE fleet = <<>> /\ agg = <<>> /\ al = <<>>
Add == /\ "add" \in Ops /\ Len(fleet) < MaxTypes
       /\ \E k \in DOMAIN Kinds, c \in Counts, p \in Params :
            fleet' = Append(fleet, [k |-> k, c |-> c, p |-> p, t |-> Pattern(Len(fleet) + 1), y |-> HPattern(Len(fleet) + 1)])
       /\ UNCHANGED <<agg, al>>
Swap == /\ "swap" \in Ops /\ \E i \in 1..(Len(fleet) - 1) : fleet' = [fleet EXCEPT ![i] = fleet[i + 1], ![i + 1] = fleet[i]]
        /\ UNCHANGED <<agg, al>>
\* one type of c engines modelled as two types
Split == /\ "split" \in Ops /\ Len(fleet) < MaxTypes
         /\ \E i \in 1..Len(fleet) : fleet[i].c > 1 /\ \E c \in 1..(fleet[i].c - 1) :
              fleet' = Append([fleet EXCEPT ![i].c = c], [fleet[i] EXCEPT !.c = fleet[i].c - c])
         /\ UNCHANGED <<agg, al>>
Tune == /\ "tune" \in Ops /\ \E i \in 1..Len(fleet), n \in Nodes, v \in Throttles : v # fleet[i].t[n] /\ fleet' = [fleet EXCEPT ![i].t[n] = v]
        /\ UNCHANGED <<agg, al>>
Share == "alloc" \in Ops /\ al # <<>> /\ al' = <<>> /\ UNCHANGED <<fleet, agg>>
Next == Add \/ Swap \/ Split \/ Tune \/ Share
EmitCase == IF "alloc" \in Ops THEN Emit([agg |-> agg, al |-> al, r |-> Alloc(agg, al),
                                           dagg |-> [n \in Nodes |-> Shares(al, n)],
                                           dal |-> [n \in Nodes |-> [j \in 1..(Len(Row(al, n)) + 1) |-> [k \in 1..Len(Row(al, n)) |-> DAlloc(agg, al, n, j, k)]]]])
            ELSE Emit([fleet |-> fleet', r |-> Result(fleet')])

(* properties of the design *)
OrderFree == [][(Swap \/ Split) => Totals(fleet') = Totals(fleet) /\ PreMission(fleet').total = PreMission(fleet).total]_vars
OthersUntouched == [][Tune => \A i \in 1..Len(fleet), n \in Nodes : fleet'[i].t[n] = fleet[i].t[n] =>
                         Mission(fleet').thrust[n][i] = Mission(fleet).thrust[n][i]]_vars
AddsUp == [][Add => LET l == fleet'[Len(fleet')] IN \A n \in Nodes : Totals(fleet').thrust[n] = Totals(fleet).thrust[n] + l.c * Thrust(l, n)]_vars
SharesComplete == "alloc" \in Ops /\ al # <<>> => \A n \in Nodes : SumSeq(Alloc(agg, al).throttle[n]) = Full * agg[n]
=============================================================================
