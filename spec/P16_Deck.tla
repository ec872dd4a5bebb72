----------------------------- MODULE P16_Deck -----------------------------
(* What becomes of an engine deck between its table and the processed data.   *)
(* A case c is a table of integer rows and the options of the deck:           *)
(*  rows: seq of [m, a, t, h, f, g, d, p, s, c, w, n]  Mach (1/1000), altitude,*)
(*        throttle, hybrid throttle, net thrust, gross thrust, ram drag,      *)
(*        tailpipe thrust, shaft power, corrected shaft power, fuel flow, NOx *)
(*  cols: columns that the table has     req: columns the user of it requires *)
(*  sort: "mach"/"altitude"   gt, gh: throttle / hybrid throttle scope global *)
(*  ignore, idle: drop negative thrust, add flight idle                       *)
(*  fr, lo, hi: idle fractions <<n, d>>                                       *)
(*  ref, fac, sca: reference thrust, scale factor, scaled thrust; <<>>: none  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cases
VARIABLES c,     \* the case
          at,    \* how far the deck has come
          tab,   \* its table
          opt    \* reference thrust, scale factor and scaled thrust
vars == <<c, at, tab, opt>>

Emit(r) == PrintT("@@" \o ToJson(r))

ThrustTol == 1
Has(k) == k \in c.cols
HasThrust == Has("f") \/ Has("p") \/ (Has("g") /\ Has("d"))
Abs(x) == IF x < 0 THEN -x ELSE x
Idx == DOMAIN c.rows

(* --- columns ------------------------------------------------------------- *)
Missing == \E k \in c.req : IF k = "f" THEN ~HasThrust ELSE ~Has(k)
Disagree == /\ {"f", "g", "d"} \subseteq c.cols
            /\ \E i \in Idx : Abs(c.rows[i].g - c.rows[i].d - c.rows[i].f) > ThrustTol
Net(r) == (IF Has("f") THEN r.f ELSE IF Has("g") /\ Has("d") THEN r.g - r.d ELSE 0)
          + (IF Has("p") THEN r.p ELSE 0)
Corrected == Has("c") /\ ~Has("s")
Variables == (c.cols \ {"f", "g", "d", "p", "c"}) \cup (IF HasThrust THEN {"f"} ELSE {}) \cup (IF Corrected THEN {"c"} ELSE {})
Cell(k, r) == IF Has(k) THEN r[k] ELSE 0

(* --- rows that stay ------------------------------------------------------- *)
Base(r) == [m |-> r.m, a |-> r.a, t |-> Cell("t", r), h |-> Cell("h", r), f |-> Net(r),
            s |-> Cell("s", r), c |-> IF Corrected THEN r.c ELSE 0, w |-> Cell("w", r), n |-> Cell("n", r)]
Kept == LET all == [i \in Idx |-> Base(c.rows[i])]
        IN IF c.ignore THEN SelectSeq(all, LAMBDA r : r.f >= 0) ELSE all
Before(x, y) ==
  LET kx == IF c.sort = "mach" THEN <<x.m, x.a, x.t, x.h>> ELSE <<x.a, x.m, x.t, x.h>>
      ky == IF c.sort = "mach" THEN <<y.m, y.a, y.t, y.h>> ELSE <<y.a, y.m, y.t, y.h>>
  IN \E i \in 1..4 : kx[i] < ky[i] /\ \A j \in 1..(i - 1) : kx[j] = ky[j]
Sorted == SortSeq(Kept, LAMBDA x, y : Before(x, y))

SameCond(x, y) == x.m = y.m /\ x.a = y.a
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x

(* --- throttles: normalised over the scope --------------------------------- *)
Scope(R, global, i) == IF global THEN DOMAIN R ELSE {j \in DOMAIN R : SameCond(R[j], R[i])}
\* normalised throttle as <<num, den>>
TNorm(R, i) == LET S == {R[j].t : j \in Scope(R, c.gt, i)} IN <<R[i].t - Min(S), Max(S) - Min(S)>>
HNorm(R, i) == LET S == {R[j].h : j \in Scope(R, c.gh, i)}
               IN IF R[i].h > 0 THEN <<R[i].h, Max(S)>> ELSE IF R[i].h < 0 THEN <<R[i].h, -Min(S)>> ELSE <<0, 1>>

(* --- flight idle ----------------------------------------------------------- *)
Direct == <<"f", "c", "s">>
DirectVars == SelectSeq(Direct, LAMBDA k : IF k = "f" THEN HasThrust ELSE IF k = "c" THEN Corrected ELSE Has("s"))
First(R, i) == IF i = 1 THEN TRUE ELSE ~SameCond(R[i - 1], R[i])
Group(R, i) == SelectSeq(R, LAMBDA r : SameCond(r, R[i]))      \* ascending throttle
NeedsIdle(R, i) == /\ c.idle
                   /\ First(R, i)
                   /\ \A j \in DOMAIN DirectVars : R[i][DirectVars[j]] > ThrustTol
FMul(v, q) == <<v * q[1], q[2]>>
Less(x, y) == x[1] * y[2] < y[1] * x[2]                       \* positive denominators
Pos(q) == IF q[2] < 0 THEN <<-q[1], -q[2]>> ELSE q
Clamp(q, last) == IF Less(q, FMul(last, c.lo)) THEN FMul(last, c.lo)
                  ELSE IF Less(FMul(last, c.hi), q) THEN FMul(last, c.hi) ELSE q
IdleCell(G, k) ==
  IF \E j \in DOMAIN DirectVars : DirectVars[j] = k THEN FMul(G[Len(G)][k], c.fr)
  ELSE IF Len(G) = 1 THEN Clamp(FMul(G[1][k], c.fr), G[1][k])
  ELSE IF G[1][k] = 0 /\ G[2][k] = 0 THEN Clamp(<<0, 1>>, G[Len(G)][k])
  ELSE LET v  == DirectVars[Len(DirectVars)]
           dv == G[2][v] - G[1][v]
           e  == c.fr[1] * G[Len(G)][v] - c.fr[2] * G[1][v]     \* over c.fr[2] * dv
       IN Clamp(Pos(<<G[1][k] * c.fr[2] * dv + (G[2][k] - G[1][k]) * e, c.fr[2] * dv>>), G[Len(G)][k])
IdleRow(R, i) == LET G == Group(R, i) IN
  [m |-> R[i].m, a |-> R[i].a, t |-> <<0, 1>>, h |-> <<0, 1>>,
   f |-> IF HasThrust THEN IdleCell(G, "f") ELSE <<0, 1>>,
   s |-> IF Has("s") THEN IdleCell(G, "s") ELSE <<0, 1>>,
   c |-> IF Corrected THEN IdleCell(G, "c") ELSE <<0, 1>>,
   w |-> IF Has("w") THEN IdleCell(G, "w") ELSE <<0, 1>>,
   n |-> IF Has("n") THEN IdleCell(G, "n") ELSE <<0, 1>>, idle |-> TRUE]
\* an idle row lies a tenth below the range, which is then normalised again
Renorm(R, i) == LET q == TNorm(R, i)
                    touched == c.idle /\ \E j \in Scope(R, c.gt, i) : NeedsIdle(R, j)
                IN IF touched THEN <<10 * q[1] + q[2], 11 * q[2]>> ELSE q
DataRow(R, i) == [m |-> R[i].m, a |-> R[i].a, t |-> Renorm(R, i), h |-> HNorm(R, i), f |-> <<R[i].f, 1>>, s |-> <<R[i].s, 1>>,
                  c |-> <<R[i].c, 1>>, w |-> <<R[i].w, 1>>, n |-> <<R[i].n, 1>>, idle |-> FALSE]
RECURSIVE Out(_, _)
Out(R, i) == IF i > Len(R) THEN <<>>
             ELSE (IF NeedsIdle(R, i) THEN <<IdleRow(R, i)>> ELSE <<>>) \o <<DataRow(R, i)>> \o Out(R, i + 1)

(* --- scaling --------------------------------------------------------------- *)
Sls(K) == {i \in DOMAIN K : Abs(K[i].m) < 10 /\ K[i].a > -10 /\ K[i].a <= 10}
NoReference == HasThrust /\ c.ref = <<>> /\ Sls(Kept) = {}
Ref == IF c.ref # <<>> THEN c.ref[1] ELSE LET K == Kept IN Max({K[i].f : i \in Sls(K)})
Big(x, y) == IF Abs(x) > Abs(y) THEN Abs(x) ELSE Abs(y)
\* scaled thrust and factor x reference agree within 0.1 or a part in ten thousand
Conflict == /\ c.fac # <<>> /\ c.sca # <<>>
            /\ LET x == c.sca[1] * c.fac[2]   \* over c.sca[2] * c.fac[2]
                   y == Ref * c.fac[1] * c.sca[2]
               IN 10 * Abs(x - y) > c.sca[2] * c.fac[2] /\ 10000 * Abs(x - y) > Big(x, y)
Factor == IF c.fac # <<>> THEN c.fac ELSE IF c.sca # <<>> THEN <<c.sca[1], c.sca[2] * Ref>> ELSE <<1, 1>>
Scaled == IF c.fac # <<>> THEN <<Ref * c.fac[1], c.fac[2]>> ELSE IF c.sca # <<>> THEN c.sca ELSE <<Ref, 1>>

(* --- refusals --------------------------------------------------------------- *)
BadIdle == c.idle /\ Less(c.hi, c.lo)
\* decided before the table itself is looked at
Refused == BadIdle \/ c.sort \notin {"mach", "altitude"} \/ c.cols = {} \/ Missing \/ Disagree
           \/ (Kept # <<>> /\ (NoReference \/ (HasThrust /\ Conflict)))
\* not settled: fewer than two altitudes per Mach number (or Machs per altitude), nothing to normalise over, nothing to extrapolate over
Thin(R) ==
  LET machs == {R[i].m : i \in DOMAIN R}
      alts == {R[i].a : i \in DOMAIN R}
      conds == {<<R[i].m, R[i].a>> : i \in DOMAIN R}
  IN \/ \E m \in machs : Cardinality({a \in alts : <<m, a>> \in conds}) < 2
     \/ \E a \in alts : Cardinality({m \in machs : <<m, a>> \in conds}) < 2
Flat(R) == \E i \in DOMAIN R : First(R, i) /\ TNorm(R, i)[2] = 0
NoSlope(R) == \E i \in DOMAIN R : NeedsIdle(R, i) /\ LET G == Group(R, i) IN
                 Len(G) > 1 /\ \E j \in DOMAIN DirectVars : G[1][DirectVars[j]] = G[2][DirectVars[j]]
Outside(R) == R = <<>> \/ Flat(R) \/ (c.idle /\ (Has("h") \/ DirectVars = <<>> \/ NoSlope(R)))

\* an empty deck or one without positive thrust to scale
NoScale == IF tab = <<>> THEN TRUE ELSE IF ~HasThrust THEN FALSE ELSE IF NoReference THEN FALSE ELSE Ref <= 0

(* --- the deck on its way ------------------------------------------------------ *)
Init == c \in Cases /\ at = "read" /\ tab = <<>> /\ opt = <<>>
Refuse(cond, from) == at = from /\ cond = TRUE /\ at' = "refused" /\ UNCHANGED <<c, tab, opt>>
CheckOptions == at = "read" /\ ~BadIdle /\ c.sort \in {"mach", "altitude"} /\ at' = "options" /\ UNCHANGED <<c, tab, opt>>
Combine == at = "options" /\ c.cols # {} /\ ~Missing /\ ~Disagree /\ at' = "packed" /\ tab' = Sorted /\ UNCHANGED <<c, opt>>
Scale == /\ at = "packed" /\ ~NoScale /\ ~NoReference /\ ~(HasThrust /\ Conflict) /\ at' = "scaled" /\ UNCHANGED <<c, tab>>
         /\ opt' = IF HasThrust THEN [ref |-> <<Ref>>, fac |-> Factor, sca |-> Scaled] ELSE [ref |-> <<>>, fac |-> <<>>, sca |-> <<>>]
Normalise == at = "scaled" /\ ~Outside(tab) /\ at' = "done" /\ tab' = Out(tab, 1) /\ UNCHANGED <<c, opt>>
Unsettled == ((at = "packed" /\ NoScale) \/ (at = "scaled" /\ Outside(tab))) = TRUE /\ at' = "outside" /\ UNCHANGED <<c, tab, opt>>
Reject == \/ Refuse(BadIdle \/ c.sort \notin {"mach", "altitude"}, "read")
          \/ Refuse(c.cols = {} \/ Missing \/ Disagree, "options")
          \/ Refuse(IF NoScale THEN FALSE ELSE IF NoReference THEN TRUE ELSE HasThrust /\ Conflict, "packed")
Next == CheckOptions \/ Combine \/ Scale \/ Normalise \/ Unsettled \/ Reject
EmitCase == at' \in {"done", "refused", "outside"} =>
  Emit([c |-> c, k |-> IF at' = "done" /\ Thin(tab) THEN "either" ELSE at', rows |-> tab', opt |-> opt', vars |-> Variables, use |-> HasThrust])

(* --- properties of the design ----------------------------------------------- *)
Done == at = "done"
RowsConserved ==
  Done => LET K == Kept
              D == SelectSeq(tab, LAMBDA r : ~r.idle)
              face(r) == <<r.m, r.a, r.f, r.w>>
          IN /\ Len(D) = Len(K)
             /\ {<<K[i].m, K[i].a, <<K[i].f, 1>>, <<K[i].w, 1>> >> : i \in DOMAIN K} = {face(D[j]) : j \in DOMAIN D}
             /\ (~c.idle => Len(tab) = Len(D))
UnitRange ==
  Done => LET O == tab IN \A i \in DOMAIN O : O[i].t[2] > 0 /\ O[i].t[1] >= 0 /\ O[i].t[1] <= O[i].t[2]
                                                      /\ Abs(O[i].h[1]) <= O[i].h[2]
FullRange ==
  Done => LET O == tab IN
    IF c.gt THEN (\E i \in DOMAIN O : O[i].t[1] = 0) /\ (\E i \in DOMAIN O : O[i].t[1] = O[i].t[2])
    ELSE LET conds == {<<O[i].m, O[i].a>> : i \in DOMAIN O}
         IN conds = {<<O[i].m, O[i].a>> : i \in {j \in DOMAIN O : O[j].t[1] = 0}} /\ conds = {<<O[i].m, O[i].a>> : i \in {j \in DOMAIN O : O[j].t[1] = O[j].t[2]}}
Ascending ==
  Done => LET O == tab IN \A i \in 1..(Len(O) - 1) : SameCond(O[i], O[i + 1]) => ~Less(O[i + 1].t, O[i].t)
IdleFirst ==
  Done => LET O == tab IN \A i \in DOMAIN O : O[i].idle => First(O, i) /\ O[i].t[1] = 0
ScaleHolds == (Done /\ HasThrust) => LET r == opt IN r.sca[1] * r.fac[2] = r.ref[1] * r.fac[1] * r.sca[2]
NegativeDropped == (Done /\ c.ignore) => \A i \in DOMAIN tab : tab[i].f[1] >= 0

NeverBoth == (at = "refused" => Refused) /\ (at = "done" => ~Refused)
=============================================================================
