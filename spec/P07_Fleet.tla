------------------------------- MODULE P07_Fleet -------------------------------
(* Vectorisation of per-engine inputs and completion of engine counts.
   State: a, the aircraft inputs (variable -> sequence of values, <<>> when not given), and e, the options
   of each engine type (variable -> engine -> sequence, <<>> when not given). Variables: num fus wng, the
   engine counts in total, fuselage and wing mounted; v, any variable with one value per engine type;
   m, any variable with several values per engine type. tot: the aircraft totals. *)
EXTENDS Emit

Default == [num |-> <<2>>, fus |-> <<0>>, wng |-> <<0>>, v |-> <<50>>, m |-> <<60>>]
Scalars == {"num", "fus", "wng", "v"}
Names == DOMAIN Default

Given(src) == src.a # <<>> \/ \E i \in 1..Len(src.e) : src.e[i] # <<>>
(* src = [e: per engine, a: aircraft]; one value per engine type *)
One(src, d, i) == IF src.e[i] # <<>> THEN <<src.e[i][1]>>
                  ELSE IF src.a = <<>> THEN d
                  ELSE IF Len(src.a) = 1 THEN src.a
                  ELSE IF i <= Len(src.a) THEN <<src.a[i]>> ELSE d
\* several values per engine type
Several(src, d, i) == IF src.e[i] # <<>> THEN src.e[i] ELSE IF src.a = <<>> THEN d ELSE src.a
Vec(src, d, multi) == IF ~Given(src) THEN <<>>
                      ELSE FlattenSeq([i \in 1..Len(src.e) |-> IF multi THEN Several(src, d, i) ELSE One(src, d, i)])

(* counts of one engine type: the sum of the mounted engines wins when larger; engines without a place go
   to the wing, unless it is a single one, which goes to the fuselage *)
Place(c) == LET t == c.fus + c.wng
                rest == c.num - t
            IN IF t > c.num THEN [c EXCEPT !.num = t]
               ELSE IF rest > 1 THEN [c EXCEPT !.wng = @ + rest]
               ELSE [c EXCEPT !.fus = @ + rest]

OrZero(s, n) == IF s = <<>> THEN [i \in 1..n |-> 0] ELSE s
Sources(a, e) == [k \in Names |-> [a |-> a[k], e |-> e[k]]]
Result(a, e) ==
  LET n == Len(e.num)
      w == [k \in Names |-> Vec([a |-> a[k], e |-> e[k]], Default[k], k \notin Scalars)]
      c == [i \in 1..n |-> Place([num |-> OrZero(w.num, n)[i], fus |-> OrZero(w.fus, n)[i], wng |-> OrZero(w.wng, n)[i]])]
  IN [w EXCEPT !.num = [i \in 1..n |-> c[i].num], !.fus = [i \in 1..n |-> c[i].fus], !.wng = [i \in 1..n |-> c[i].wng]]
Totals(r) == [num |-> SumSeq(r.num), fus |-> SumSeq(r.fus), wng |-> SumSeq(r.wng)]
\* known finding: an already assembled vector of a several-valued variable is taken for every engine again
Repeats(a, e) == LET r == Result(a, e) IN Result(r, e).m # r.m

----------------------------------------------------------------------------
CONSTANTS Group, N, Wide
NoEng == [i \in 1..N |-> <<>>]
NoA == [k \in Names |-> <<>>]
Seqs(S) == {<<>>} \cup {<<x>> : x \in S}
EngOf(S) == [1..N -> Seqs(S)]
WorldsCounts(E, A) == {[a |-> [NoA EXCEPT !.num = x, !.fus = y, !.wng = z], e |-> [num |-> p, fus |-> q, wng |-> r, v |-> NoEng, m |-> NoEng]]
                       : x \in A, y \in A, z \in A, p \in EngOf(E), q \in EngOf(E), r \in EngOf(E)}
VE == [1..N -> {<<>>, <<5>>, <<6>>}]
ME == [1..N -> {<<>>, <<5>>, <<6, 7>>}]
VA == {<<>>, <<8>>, <<8, 9>>, <<8, 9, 10>>}
Worlds == CASE Group = "one" -> WorldsCounts({0, 1, 3} \cup (IF Wide THEN {2} ELSE {}), {<<>>, <<0>>, <<2>>, <<4, 1>>})
            [] Group = "two" -> WorldsCounts({1, 3}, {<<>>, <<1, 4>>} \cup (IF Wide THEN {<<2>>} ELSE {}))
            [] Group = "three" -> {[a |-> [NoA EXCEPT !.num = x, !.fus = y, !.wng = z], e |-> [num |-> p, fus |-> NoEng, wng |-> r, v |-> NoEng, m |-> NoEng]]
                                   : x \in {<<>>, <<2>>, <<1, 3, 4>>, <<3, 1>>}, y \in {<<>>, <<1>>, <<0, 2, 1>>}, z \in {<<>>, <<2, 0, 1>>, <<1, 3>>},
                                     p \in EngOf({2}), r \in EngOf({0, 2})}
            [] Group = "vec" -> {[a |-> [NoA EXCEPT !.v = x, !.m = y], e |-> [num |-> NoEng, fus |-> NoEng, wng |-> NoEng, v |-> p, m |-> q]]
                                 : x \in VA, y \in VA, p \in VE, q \in ME}

VARIABLES w0, a, n
vars == <<w0, a, n>>
Init == \E w \in Worlds : w0 = w /\ a = w.a /\ n = 0
Preprocess == n < 2 /\ a' = Result(a, w0.e) /\ n' = n + 1 /\ UNCHANGED w0
Next == Preprocess
EmitCase == n = 0 => LET r == Result(a, w0.e) IN Emit([w |-> w0, r |-> r, t |-> Totals(r), rep |-> Repeats(a, w0.e)])

(* properties of the design *)
OnePerEngine == n >= 1 => /\ \A k \in {"num", "fus", "wng"} : Len(a[k]) = N
                          /\ a.v = <<>> \/ Len(a.v) = N
Placed == n >= 1 => \A i \in 1..N : a.num[i] = a.fus[i] + a.wng[i]
NoEngineLost == n >= 1 => \A i \in 1..N : /\ (w0.e.num[i] # <<>> => a.num[i] >= w0.e.num[i][1])
                                          /\ (w0.e.fus[i] # <<>> => a.fus[i] >= w0.e.fus[i][1])
                                          /\ (w0.e.wng[i] # <<>> => a.wng[i] >= w0.e.wng[i][1])
OwnFirst == n >= 1 => \A i \in 1..N : w0.e.v[i] # <<>> => a.v[i] = w0.e.v[i][1]
Stable == [][(n = 1 /\ ~Repeats(w0.a, w0.e)) => a' = a]_vars
=============================================================================
