------------------------------ MODULE P24_Legacy ------------------------------
(* Legacy namelist files. A deck is a sequence of
     [k |-> "open", n |-> namelist], [k |-> "close"], [k |-> "set", v |-> name, i |-> index or 0..., vals, u]
   (comments, blanks, grouping of assignments on lines, tags, letter case and trailing commas are layout: they are chosen
   when a deck is rendered, and no operator here can see them). Values are tokens.
   Tbl maps <<namelist, name>> (namelist "" outside of all) to the sequence of Aviary names; TblI maps <<namelist, name, index>>
   of names that are variables of their own; Def gives the default [vals, u]; Meta[aviary name] = [u, ...]; Dropped are names
   that are not converted at all. *)
EXTENDS Emit
CONSTANTS Menu, Namelists, Tbl, TblI, Def, Meta, Dropped, MaxLen
NoIdx == -1
Free == "unitless"

Empty == [v |-> <<>>, u |-> "", b |-> FALSE]
Has(s, n) == n \in DOMAIN s
Put(s, n, e) == [x \in DOMAIN s \cup {n} |-> IF x = n THEN e ELSE s[x]]
Zeros(k) == [j \in 1..k |-> "0"]
\* one element of a list, the list is filled with zeros up to it
SetAt(cur, i, val) ==
  LET base == IF cur = <<>> THEN Zeros(i + 1)
              ELSE IF i + 1 > Len(cur) THEN cur \o Zeros(i + 1 - Len(cur)) ELSE cur
  IN [base EXCEPT ![i + 1] = val]
Truth(val) == IF val \in {"1", "1.0", "True"} THEN "True" ELSE IF val \in {"0", "0.0", "False"} THEN "False" ELSE "bad"
Unit(s, key, n, given) ==
  IF given # "" THEN given
  ELSE IF key \in DOMAIN Def /\ n \in DOMAIN Meta THEN Def[key].u
  ELSE IF Has(s, n) THEN s[n].u
  ELSE IF n \in DOMAIN Meta /\ Meta[n].u # "" THEN Meta[n].u ELSE Free
Write(s, key, n, a, idx) ==
  LET cur == IF Has(s, n) THEN s[n] ELSE Empty
      unit == Unit(s, key, n, a.u)
  IN IF idx # NoIdx THEN Put(s, n, [v |-> SetAt(cur.v, idx, a.vals[1]), u |-> unit, b |-> cur.b])
     ELSE IF cur.b THEN Put(s, n, [v |-> <<Truth(a.vals[1])>>, u |-> unit, b |-> TRUE])
     ELSE Put(s, n, [v |-> a.vals, u |-> unit, b |-> Len(a.vals) >= 1 /\ a.vals[1] \in {"True", "False"}])
RECURSIVE WriteAll(_, _, _, _, _)
WriteAll(s, key, names, a, idx) == IF names = <<>> THEN s ELSE WriteAll(Write(s, key, Head(names), a, idx), key, Tail(names), a, idx)

\* st = [ns, known, rest, ok]
Assign(st, a) ==
  LET off == IF st.ns = "" THEN 0 ELSE 1
      key == <<st.ns, a.v>>
      own == <<st.ns, a.v, a.i>>
      idx == IF a.i = NoIdx THEN NoIdx ELSE a.i - off
      kn == IF own \in DOMAIN TblI THEN TblI[own] ELSE IF key \in DOMAIN Tbl THEN Tbl[key] ELSE <<>>
      dk == IF own \in DOMAIN TblI /\ own \in DOMAIN Def THEN own ELSE IF a.i = NoIdx THEN key ELSE <<st.ns, a.v, NoIdx>>
      ix == IF own \in DOMAIN TblI THEN NoIdx ELSE idx
      plain == \A n \in {kn[j] : j \in 1..Len(kn)} : Has(st.known, n) /\ st.known[n].b /\ ix = NoIdx => Truth(a.vals[1]) # "bad"
  IN IF key \in Dropped \/ ~st.ok THEN st
     ELSE IF a.vals = <<>> THEN [st EXCEPT !.rest = @]      \* an assignment of nothing changes no variable
     ELSE IF ~plain THEN [st EXCEPT !.ok = FALSE]
     ELSE IF kn # <<>> THEN [st EXCEPT !.known = WriteAll(@, dk, kn, a, ix)]
     ELSE [st EXCEPT !.rest = Write(@, key, st.ns \o "." \o a.v, a, idx)]
Step(st, l) ==
  CASE l.k = "open" -> [st EXCEPT !.ns = l.n]
    [] l.k = "close" -> [st EXCEPT !.ns = ""]
    [] OTHER -> Assign(st, l)
RECURSIVE DefSeq(_, _)
DefSeq(s, ks) == IF ks = {} THEN s ELSE LET key == CHOOSE x \in ks : TRUE
                                         names == IF key \in DOMAIN TblI THEN TblI[key] ELSE Tbl[key]
                                     IN DefSeq(WriteAll(s, key, names, [vals |-> Def[key].vals, u |-> Def[key].u], NoIdx), ks \ {key})
Start == [ns |-> "", known |-> DefSeq(<<>>, DOMAIN Def), rest |-> <<>>, ok |-> TRUE]
RECURSIVE Run(_, _)
Run(st, d) == IF d = <<>> THEN st ELSE Run(Step(st, Head(d)), Tail(d))
----------------------------------------------------------------------------
VARIABLES deck, st
vars == <<deck, st>>
Init == deck = <<>> /\ st = Start
Line == /\ Len(deck) < MaxLen
        /\ st.ok
        /\ \E l \in Menu : /\ CASE l.k = "open" -> st.ns = ""
                              [] l.k = "close" -> st.ns # ""
                              [] OTHER -> l.k = "set" /\ l.n = st.ns
                           /\ deck' = Append(deck, l)
                           /\ st' = Step(st, l)
Next == Line
EmitCase == Emit([deck |-> deck', st |-> st'])

(* properties of the design *)
\* the meaning of a deck does not depend on how it is read
Replay == st = Run(Start, deck)
\* an assignment touches only the variables its name stands for
Local == [][\A n \in (DOMAIN st'.known) \cup DOMAIN st.known :
              (~(Has(st.known, n) /\ Has(st'.known, n)) \/ st.known[n] # st'.known[n])
              => LET l == deck'[Len(deck')] IN l.k = "set" /\ (\/ <<l.n, l.v>> \in DOMAIN Tbl /\ \E j \in 1..Len(Tbl[<<l.n, l.v>>]) : Tbl[<<l.n, l.v>>][j] = n
                                                               \/ <<l.n, l.v, l.i>> \in DOMAIN TblI /\ \E j \in 1..Len(TblI[<<l.n, l.v, l.i>>]) : TblI[<<l.n, l.v, l.i>>][j] = n)]_vars
\* nothing converted is also put aside, and nothing recognised is put aside
Aside == \A n \in DOMAIN st.rest : n \notin DOMAIN st.known
\* assigning a list is the same as assigning its elements one by one
Elements(a) == [j \in 1..Len(a.vals) |-> [a EXCEPT !.i = j - 1 + (IF st.ns = "" THEN 0 ELSE 1), !.vals = <<a.vals[j]>>]]
ListIsElements == \A a \in {x \in Menu : x.k = "set" /\ x.n = st.ns /\ x.i = NoIdx /\ x.u = "" /\ Len(x.vals) > 1 /\ <<x.n, x.v>> \in DOMAIN Tbl} :
   LET t == Tbl[<<a.n, a.v>>][1] IN
   (st.ok /\ Has(st.known, t) /\ Len(st.known[t].v) <= Len(a.vals) /\ ~st.known[t].b) =>
     Run(st, Elements(a)).known[t].v = Step(st, a).known[t].v
\* the value that is given last is the value
LastWins == (deck # <<>> /\ st.ok) => LET a == deck[Len(deck)] IN
   (a.k = "set" /\ a.vals # <<>> /\ <<a.n, a.v>> \in DOMAIN Tbl /\ <<a.n, a.v>> \notin Dropped /\ a.i = NoIdx) =>
      \A j \in 1..Len(Tbl[<<a.n, a.v>>]) : LET e == st.known[Tbl[<<a.n, a.v>>][j]] IN e.b \/ e.v = a.vals
=============================================================================
