------------------------------- MODULE P09_Merge -------------------------------
(* Merging metadata dictionaries and variable hierarchies.
   Metadata: ds, a tuple of dictionaries (variable -> class of attributes, 0 when absent); the last one holds the
   result of the latest merge. Two attribute sets that are numerically equal are in the same class.
   Hierarchies: [sup, leaves]: the core hierarchy it extends ("" none) and its own variables, a set of
   [p: path of names, v: variable name]; Core gives the variables of the core hierarchies. *)
EXTENDS Emit
CONSTANTS Vars, Classes, Depth, Leaves, Sups, CoreA, CoreM, Mode

ND == 4   \* three dictionaries of the caller and the result slot
Core(s) == CASE s = "A" -> CoreA [] s = "M" -> CoreM [] OTHER -> {}

(* ---- metadata ---- *)
Step(ds, c) ==
  CASE c.op = "add" -> IF ds[c.d][c.k] # 0 THEN [err |-> TRUE, ds |-> ds] ELSE [err |-> FALSE, ds |-> [ds EXCEPT ![c.d][c.k] = c.v]]
    [] c.op = "upd" -> IF ds[c.d][c.k] = 0 THEN [err |-> TRUE, ds |-> ds] ELSE [err |-> FALSE, ds |-> [ds EXCEPT ![c.d][c.k] = c.v]]
    [] c.op = "merge" ->
        LET vals(k) == {ds[c.l[i]][k] : i \in 1..Len(c.l)} \ {0}
        IN IF \E k \in DOMAIN ds[1] : Cardinality(vals(k)) > 1 THEN [err |-> TRUE, ds |-> ds]
           ELSE [err |-> FALSE, ds |-> [ds EXCEPT ![ND] = [k \in DOMAIN ds[1] |-> IF vals(k) = {} THEN 0 ELSE CHOOSE v \in vals(k) : TRUE]]]

(* ---- hierarchies ---- *)
IsPrefixOf(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Clash(x, y) == (x.p = y.p /\ x.v # y.v) \/ IsPrefixOf(x.p, y.p) \/ IsPrefixOf(y.p, x.p)
Conflict(S, T) == \E x \in S, y \in T : Clash(x, y)
Effective(h) == h.leaves \cup Core(h.sup)
HMerge(hs) ==
  LET ids == 1..Len(hs)
      sups == {hs[i].sup : i \in ids} \ {""}
      all == UNION {Effective(hs[i]) : i \in ids}
  IN IF Cardinality(sups) > 1 \/ \E i, j \in ids : Conflict(Effective(hs[i]), Effective(hs[j])) THEN [err |-> TRUE, leaves |-> {}]
     ELSE [err |-> FALSE, leaves |-> all]
\* known finding: a hierarchy that extends nothing, merged with an extension of a core hierarchy, replaces or hides core classes
PlainOverCore(hs) == LET tops == UNION {{SubSeq(x.p, 1, 1) : x \in Core(hs[i].sup)} : i \in 1..Len(hs)}
                     IN \E i \in 1..Len(hs) : hs[i].sup = "" /\ \E x \in hs[i].leaves : SubSeq(x.p, 1, 1) \in tops

----------------------------------------------------------------------------
VARIABLES ds, hist, hs
vars == <<ds, hist, hs>>
Empty == [k \in Vars |-> 0]
OwnSets == {S \in SUBSET Leaves : Cardinality(S) <= 2 /\ ~Conflict(S, S)}
Hiers == {[sup |-> s, leaves |-> S] : s \in Sups, S \in OwnSets}
Init == ds = [i \in 1..ND |-> Empty] /\ hist = <<>> /\ hs = <<>>
Calls == {[op |-> o, d |-> d, k |-> k, v |-> v, l |-> <<>>] : o \in {"add", "upd"}, d \in 1..ND, k \in Vars, v \in Classes}
         \cup {[op |-> "merge", d |-> 0, k |-> "", v |-> 0, l |-> l] : l \in {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<4, 1>>, <<3, 1, 2, 1>>}}
Call == Mode = "meta" /\ Len(hist) < Depth /\ \E c \in Calls :
          LET r == Step(ds, c) IN ds' = r.ds /\ hist' = Append(hist, [c |-> c, err |-> r.err, ds |-> r.ds]) /\ hs' = hs
AddH == Mode = "hier" /\ Len(hs) < 2 /\ \E h \in Hiers : hs' = Append(hs, h) /\ UNCHANGED <<ds, hist>>
Next == Call \/ AddH
EmitCase == IF Mode = "meta" THEN (Len(hist') = Depth => Emit([hist |-> hist']))
            ELSE Emit([hs |-> [i \in 1..Len(hs') |-> [sup |-> hs'[i].sup, leaves |-> SetToSeq(hs'[i].leaves)]],
                       r |-> LET m == HMerge(hs') IN [err |-> m.err, leaves |-> SetToSeq(m.leaves)], dev |-> PlainOverCore(hs')])

(* properties of the design *)
Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == Mode = "hier" => HMerge(hs) = HMerge(Reverse2(hs))
Complete == (Mode = "hier" /\ ~HMerge(hs).err) => \A i \in 1..Len(hs) : hs[i].leaves \subseteq HMerge(hs).leaves
\* two dictionaries that disagree are refused in either order, and merging changes only the result slot
MetaOrder == Mode = "meta" => \A i, j \in 1..3 : Step(ds, [op |-> "merge", d |-> 0, k |-> "", v |-> 0, l |-> <<i, j>>]) = Step(ds, [op |-> "merge", d |-> 0, k |-> "", v |-> 0, l |-> <<j, i>>])
MetaUnion == Mode = "meta" => LET r == Step(ds, [op |-> "merge", d |-> 0, k |-> "", v |-> 0, l |-> <<1, 2>>])
                              IN ~r.err => \A k \in Vars : /\ r.ds[ND][k] = 0 <=> (ds[1][k] = 0 /\ ds[2][k] = 0)
                                                           /\ (ds[1][k] # 0 => r.ds[ND][k] = ds[1][k]) /\ (ds[2][k] # 0 => r.ds[ND][k] = ds[2][k])
MergeOnlyResult == [][\A i \in 1..3 : (hist' # hist /\ hist'[Len(hist')].c.op = "merge") => ds'[i] = ds[i]]_vars
=============================================================================
