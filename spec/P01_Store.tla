------------------------------ MODULE P01_Store ------------------------------
(* Collections of named values with units: NamedValues ("N") and AviaryValues ("A").
   State: two collections (slots 1 and 2), each the ordered sequence of its items
   [n |-> name, k |-> container kind, e |-> entries, u |-> unit]; an entry is a rational <<p, q>>
   or NoneE. One action per public call; W is a name the metadata knows (a scalar length in ft)
   when the class is "A". *)
EXTENDS Units

CONSTANTS Names,      \* names used by the generated operations
          Values,     \* set of [k, e] records
          UnitsU,     \* units used by the generated operations
          Depth,      \* length of the generated histories
          Classes     \* subset of {"N", "A"}

NoneE == <<0, 0>>
Known == {"W"}

VARIABLES cls, st, hist

vars == <<cls, st, hist>>

Empty == <<>>

Idx(s, n) == FirstIdx(s, LAMBDA i : i.n = n)
Has(s, n) == Idx(s, n) # 0

PutItem(s, it) == LET i == Idx(s, it.n) IN IF i = 0 THEN Append(s, it) ELSE [s EXCEPT ![i] = it]
RemoveItem(s, n) == SelectSeq(s, LAMBDA it : it.n # n)

(* why a single assignment is refused; "" when it is accepted. "None" stands for a unit that is not a string. *)
SetError(c, n, v, u) ==
  IF c = "A" /\ n \in Known
  THEN IF v.k # "scalar" THEN "TypeError"
       ELSE IF u = "None" THEN "TypeError"
       ELSE IF ~IsUnit(u) THEN "ValueError"
       ELSE IF ~Compatible(u, "ft") THEN "TypeError" ELSE ""
  ELSE IF u = "None" THEN "TypeError" ELSE ""

GetError(s, n, u) ==
  IF u = "None" THEN "TypeError"
  ELSE IF ~Has(s, n) THEN "KeyError"
  ELSE LET it == s[Idx(s, n)] IN
       IF it.u = u \/ it.k = "none" THEN ""
       ELSE IF \A i \in 1..Len(it.e) : it.e[i] = NoneE THEN ""
       ELSE IF ~IsUnit(u) \/ ~IsUnit(it.u) THEN "ValueError"
       ELSE IF ~Compatible(it.u, u) THEN "TypeError" ELSE ""

ConvE(e, u, w) == IF e = NoneE THEN NoneE ELSE Conv(e, u, w)

Ok == [t |-> "ok", c |-> "", k |-> "", e |-> <<>>, u |-> ""]
Err(c) == [t |-> "err", c |-> c, k |-> "", e |-> <<>>, u |-> ""]
Val(k, e, u) == [t |-> "val", c |-> "", k |-> k, e |-> e, u |-> u]
Bool(b) == [t |-> "val", c |-> "", k |-> IF b THEN "true" ELSE "false", e |-> <<>>, u |-> ""]

(* sequential assignment of items to slot contents s: stops at the first refused one *)
RECURSIVE PutAll(_, _, _)
PutAll(c, s, items) ==
  IF items = <<>> THEN [s |-> s, err |-> ""]
  ELSE LET it == Head(items)
           er == SetError(c, it.n, [k |-> it.k, e |-> it.e], it.u)
       IN IF er # "" THEN [s |-> s, err |-> er]
          ELSE PutAll(c, PutItem(s, it), Tail(items))

AsDict(s) == [n \in {s[i].n : i \in 1..Len(s)} |-> s[Idx(s, n)]]
SameContent(a, b) == AsDict(a) = AsDict(b)

(* the meaning of one call: new state and result *)
Step(c, S, op) ==
  CASE op.op = "set" ->
        LET er == SetError(c, op.n, op.v, op.u) IN
        IF er # "" THEN [st |-> S, res |-> Err(er)]
        ELSE [st |-> [S EXCEPT ![op.s] = PutItem(@, [n |-> op.n, k |-> op.v.k, e |-> op.v.e, u |-> op.u])], res |-> Ok]
    [] op.op = "get" ->
        LET er == GetError(S[op.s], op.n, op.u) IN
        IF er # "" THEN [st |-> S, res |-> Err(er)]
        ELSE LET it == S[op.s][Idx(S[op.s], op.n)] IN
             [st |-> S, res |-> Val(it.k, [i \in 1..Len(it.e) |-> IF it.u = op.u THEN it.e[i] ELSE ConvE(it.e[i], it.u, op.u)], "")]
    [] op.op = "item" ->
        IF ~Has(S[op.s], op.n) THEN [st |-> S, res |-> Err("KeyError")]
        ELSE LET it == S[op.s][Idx(S[op.s], op.n)] IN [st |-> S, res |-> Val(it.k, it.e, it.u)]
    [] op.op = "del" ->
        IF ~Has(S[op.s], op.n) THEN [st |-> S, res |-> Err("KeyError")]
        ELSE [st |-> [S EXCEPT ![op.s] = RemoveItem(@, op.n)], res |-> Ok]
    [] op.op = "clear" -> [st |-> [S EXCEPT ![op.s] = Empty], res |-> Ok]
    [] op.op = "update" ->
        \* from a dictionary, pairs, keywords or a NamedValues holding these items
        LET r == PutAll(c, S[op.s], op.items) IN
        [st |-> [S EXCEPT ![op.s] = r.s], res |-> IF r.err = "" THEN Ok ELSE Err(r.err)]
    [] op.op = "merge" ->
        [st |-> [S EXCEPT ![op.s] = PutAll(c, S[op.s], S[op.t]).s], res |-> Ok]
    [] op.op \in {"copy", "deepcopy", "construct"} -> [st |-> [S EXCEPT ![op.t] = S[op.s]], res |-> Ok]
    [] op.op = "eq" -> [st |-> S, res |-> Bool(SameContent(S[op.s], S[op.t]))]

----------------------------------------------------------------------------
(* generation *)
Slots == {1, 2}
Other(s) == 3 - s

SetOps == [op : {"set"}, s : Slots, n : Names, v : Values, u : UnitsU]
GetOps == [op : {"get"}, s : Slots, n : Names, u : UnitsU]
NameOps == [op : {"item", "del"}, s : Slots, n : Names]
SlotOps == [op : {"clear"}, s : Slots]
PairOps == {[op |-> o, s |-> s, t |-> Other(s)] : o \in {"merge", "copy", "deepcopy", "construct", "eq"}, s \in Slots}

Init == /\ cls \in Classes
        /\ st = <<Empty, Empty>>
        /\ hist = <<>>

Do(op) == /\ Len(hist) < Depth
          /\ LET r == Step(cls, st, op) IN
             /\ st' = r.st
             /\ hist' = Append(hist, [op |-> op, res |-> r.res, st |-> r.st])
          /\ UNCHANGED cls

SetAction == \E op \in SetOps : Do(op)
GetAction == \E op \in GetOps : Do(op)
NameAction == \E op \in NameOps : Do(op)
ClearAction == \E op \in SlotOps : Do(op)
PairAction == \E op \in PairOps : Do(op)
Next == SetAction \/ GetAction \/ NameAction \/ ClearAction \/ PairAction

EmitHist == Len(hist') = Depth => Emit([cls |-> cls, hist |-> hist'])

(* properties of the design *)
NoDuplicates == \A s \in Slots : \A i, j \in 1..Len(st[s]) : i # j => st[s][i].n # st[s][j].n
LastWriteWins ==
  Len(hist) > 0 =>
    LET h == hist[Len(hist)] IN
      (h.op.op = "set" /\ h.res.t = "ok") =>
         Step(cls, st, [op |-> "item", s |-> h.op.s, n |-> h.op.n]).res = Val(h.op.v.k, h.op.v.e, h.op.u)
LastOp == hist'[Len(hist')].op
ReadsChangeNothing == [][LastOp.op \in {"get", "item", "eq"} => st' = st]_vars
RefusedChangesNothing == [][hist'[Len(hist')].res.t = "err" => st' = st]_vars
(* an operation on one collection never changes the other one *)
Isolation == [][LastOp.op \in {"set", "del", "clear", "merge"} => st'[Other(LastOp.s)] = st[Other(LastOp.s)]]_vars
RoundTripUnits == \A s \in Slots : \A i \in 1..Len(st[s]) : \A u \in UnitsU :
   (IsUnit(u) /\ Compatible(st[s][i].u, u)) =>
      \A j \in 1..Len(st[s][i].e) :
         LET e == st[s][i].e[j] IN e = NoneE \/ Conv(Conv(e, st[s][i].u, u), u, st[s][i].u) = e
KnownWellFormed == cls = "A" => \A s \in Slots : \A i \in 1..Len(st[s]) :
   st[s][i].n \in Known => st[s][i].k = "scalar" /\ Compatible(st[s][i].u, "ft")

=============================================================================
