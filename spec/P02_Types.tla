------------------------------ MODULE P02_Types ------------------------------
(* Assigning values to a variable that the metadata declares.
   An item is [t, n, s, txt, f, i, up]: its Python type, twice its numeric value, its text or member name, str() of it, whether the
   text reads as a float / an integer (strings), its text in upper case (strings).
   A value is [k, e, r]: k in scalar/list/tuple/array/nested; e its items in order; r the lengths of
   the rows of a nested list (else <<>>).
   A declaration is [types, multi, units, enum]: types in order of preference, <<"none">> for no
   requirement; enum the members [name, v] of the enumeration type "enum", if any. *)
EXTENDS Units

NumT == {"int", "float", "bool", "npfloat", "npint"}
Fail == [t |-> "fail", n |-> 0, s |-> ""]
Item(t, n, s) == [t |-> t, n |-> n, s |-> s]
\* how a stored item is observed: numbers by value, texts by text
Seen(x) == IF x.t \in NumT THEN Item(x.t, x.n, "")
           ELSE IF x.t = "none" THEN Item("none", 0, "") ELSE Item(x.t, 0, x.s)

Trunc(n) == IF n >= 0 THEN 2 * (n \div 2) ELSE -(2 * ((-n) \div 2))

IsInst(x, ty) ==
  CASE ty = "float" -> x.t \in {"float", "npfloat"}
    [] ty = "int" -> x.t \in {"int", "bool"}
    [] ty \in {"list", "array"} -> FALSE
    [] OTHER -> x.t = ty

IsInstAny(x, types) == \E i \in 1..Len(types) : IsInst(x, types[i])

CastItem(x, ty) ==
  CASE ty = "float" -> IF x.t \in NumT \/ (x.t = "str" /\ x.f) THEN Item("float", x.n, "") ELSE Fail
    [] ty = "int" -> IF x.t \in NumT THEN Item("int", Trunc(x.n), "")
                     ELSE IF x.t = "str" /\ x.i THEN Item("int", x.n, "") ELSE Fail
    [] ty = "str" -> Item("str", 0, x.txt)
    [] ty = "path" -> IF x.t \in {"str", "path"} THEN Item("path", 0, x.s) ELSE Fail
    [] ty = "bool" -> IF x.t = "bool" THEN Seen(x) ELSE Fail
    [] OTHER -> Fail

(* a member of the enumeration: by member, by value, or by name in any case *)
MemberByValue(x, enum) == FirstIdx(enum, LAMBDA m :
   \/ x.t = "str" /\ m.v.t = "str" /\ m.v.s = x.s
   \/ x.t \in {"int", "bool"} /\ m.v.t = "int" /\ m.v.n = x.n)
MemberByName(x, enum) == FirstIdx(enum, LAMBDA m : x.t = "str" /\ m.name = x.up)
ToMember(x, enum) ==
  IF x.t \in {"enum", "otherenum"} THEN Seen(x)
  ELSE IF x.t \notin {"int", "bool", "str"} THEN Fail
  ELSE LET i == MemberByValue(x, enum)
           j == MemberByName(x, enum)
       IN IF i # 0 THEN Item("enum", 0, enum[i].name)
          ELSE IF j # 0 THEN Item("enum", 0, enum[j].name) ELSE Fail

SeenAll(v) == [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Seen(v.e[i])]]
IsIter(v) == v.k # "scalar"
ContInst(v, types) == \E i \in 1..Len(types) : (types[i] = "list" /\ v.k \in {"list", "nested"}) \/ (types[i] = "array" /\ v.k = "array")

\* numpy scalars come out of an array as plain numbers
Py(x) == IF x.t = "npint" THEN Item("int", x.n, "") ELSE IF x.t = "npfloat" THEN Item("float", x.n, "") ELSE x
Refused == [k |-> "refused", e |-> <<>>, r |-> <<>>]
RECURSIVE FirstCast(_, _)
FirstCast(v, types) ==
  IF types = <<>> \/ v.k = "nested" THEN v
  ELSE LET ty == Head(types)
           c == [i \in 1..Len(v.e) |-> CastItem(v.e[i], ty)]
           ok == /\ \A i \in 1..Len(c) : c[i] # Fail
                 /\ ty \notin {"list", "array"}
                 /\ (ty = "bool" => IsIter(v))   \* nothing is ever made a bool
       IN IF ~IsIter(v) /\ ty = "array" THEN [v EXCEPT !.k = "array", !.e = <<Py(v.e[1])>>]
          ELSE IF ~IsIter(v) /\ ty = "list" /\ v.e[1].t = "str" THEN Refused   \* its characters
          ELSE IF ok THEN [v EXCEPT !.e = c] ELSE FirstCast(v, Tail(types))

(* the accepted value, or Refused *)
Casted(d, v) ==
  IF d.types = <<"none">> THEN SeenAll(v)
  ELSE IF (IsIter(v) /\ ContInst(v, d.types)) \/ (~IsIter(v) /\ IsInstAny(v.e[1], d.types)) THEN SeenAll(v)
  ELSE IF IsIn("enum", d.types)
       THEN IF v.k = "nested" THEN Refused
            ELSE LET c == [i \in 1..Len(v.e) |-> ToMember(v.e[i], d.enum)] IN
                 IF \E i \in 1..Len(c) : c[i] = Fail THEN Refused ELSE [v EXCEPT !.e = c]
       ELSE SeenAll(FirstCast(v, d.types))

Typed(d, c) ==
  \/ d.types = <<"none">>
  \/ /\ c.k # "refused"
     /\ (IsIter(c) => d.multi \/ ContInst(c, d.types))
     /\ \A i \in 1..Len(c.e) : LET x == c.e[i] IN
          IsInstAny(x, d.types) /\ (x.t = "bool" => IsIn("bool", d.types))

Accept(d, v) == LET c == Casted(d, v) IN IF Typed(d, c) THEN c ELSE Refused
UnitsOk(d, u) == Compatible(d.units, u)

(* A deviation of the code, kept as a known finding: a list of texts given to an enumeration is
   replaced by the member its first text names *)
FirstText(v) == FirstIdx(v.e, LAMBDA x : x.t = "str")
Deviation(d, v) ==
  IF IsIn("enum", d.types) /\ v.k \in {"list", "tuple", "array"} /\ FirstText(v) # 0
     /\ \A i \in 1..(FirstText(v) - 1) : ToMember(v.e[i], d.enum) # Fail
     /\ ToMember(v.e[FirstText(v)], d.enum) # Fail
  THEN [k |-> "scalar", e |-> <<ToMember(v.e[FirstText(v)], d.enum)>>, r |-> <<>>]
  ELSE Accept(d, v)

(* declaring: types are inferred from the default when not given *)
Declared(given, default) ==
  IF given # <<>> THEN given
  ELSE IF default.t = "none" THEN <<"none">>
  ELSE IF default.t \in NumT \/ (default.t = "str" /\ default.f) THEN <<"float">>
  ELSE <<default.t>>

Absent == [k |-> "absent", e |-> <<>>, r |-> <<>>]

(* one assignment: new stored value (and units) and whether it was accepted *)
SetStep(d, stored, v, u) ==
  LET a == Accept(d, v) IN
  IF a.k = "refused" \/ ~UnitsOk(d, u) THEN [ok |-> FALSE, st |-> stored]
  ELSE [ok |-> TRUE, st |-> [v |-> a, u |-> u]]
DevStep(d, stored, v, u) ==
  LET a == Deviation(d, v) IN
  IF a.k = "refused" \/ ~UnitsOk(d, u) THEN [ok |-> FALSE, st |-> stored]
  ELSE [ok |-> TRUE, st |-> [v |-> a, u |-> u]]

----------------------------------------------------------------------------
CONSTANTS Decls, Items, Vals, UnitsU, Depth
VARIABLES decl, st, hist
vars == <<decl, st, hist>>

Values == {[k |-> "scalar", e |-> <<x>>, r |-> <<>>] : x \in Items}
   \cup {[k |-> k, e |-> <<x>>, r |-> <<>>] : k \in {"list", "tuple"}, x \in Items}
   \cup {[k |-> k, e |-> <<x, y>>, r |-> <<>>] : k \in {"list", "tuple"}, x \in Items, y \in Items}
   \cup Vals   \* arrays and nested lists

Nothing == [v |-> Absent, u |-> ""]
Init == decl \in Decls /\ st = Nothing /\ hist = <<>>
Set(v, u) == /\ Len(hist) < Depth
             /\ LET r == SetStep(decl, st, v, u)
                    dv == DevStep(decl, st, v, u)
                IN /\ st' = r.st
                   /\ hist' = Append(hist, [v |-> v, u |-> u, ok |-> r.ok, st |-> r.st, dev |-> dv])
             /\ UNCHANGED decl
Next == \E v \in Values, u \in UnitsU : Set(v, u)
EmitHist == Len(hist') = Depth => Emit([decl |-> decl, hist |-> hist'])

(* the property, on the specification *)
StoredIsTyped == st # Nothing => Typed(decl, st.v) /\ UnitsOk(decl, st.u)
KindKept == \A i \in 1..Len(hist) : hist[i].ok =>
   \/ hist[i].st.v.k = hist[i].v.k
   \/ (hist[i].v.k = "scalar" /\ IsIn("array", decl.types) /\ hist[i].st.v.k = "array")
LengthKept == \A i \in 1..Len(hist) : hist[i].ok => Len(hist[i].st.v.e) = Len(hist[i].v.e)
RefusedKeeps == [][hist'[Len(hist')].ok \/ st' = st]_vars
\* an accepted value is accepted again, unchanged
Idempotent == st # Nothing => \A i \in 1..Len(hist) :
   (hist[i].ok /\ i = Len(hist)) => (st.v.k = "nested" \/ \A j \in 1..Len(st.v.e) : IsInstAny(st.v.e[j], decl.types) \/ decl.types = <<"none">>)
=============================================================================
