------------------------------ MODULE P04_SaveLoad ------------------------------
(* Saving aircraft inputs, as a deck or as the results of an analysis, and loading them back.
   A variable: [n, t, many, u] with t "num", "bool", "text" or "enum" (its entries), many whether it takes lists, u its own units.
   A value:    [e, u, list]: its entries (sequence of [k, v]), the units it is given in, whether it is written as a list.
               A list of one entry and the entry alone are the same value.
   mem, and what is loaded: functions from names to [e, u].
   Files: a deck is a sequence of rows of fields; results are a sequence of [n, e, u, list] where members of an enumeration go by name.  *)
EXTENDS Emit
CONSTANTS Vars, Values, Codes, Masses, Depth
(* Codes: member of the enumeration -> what a deck calls it; Masses: what an analysis may find for the gross masses *)
Units == {"unitless", "lbm", "kg", "ft", "m"}
GROSS == "mission:gross_mass"
DESIGN == "aircraft:design:gross_mass"
VarOf(n) == CHOOSE x \in Vars : x.n = n
Same(a, b) == a.e = b.e /\ a.u = b.u

----------------------------------------------------------------------------
(* rows of a deck: name, entries, units *)
Written(x) == IF x.k = "enum" THEN Codes[x.v] ELSE x.v
Row(n, v) == <<n>> \o [i \in DOMAIN v.e |-> Written(v.e[i])] \o <<v.u>>
(* the last field is a unit when it can be one and a value is left; the others are what the variable says *)
Read(var, f) == CASE var.t = "enum" -> [k |-> "enum", v |-> CHOOSE m \in DOMAIN Codes : Codes[m] = f]
                  [] OTHER -> [k |-> var.t, v |-> f]
FromRow(row) == LET var == VarOf(row[1])
                    rest == Tail(row)
                    unit == Len(rest) > 1 /\ rest[Len(rest)] \in Units
                    f == IF unit THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest
                IN [e |-> [i \in DOMAIN f |-> Read(var, f[i])], u |-> IF unit THEN rest[Len(rest)] ELSE var.u]
RowsOf(m) == {Row(n, m[n]) : n \in DOMAIN m}
FromRows(rows) == [n \in {r[1] : r \in rows} |-> FromRow(CHOOSE r \in rows : r[1] = n)]

(* results: gross masses as the analysis found them, in the units they were given in; a design gross mass in any case *)
Results(m, found) == LET with == DOMAIN m \cup {DESIGN} IN
   [n \in with |-> IF n \in {GROSS, DESIGN} THEN [e |-> <<[k |-> "num", v |-> found[n]]>>, u |-> IF n \in DOMAIN m THEN m[n].u ELSE "lbm"] ELSE m[n]]

----------------------------------------------------------------------------
VARIABLES mem, files, got, found, last, steps
vars == <<mem, files, got, found, last, steps>>
Nothing == <<>>
NoFile == [kind |-> "none", c |-> <<>>, was |-> <<>>]
Init == mem = Nothing /\ files = [f \in {"a", "b"} |-> NoFile] /\ got = Nothing /\ found = [n \in {GROSS, DESIGN} |-> CHOOSE x \in Masses : TRUE] /\ last = "none" /\ steps = 0
Fits(var, v) == (\A i \in DOMAIN v.e : v.e[i].k = var.t) /\ (var.many \/ (Len(v.e) = 1 /\ ~v.list)) /\ (v.u = var.u \/ (var.t = "num" /\ var.u = "lbm" /\ v.u = "kg"))
Put(m, n, v) == [x \in DOMAIN m \cup {n} |-> IF x = n THEN [e |-> v.e, u |-> v.u] ELSE m[x]]
Assign == \E var \in Vars : \E v \in Values : Fits(var, v) /\ mem' = Put(mem, var.n, v) /\ last' = "set" /\ UNCHANGED <<files, got, found>>
Analyse == \E a \in Masses : \E b \in Masses : found' = [n \in {GROSS, DESIGN} |-> IF n = GROSS THEN a ELSE b] /\ found' # found /\ last' = "analyse" /\ UNCHANGED <<mem, files, got>>
SaveDeck == \E f \in {"a", "b"} : files' = [files EXCEPT ![f] = [kind |-> "deck", c |-> RowsOf(mem), was |-> mem]] /\ last' = "save" /\ UNCHANGED <<mem, got, found>>
SaveResults == \E f \in {"a", "b"} : files' = [files EXCEPT ![f] = [kind |-> "results", c |-> Results(mem, found), was |-> Results(mem, found)]] /\ last' = "save" /\ UNCHANGED <<mem, got, found>>
Loaded(file) == IF file.kind = "deck" THEN FromRows(file.c) ELSE file.c
Load == \E f \in {x \in {"a", "b"} : files[x].kind # "none"} : got' = [f |-> f, m |-> Loaded(files[f])] /\ last' = "load" /\ UNCHANGED <<mem, files, found>>
Next == steps < Depth /\ steps' = steps + 1 /\ (Assign \/ Analyse \/ SaveDeck \/ SaveResults \/ Load)

(* what is loaded is what was saved *)
Restored == last = "load" => got.m = files[got.f].was
(* every set of inputs survives a deck, whatever its values *)
Survives == FromRows(RowsOf(mem)) = mem
(* results keep everything but the gross masses, and those are the ones found *)
KeepsRest == LET r == Results(mem, found) IN /\ \A n \in DOMAIN mem \ {GROSS, DESIGN} : r[n] = mem[n]
                                             /\ \A n \in {GROSS, DESIGN} \cap DOMAIN r : r[n].e[1].v = found[n]
(* saving and loading change no inputs *)
Harmless == [][(last' \in {"save", "load"}) => (IF mem' = mem THEN TRUE ELSE FALSE)]_vars
EmitCase == (last' = "load") => Emit([mem |-> {[n |-> n, e |-> mem[n].e, u |-> mem[n].u] : n \in DOMAIN mem}, was |-> {[n |-> n, e |-> files[got'.f].was[n].e, u |-> files[got'.f].was[n].u] : n \in DOMAIN files[got'.f].was},
                                      kind |-> files[got'.f].kind])
=============================================================================
