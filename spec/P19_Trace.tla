------------------------------- MODULE P19_Trace -------------------------------
(* recorded: [table, def, info, same: definition unchanged, r: what was built, again: what was built from its definition,
   reads: sequence of [n, u, r]] *)
EXTENDS P19_Options
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
SetOf(s) == {s[i] : i \in 1..Len(s)}
TabOf(t) == [n \in DOMAIN t |-> [unit |-> t[n].unit, types |-> SetOf(t[n].types), vals |-> SetOf(t[n].vals), none |-> t[n].none, def |-> t[n].def]]
TInit == tid = 1 /\ pos = 1 /\ def = <<>> /\ info = TRUE
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid]
                T == TabOf(t.table)
                w == Build(T, t.def, t.info)
                wrong == IF w.ok /\ t.r.ok THEN {n \in DOMAIN T \cup DOMAIN t.r.b : ~(n \in DOMAIN T /\ n \in DOMAIN t.r.b /\ w.b[n] = t.r.b[n])} ELSE {}
                bad == (IF w.ok # t.r.ok THEN {IF w.ok THEN "refused" ELSE "accepted"} ELSE {})
                       \cup (IF wrong # {} THEN {"options"} ELSE {})
                       \cup (IF w.ok /\ t.r.ok /\ t.again # w THEN {"round-trip"} ELSE {})
                       \cup (IF w.ok /\ t.r.ok /\ t.gb # t.gs THEN {"guesses"} ELSE {})      \* initial guesses come back as they were given
                       \cup (IF ~t.same THEN {"definition-changed"} ELSE {})
                       \cup (IF w.ok /\ t.r.ok /\ \E i \in 1..Len(t.reads) : Read(T, w.b, t.reads[i].n, t.reads[i].u) # t.reads[i].r THEN {"read"} ELSE {})
            IN bad # {} => Emit([tid |-> tid, pos |-> 1, bad |-> bad, want |-> [ok |-> w.ok, names |-> wrong, b |-> [n \in wrong \cap DOMAIN T |-> w.b[n]]]])
         /\ tid' = tid + 1 /\ UNCHANGED <<vars, pos>>
         /\ (tid = Len(Traces) => Emit([done |-> tid]))
=============================================================================
