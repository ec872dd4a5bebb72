------------------------------- MODULE P03_Deck -------------------------------
(* An input deck and what loading it means. A deck is a sequence of lines; a line is
     [cls: "var" | "guess" | "unknown" | "noise", t: what it names, vals: sequence of [ty, x], u: units as written or "", ud: their dimension,
      ty: declared type of the variable, multi: takes several values, du: its units in the metadata, dim: their dimension]
   Guesses and variables are kept apart. Values are compared through their canonical text x. Reading goes line by line;
   the memory maps what was named to [vals, u]. The caller may ask for a verbosity. *)
EXTENDS Emit
CONSTANTS Pool, MaxLines, Callers, Silent

Accepts(ty, v) == CASE ty = "num" -> v.ty \in {"int", "num"} [] ty = "int" -> v.ty = "int" [] OTHER -> v.ty = ty
Meaningful(ln) == ln.cls \in {"var", "guess"}
Legal(ln) == IF ln.cls # "var" THEN TRUE
             ELSE /\ \A i \in DOMAIN ln.vals : Accepts(ln.ty, ln.vals[i])
                  /\ Len(ln.vals) = 1 \/ ln.multi
                  /\ ln.u = "" \/ ln.ud = ln.dim
Texts(ln) == [i \in DOMAIN ln.vals |-> ln.vals[i].x]
Holds(ln) == [vals |-> Texts(ln), u |-> IF ln.cls = "guess" THEN "" ELSE IF ln.u = "" THEN ln.du ELSE ln.u]
Key(ln) == <<ln.cls, ln.t>>
Effect(ln, m) == IF Meaningful(ln) THEN (Key(ln) :> Holds(ln)) @@ m ELSE m
RECURSIVE Read(_, _)
Read(deck, m) == IF deck = <<>> THEN m ELSE Read(Tail(deck), Effect(Head(deck), m))
Refused(deck) == \E i \in DOMAIN deck : ~Legal(deck[i])
\* outcome of loading: refused, or what every named thing holds, and the verbosity of the run
VKey == <<"var", "settings:verbosity">>
Verb(m, caller) == IF caller # Silent THEN caller ELSE IF VKey \in DOMAIN m THEN m[VKey].vals[1] ELSE "BRIEF"
NoVerb(m) == [k \in DOMAIN m \ {VKey} |-> m[k]]
Load(deck, caller) == IF Refused(deck) THEN [ok |-> FALSE, m |-> {}, v |-> ""]
                      ELSE LET m == Read(deck, <<>>) IN [ok |-> TRUE, m |-> {<<k, m[k]>> : k \in DOMAIN m \ {VKey}}, v |-> Verb(m, caller)]

----------------------------------------------------------------------------
VARIABLES deck, caller, pos, mem, state
vars == <<deck, caller, pos, mem, state>>
Init == deck = <<>> /\ caller \in Callers /\ pos = 1 /\ mem = <<>> /\ state = "writing"
Write == state = "writing" /\ Len(deck) < MaxLines /\ (\E ln \in Pool : deck' = Append(deck, ln)) /\ UNCHANGED <<caller, pos, mem, state>>
Open == state = "writing" /\ state' = "reading" /\ UNCHANGED <<deck, caller, pos, mem>>
ReadLine == state = "reading" /\ pos <= Len(deck) /\ pos' = pos + 1
            /\ (IF Legal(deck[pos]) THEN mem' = Effect(deck[pos], mem) /\ UNCHANGED state ELSE state' = "refused" /\ UNCHANGED mem)
            /\ UNCHANGED <<deck, caller>>
Close == state = "reading" /\ pos > Len(deck) /\ state' = "loaded" /\ UNCHANGED <<deck, caller, pos, mem>>
Next == Write \/ Open \/ ReadLine \/ Close
EmitCase == (state = "writing" /\ state' = "reading") => Emit([deck |-> deck, caller |-> caller])

(* properties of the design *)
Agrees == /\ (state = "loaded") => Load(deck, caller).ok /\ Load(deck, caller).m = {<<k, mem[k]>> : k \in DOMAIN mem \ {VKey}}
          /\ (state = "refused") => ~Load(deck, caller).ok
LastWins == (state = "loaded") => \A i \in DOMAIN deck :
    (Meaningful(deck[i]) /\ \A j \in i + 1..Len(deck) : Meaningful(deck[j]) => Key(deck[j]) # Key(deck[i])) => mem[Key(deck[i])] = Holds(deck[i])
NothingElse == (state = "loaded") => DOMAIN mem = {Key(deck[i]) : i \in {j \in DOMAIN deck : Meaningful(deck[j])}}
DecorationFree == (state = "writing") => Load(deck, caller) = Load(SelectSeq(deck, Meaningful), caller)
Swap(d, i) == [j \in DOMAIN d |-> IF j = i THEN d[i + 1] ELSE IF j = i + 1 THEN d[i] ELSE d[j]]
OrderFree == (state = "writing") => \A i \in 1..Len(deck) - 1 :
    (Meaningful(deck[i]) /\ Meaningful(deck[i + 1]) /\ Key(deck[i]) # Key(deck[i + 1])) => Load(deck, caller) = Load(Swap(deck, i), caller)
CallerWins == (state = "writing" /\ caller # Silent /\ ~Refused(deck)) => Load(deck, caller).v = caller
Frame == [][(state = "reading" /\ pos' = pos + 1) => \A k \in DOMAIN mem : k # Key(deck[pos]) => mem'[k] = mem[k]]_vars
RefusedStays == [][IF state = "refused" \/ state = "loaded" THEN UNCHANGED state ELSE TRUE]_vars
=============================================================================
