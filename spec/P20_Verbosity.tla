---------------------------- MODULE P20_Verbosity ----------------------------
(* Verbosity is chosen for the whole problem (ctor), for one call (call) and in the deck (deck); M where it is not chosen.
   A family of operations offers some of these channels. The outcome of an operation (the values it produces, or the kind of refusal)
   is a function of what it is given and of nothing else; the messages are a function of the level in effect.
   The state is what has been seen so far: for each case its outcome and the channels it was run with. *)
EXTENDS Emit
CONSTANTS Families,        \* family -> the channels it offers
          Levels, Cases, MaxRuns

M == -1
Channels == [ctor : Levels \cup {M}, call : Levels \cup {M}, deck : Levels \cup {M}]
Offered(f, c) == \A k \in {"ctor", "call", "deck"} : k \in Families[f] \/ c[k] = M
\* the level in effect during a call
InEffect(c) == IF c.call # M THEN c.call ELSE IF c.ctor # M THEN c.ctor ELSE IF c.deck # M THEN c.deck ELSE 1
Says(level, least) == level >= least                      \* a message of a given weight is given
Outcome(f, case) == <<f, case>>                          \* whatever it is, no channel is an argument

----------------------------------------------------------------------------
VARIABLES seen, runs
vars == <<seen, runs>>
Init == seen = <<>> /\ runs = 0
Run(f, case, c) == /\ Offered(f, c)
                   /\ seen' = Append(seen, [f |-> f, case |-> case, c |-> c, out |-> Outcome(f, case), says |-> {l \in 1..3 : Says(InEffect(c), l)}])
                   /\ runs' = runs + 1
Next == runs < MaxRuns /\ \E f \in DOMAIN Families, case \in Cases, c \in Channels : Run(f, case, c)
EmitCase == Emit(seen'[Len(seen')])

Independent == \A i, j \in 1..Len(seen) : (seen[i].f = seen[j].f /\ seen[i].case = seen[j].case) => seen[i].out = seen[j].out
Quiet == \A i \in 1..Len(seen) : (InEffect(seen[i].c) = 0) <=> (seen[i].says = {})
CallWins == \A i \in 1..Len(seen) : seen[i].c.call # M => InEffect(seen[i].c) = seen[i].c.call
=============================================================================
