----------------------------- MODULE P22_Objective -----------------------------
(* Composite objectives. Missions carry quantities (Value[m][q] an integer, in the unit of the quantity); Short maps
   the shorthand names to quantities. An argument is [f, m, o, w]: the form it is written in, mission, output, weight:
     "o" output, "ow" (output, weight), "mo" (mission, output), "mow" (mission, output, weight), anything else malformed.
   The problem state is the set of terms registered so far. *)
EXTENDS Emit
CONSTANTS Missions, Value, Short, DefaultRef, Outputs, Names, Weights, Forms, MaxArgs, Refs, Mode

M == -999
Default == "model"
Resolve(o) == IF o \in DOMAIN Short THEN Short[o] ELSE o
\* the one mission / output / weight an argument asks for
Parse(a) ==
  LET bad == [ok |-> FALSE, m |-> "", o |-> "", w |-> 0]
  IN CASE a.f = "o" -> IF a.o \in Missions THEN bad ELSE [ok |-> TRUE, m |-> Default, o |-> a.o, w |-> 1]
       [] a.f = "ow" -> IF a.o \in Missions THEN bad ELSE [ok |-> TRUE, m |-> Default, o |-> a.o, w |-> a.w]
       [] a.f = "mo" -> IF a.m \notin Missions THEN bad ELSE [ok |-> TRUE, m |-> a.m, o |-> a.o, w |-> 1]
       [] a.f = "mow" -> IF a.m \notin Missions THEN bad ELSE [ok |-> TRUE, m |-> a.m, o |-> a.o, w |-> a.w]
       [] OTHER -> bad
Known(t) == t.m \in Missions /\ Resolve(t.o) \in DOMAIN Value[t.m]
Refused == [ok |-> FALSE, num |-> 0, den |-> 1, ref |-> M]
Objective(args, ref) ==
  LET ts == [i \in 1..Len(args) |-> Parse(args[i])]
      ok == /\ args # <<>>
            /\ \A i \in 1..Len(args) : ts[i].ok /\ Known(ts[i])
            /\ \A i, j \in 1..Len(args) : i # j => <<ts[i].m, Resolve(ts[i].o)>> # <<ts[j].m, Resolve(ts[j].o)>>
  IN IF ~ok THEN Refused
     ELSE [ok |-> TRUE, num |-> SumSeq([i \in 1..Len(args) |-> ts[i].w * Value[ts[i].m][Resolve(ts[i].o)]]),
           den |-> SumSeq([i \in 1..Len(args) |-> ts[i].w]),
           ref |-> IF ref # M THEN ref ELSE IF Len(args) = 1 /\ ts[1].o \in DOMAIN DefaultRef THEN DefaultRef[ts[1].o] ELSE M]
\* every mission with every output; mw, ow: weights, <<>> when not given
Ones(n) == [i \in 1..n |-> 1]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Advanced(a) ==
  LET mw == IF a.mw = <<>> THEN Ones(Len(a.ms)) ELSE a.mw
      ow == IF a.ow = <<>> THEN Ones(Len(a.os)) ELSE a.ow
      ok == /\ Len(mw) = Len(a.ms) /\ Len(ow) = Len(a.os) /\ a.ms # <<>> /\ a.os # <<>> /\ Distinct(a.ms) /\ Distinct(a.os)
            /\ \A i \in 1..Len(a.ms), j \in 1..Len(a.os) : a.ms[i] \in Missions /\ a.os[j] \in DOMAIN Value[a.ms[i]]
  IN IF ~ok THEN Refused
     ELSE [ok |-> TRUE, num |-> SumSeq([i \in 1..Len(a.ms) |-> SumSeq([j \in 1..Len(a.os) |-> mw[i] * ow[j] * Value[a.ms[i]][a.os[j]]])]),
           den |-> SumSeq(mw) * SumSeq(ow), ref |-> IF a.ref = M THEN 1 ELSE a.ref]

----------------------------------------------------------------------------
VARIABLES args, ref, adv
vars == <<args, ref, adv>>
NoAdv == [ms |-> <<>>, os |-> <<>>, mw |-> <<>>, ow |-> <<>>, ref |-> M]
Arg == {a \in [f : Forms, m : Names, o : Outputs \cup Names, w : Weights] :
          /\ (a.f \in {"o", "ow"} => a.m = CHOOSE n \in Names : TRUE)
          /\ (a.f \in {"o", "mo"} => a.w = CHOOSE w \in Weights : TRUE)
          /\ (a.f \notin {"o", "ow", "mo", "mow"} => a.w = (CHOOSE w \in Weights : TRUE) /\ a.o = CHOOSE o \in Outputs : TRUE)}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Advs == [ms : Seqs(Names, 2), os : Seqs({o \in Outputs : o \notin DOMAIN Short}, 2), mw : Seqs(Weights, 2), ow : Seqs(Weights, 2), ref : Refs]
Init == args = <<>> /\ ref \in Refs /\ adv \in (IF Mode = "adv" THEN Advs ELSE {NoAdv})
AddArg == Mode = "args" /\ Len(args) < MaxArgs /\ \E a \in Arg : args' = Append(args, a) /\ UNCHANGED <<ref, adv>>
Done == Mode = "adv" /\ ref = adv.ref /\ adv' = NoAdv /\ adv # NoAdv /\ UNCHANGED <<args, ref>>
Next == AddArg \/ Done
EmitCase == IF Mode = "adv" THEN Emit([adv |-> adv, r |-> Advanced(adv)]) ELSE Emit([args |-> args', ref |-> ref', r |-> Objective(args', ref')])

(* properties of the design *)
Perm(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == LET a == Objective(args, ref) b == Objective(Perm(args), ref) IN a = b
Scale(s, k) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.w = k * @, !.f = CASE @ = "o" -> "ow" [] @ = "mo" -> "mow" [] OTHER -> @]]
Fill(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.w = IF s[i].f \in {"o", "mo"} THEN 1 ELSE @, !.f = CASE @ = "o" -> "ow" [] @ = "mo" -> "mow" [] OTHER -> @]]
\* only the ratios of the weights matter, and a missing weight is a weight of one
Normalised == LET a == Objective(args, ref) b == Objective(Scale(Fill(args), 3), ref) c == Objective(Fill(args), ref)
              IN a.ok = b.ok /\ a = c /\ (a.ok => a.num * b.den = b.num * a.den)
\* dropping a term never repairs an objective that is refused for another one
RefusalLocal == (Len(args) > 1 /\ ~Objective(SubSeq(args, 1, Len(args) - 1), ref).ok) => ~Objective(args, ref).ok
=============================================================================
