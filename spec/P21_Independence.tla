---------------------------- MODULE P21_Independence ----------------------------
(* Analyses in one process. A session carries out the stages of a program in order, on objects of its own and (by name) on its own files.
   Sessions interleave: the state of the process is where each session is, what each has seen and what the package ships (the registries).
   The result of a stage is a function of the program and of the stages of its own session: nothing else is an argument.
   A stage may leave things in its session (objects, files) and none in the registries. *)
EXTENDS Emit
CONSTANTS Lengths,         \* the numbers of stages programs can have
          MaxSessions, MaxSteps

Stage(n, k) == <<n, k>>                                  \* stage k of a program of n stages
\* what a stage leaves to its own session; a session's memory is a fold over its own stages
Remember(mem, x) == Append(mem, x)
Result(mem, x) == <<mem, x>>
Shipped == "as shipped"

----------------------------------------------------------------------------
VARIABLES sessions,   \* sequence of [n, done, mem, saw]
          reg,        \* the registries
          hist        \* the stages performed: [s, n, k, out]
vars == <<sessions, reg, hist>>
Init == sessions = <<>> /\ reg = Shipped /\ hist = <<>>

Perform(s, ss) == LET x == Stage(ss[s].n, ss[s].done + 1)
                      out == Result(ss[s].mem, x)
                  IN /\ sessions' = [ss EXCEPT ![s] = [@ EXCEPT !.done = @ + 1, !.mem = Remember(@, x), !.saw = Append(@, out)]]
                     /\ hist' = Append(hist, [s |-> s, n |-> ss[s].n, k |-> ss[s].done + 1, out |-> out])
                     /\ reg' = reg
\* a session begins with its first stage
Begin(n) == Len(sessions) < MaxSessions /\ Perform(Len(sessions) + 1, Append(sessions, [n |-> n, done |-> 0, mem |-> <<>>, saw |-> <<>>]))
Continue(s) == sessions[s].done < sessions[s].n /\ Perform(s, sessions)
Next == Len(hist) < MaxSteps /\ (\/ \E n \in Lengths : Begin(n)
                                 \/ \E s \in DOMAIN sessions : Continue(s))

Over(ss) == \A s \in DOMAIN ss : ss[s].done = ss[s].n
\* only histories in which every session is over and there are at least two
EmitCase == (Len(sessions') >= 2 /\ Over(sessions')) => Emit([order |-> [i \in DOMAIN hist' |-> hist'[i].s], lens |-> [s \in DOMAIN sessions' |-> sessions'[s].n]])

----------------------------------------------------------------------------
\* what a session sees when it is alone in a process
RECURSIVE Memory(_, _)
Memory(n, k) == IF k = 0 THEN <<>> ELSE Remember(Memory(n, k - 1), Stage(n, k))
Alone(n, k) == Result(Memory(n, k - 1), Stage(n, k))

Independent == \A i \in DOMAIN hist : hist[i].out = Alone(hist[i].n, hist[i].k)
Own(s) == SelectSeq(hist, LAMBDA e : e.s = s)
InOrder == \A s \in DOMAIN sessions : \A i \in DOMAIN Own(s) : Own(s)[i].k = i
Unchanged == reg = Shipped
Untouched == [][\A s \in DOMAIN sessions : (hist' # hist /\ hist'[Len(hist')].s # s) => (sessions'[s] = sessions[s])]_vars
\* neighbouring stages of different sessions commute: nobody can tell the two orders apart
Same(n, k) == \A i, j \in DOMAIN hist : (hist[i].n = hist[j].n /\ hist[i].k = hist[j].k) => hist[i].out = hist[j].out
Repeatable == \A n \in Lengths, k \in 1..3 : Same(n, k)
=================================================================================
