------------------------------- MODULE P05_Table -------------------------------
(* Data tables in files. A file is a sequence of lines
     [k |-> "h", cols, vals |-> <<>>, c]  header: columns [key, name, units, role] (role "", "input", "output", "both")
     [k |-> "r", cols |-> <<>>, vals, c]  row of numbers, M for a blank entry
     [k |-> "c" ...]                      comment only / [k |-> "b"] blank line
   c is the comment on the line ("" when there is none). key is the spelling of a header folded to lower case
   with underscores for blanks, name is the spelling with underscores.
   Reading consumes the file line by line; the caller's aliases are a sequence of [name, keys], the optional
   metadata a sequence of [name, units]. Writing turns a table, the dependent names and comments into lines. *)
EXTENDS Emit
M == -999

Compatible(u, v) == u = v \/ (u \in {"ft", "m"} /\ v \in {"ft", "m"}) \/ (u \in {"lbf", "N"} /\ v \in {"lbf", "N"})
KnownUnits == {"unitless", "ft", "m", "lbf", "N", "lbm/(lbf*h)", "1/s"}

Proper(col, al) == LET i == FirstIdx(al, LAMBDA x : IsIn(col.key, x.keys)) IN IF i = 0 THEN col.name ELSE al[i].name
MetaIdx(name, meta) == FirstIdx(meta, LAMBDA x : x.name = name)

Start == [phase |-> "header", cols |-> <<>>, rows |-> <<>>, comments |-> <<>>, inputs |-> <<>>, outputs |-> <<>>, err |-> FALSE]
Fail(s) == [s EXCEPT !.err = TRUE]

RECURSIVE Header(_, _, _, _, _, _)
Header(s, cols, j, al, strict, meta) ==
  IF j > Len(cols) \/ s.err THEN s
  ELSE LET c == cols[j]
           name == Proper(c, al)
           mi == MetaIdx(name, meta)
           expected == IF strict THEN (IF mi = 0 THEN "" ELSE meta[mi].units) ELSE "unitless"
       IN IF strict /\ mi = 0 THEN Header(s, cols, j + 1, al, strict, meta)
          ELSE IF c.role = "both" THEN Fail(s)
          ELSE IF c.units # "" /\ c.units \notin KnownUnits THEN Fail(s)
          ELSE IF c.units # "" /\ strict /\ ~Compatible(c.units, expected) THEN Fail(s)
          ELSE IF \E x \in Range(s.cols) : x.name = name THEN Fail(s)
          ELSE Header([s EXCEPT !.cols = Append(@, [name |-> name, units |-> IF c.units = "" THEN expected ELSE c.units, idx |-> j]),
                                !.inputs = IF c.role = "input" THEN Append(@, name) ELSE @,
                                !.outputs = IF c.role = "output" THEN Append(@, name) ELSE @],
                      cols, j + 1, al, strict, meta)

RECURSIVE Trim(_)
Trim(v) == IF Len(v) > 1 /\ v[Len(v)] = M THEN Trim(SubSeq(v, 1, Len(v) - 1)) ELSE v

ReadLine(s, l, al, strict, meta) ==
  LET t == [s EXCEPT !.comments = IF l.c = "" THEN @ ELSE Append(@, l.c)]
  IN IF s.err THEN s
     ELSE IF l.k \in {"c", "b"} THEN t
     ELSE IF l.k = "h" THEN
        (IF s.phase # "header" THEN Fail(t)
         ELSE LET h == Header(t, l.cols, 1, al, strict, meta) IN IF h.cols = <<>> THEN Fail(h) ELSE [h EXCEPT !.phase = "data"])
     ELSE LET v == Trim(l.vals) IN
          IF s.phase # "data" \/ IsIn(M, v) \/ \E x \in Range(s.cols) : x.idx > Len(v) THEN Fail(t)
          ELSE [t EXCEPT !.rows = Append(@, [i \in 1..Len(s.cols) |-> v[s.cols[i].idx]])]
RECURSIVE ReadFrom(_, _, _, _, _, _)
ReadFrom(s, lines, i, al, strict, meta) == IF i > Len(lines) THEN s ELSE ReadFrom(ReadLine(s, lines[i], al, strict, meta), lines, i + 1, al, strict, meta)

Nothing == [err |-> TRUE, cols |-> <<>>, rows |-> <<>>, comments |-> <<>>, inputs |-> <<>>, outputs |-> <<>>]
Outcome(s) == IF s.err \/ s.phase = "header" THEN Nothing
              ELSE [err |-> FALSE, cols |-> [i \in 1..Len(s.cols) |-> [name |-> s.cols[i].name, units |-> s.cols[i].units]], rows |-> s.rows,
                    comments |-> s.comments, inputs |-> s.inputs, outputs |-> s.outputs]
Read(lines, al, strict, meta) == Outcome(ReadFrom(Start, lines, 1, al, strict, meta))

(* writing: table = [cols: [key, name, units], rows]; label: dependents are marked *)
CommentLine(c) == [k |-> IF c = "" THEN "b" ELSE "c", cols |-> <<>>, vals |-> <<>>, c |-> c]
RowLine(r) == [k |-> "r", cols |-> <<>>, vals |-> r, c |-> ""]
Write(t, label, outs, comments) ==
  [i \in 1..Len(comments) |-> CommentLine(comments[i])]
  \o (IF comments = <<>> THEN <<>> ELSE <<CommentLine("")>>)
  \o <<[k |-> "h", cols |-> [i \in 1..Len(t.cols) |-> [key |-> t.cols[i].key, name |-> t.cols[i].name,
                                                       units |-> IF t.cols[i].units = "unitless" THEN "" ELSE t.cols[i].units,
                                                       role |-> IF ~label THEN "" ELSE IF IsIn(t.cols[i].name, outs) THEN "output" ELSE "input"]],
        vals |-> <<>>, c |-> ""]>>
  \o [i \in 1..Len(t.rows) |-> RowLine(t.rows[i])]

----------------------------------------------------------------------------
CONSTANTS Mode, Symbols, MaxLines, Aliases, Metas, Tables, CommentLists, OutLists

VARIABLES lines, al, meta, strict, table, comments, outs, label, got
vars == <<lines, al, meta, strict, table, comments, outs, label, got>>
NoTable == [cols |-> <<>>, rows |-> <<>>]
Init == /\ got = Nothing /\ lines = <<>>
        /\ IF Mode = "read"
           THEN al \in Aliases /\ meta \in Metas /\ strict = (meta # <<>>) /\ table = NoTable /\ comments = <<>> /\ outs = <<>> /\ label = FALSE
           ELSE al = <<>> /\ meta = <<>> /\ strict = FALSE /\ table \in Tables /\ comments \in CommentLists /\ outs \in OutLists /\ label \in BOOLEAN
AddLine == Mode = "read" /\ Len(lines) < MaxLines /\ got = Nothing /\ \E s \in Symbols : lines' = Append(lines, s) /\ got' = Nothing
WriteIt == Mode = "write" /\ lines = <<>> /\ lines' = Write(table, label, outs, comments) /\ got' = Read(lines', <<>>, FALSE, <<>>)
Keep == UNCHANGED <<al, meta, strict, table, comments, outs, label>>
Next == (AddLine \/ WriteIt) /\ Keep
EmitCase == IF Mode = "read" THEN Emit([lines |-> lines', al |-> al, meta |-> meta, strict |-> strict, r |-> Read(lines', al, strict, meta)])
            ELSE Emit([table |-> table, label |-> label, outs |-> outs, comments |-> comments, lines |-> lines', r |-> got'])

(* properties of the design *)
RoundTrip == (Mode = "write" /\ lines # <<>>) =>
   /\ ~got.err /\ got.rows = table.rows
   /\ got.cols = [i \in 1..Len(table.cols) |-> [name |-> table.cols[i].name, units |-> table.cols[i].units]]
   /\ got.comments = SelectSeq(comments, LAMBDA c : c # "")
   /\ (label => \A i \in 1..Len(table.cols) : IsIn(table.cols[i].name, IF IsIn(table.cols[i].name, outs) THEN got.outputs ELSE got.inputs))
NamesUnique == Mode = "read" => LET r == Read(lines, al, strict, meta) IN Cardinality({c.name : c \in Range(r.cols)}) = Len(r.cols)
StrictOnly == (Mode = "read" /\ strict) => LET r == Read(lines, al, strict, meta) IN \A c \in Range(r.cols) : MetaIdx(c.name, meta) # 0
NothingMeansRefused == Mode = "read" => LET r == Read(lines, al, strict, meta) IN r.err <=> r.cols = <<>>
=============================================================================
