------------------------------- MODULE P05_Trace -------------------------------
(* recorded histories: ops [op, lines, al, al2, meta, strict, table, label, outs, comments, comments2, r]: for a read, the file
   as given and what was read; for a write the lines found in the file; al2 / comments2 the caller's objects after the call *)
EXTENDS P05_Table
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, pos
TInit == tid = 1 /\ pos = 1 /\ lines = <<>> /\ al = <<>> /\ meta = <<>> /\ strict = FALSE /\ table = NoTable /\ comments = <<>> /\ outs = <<>> /\ label = FALSE /\ got = Nothing
Want(o) == IF o.op = "read" THEN Read(o.lines, o.al, o.strict, o.meta) ELSE Read(Write(o.table, o.label, o.outs, o.comments), <<>>, FALSE, <<>>)
Bad(o) == LET w == Want(o) IN
          (IF o.op = "read" /\ w # o.r THEN {"read"} ELSE {})
          \cup (IF o.op = "write" /\ o.lines # Write(o.table, o.label, o.outs, o.comments) THEN {"written"} ELSE {})
          \cup (IF o.op = "write" /\ w # o.r THEN {"roundtrip"} ELSE {})
          \cup (IF o.al # o.al2 \/ o.comments # o.comments2 \/ o.table # o.table2 THEN {"caller"} ELSE {})
TNext == /\ tid <= Len(Traces)
         /\ LET t == Traces[tid].ops
                b == Bad(t[pos])
            IN /\ (b # {} => Emit([tid |-> tid, pos |-> pos, bad |-> b, want |-> Want(t[pos])]))
               /\ IF pos < Len(t) THEN pos' = pos + 1 /\ tid' = tid ELSE pos' = 1 /\ tid' = tid + 1
         /\ UNCHANGED vars
         /\ (tid = Len(Traces) /\ tid' > tid => Emit([done |-> tid]))
=============================================================================
