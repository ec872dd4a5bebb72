------------------------------- MODULE P16_Trace -------------------------------
(* the deck of every recorded case; cols and req come as sequences *)
EXTENDS P16_Deck, SequencesExt
Recorded == LET R == ndJsonDeserialize("traces.ndjson")
            IN {[R[i] EXCEPT !.cols = ToSet(R[i].cols), !.req = ToSet(R[i].req)] : i \in DOMAIN R}
=============================================================================
