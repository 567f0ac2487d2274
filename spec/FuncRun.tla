------------------------------- MODULE FuncRun ------------------------------
(* Conformance for combinational / numeric behaviour: the file named by        *)
(* TRACE_FILE holds <<[hdr, rows], ...>> and every row must satisfy            *)
(* FCheck(row, hdr) = "".  One state per chunk of rows.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS FCheck(_, _)

Chunks == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES chunk, done
vars == <<chunk, done>>

FuncInit == chunk \in 1..Len(Chunks) /\ done = FALSE
FuncNext ==
  /\ ~done
  /\ done' = TRUE
  /\ UNCHANGED chunk
  /\ LET c == Chunks[chunk]
     IN \A i \in 1..Len(c.rows) :
          LET v == FCheck(c.rows[i], c.hdr)
          IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", chunk, i, v, ToString(c.rows[i])>>)

FuncSpec == FuncInit /\ [][FuncNext]_vars
=============================================================================
