------------------------------ MODULE TraceRun ------------------------------
(* Conformance, part 1: behaviours recorded from the real code are replayed    *)
(* against a specification.  A subsystem specification supplies                *)
(*   SInit(hdr)          the specification state a behaviour starts in         *)
(*   SCheck(st,row,hdr)  "" when the observed row is allowed in st, otherwise  *)
(*                       the name of the clause it breaks                      *)
(*   SStep(st,row,hdr)   the specification state after the row                 *)
(* The file named by TRACE_FILE holds <<[hdr, rows], ...>>.  Every trace is    *)
(* followed to its end or to its first disallowed row; the harness checks the  *)
(* number of distinct states, so a row that was never examined is noticed.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS SInit(_), SCheck(_, _, _), SStep(_, _, _), SFinal(_, _)

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, k, st, bad
vars == <<tid, k, st, bad>>

TraceInit == /\ tid \in 1..Len(Traces)
             /\ k = 0
             /\ st = SInit(Traces[tid].hdr)
             /\ bad = ""

TraceNext ==
  /\ bad = ""
  /\ k < Len(Traces[tid].rows)
  /\ LET hdr == Traces[tid].hdr
         row == Traces[tid].rows[k + 1]
         c   == SCheck(st, row, hdr)
     IN /\ IF c = ""
           THEN /\ st' = SStep(st, row, hdr)
                /\ bad' = IF k + 1 = Len(Traces[tid].rows) THEN SFinal(st', hdr) ELSE ""
           ELSE st' = st /\ bad' = c
        /\ IF bad' # "" THEN PrintT(<<"BAD", tid, k + 1, bad', ToString(st)>>) ELSE TRUE
  /\ k' = k + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
