------------------------------- MODULE LtsRun -------------------------------
(* Conformance, part 2: the reachable Mealy machine of the real code (every    *)
(* register state under every input letter, extracted by the harness at small  *)
(* parameters) runs in lock step with the specification; TLC explores every    *)
(* input sequence.  LTS_FILE holds                                             *)
(*   [hdr, ins : input letters, nxt : state x letter -> state,                 *)
(*    out : state x letter -> observed outputs]                                *)
(* A row is the input letter followed by the observed outputs.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS SInit(_), SCheck(_, _, _), SStep(_, _, _), SAssume(_, _, _)

L == JsonDeserialize(IOEnv.LTS_FILE)
hdr == L.hdr

VARIABLES q, st, bad, lastRow
vars == <<q, st, bad, lastRow>>
View == <<q, st, bad>>

LtsInit == q = 1 /\ st = SInit(hdr) /\ bad = "" /\ lastRow = <<>>

LtsNext ==
  /\ bad = ""
  /\ q <= Len(L.nxt)             \* states beyond were reached but not expanded
  /\ \E i \in 1..Len(L.ins) :
       LET row == L.ins[i] \o L.out[q][i]
       IN /\ SAssume(st, row, hdr)
          /\ lastRow' = row
          /\ LET c == SCheck(st, row, hdr)
             IN IF c = ""
                THEN st' = SStep(st, row, hdr) /\ q' = L.nxt[q][i] /\ bad' = ""
                ELSE st' = st /\ q' = q /\ bad' = c

LtsSpec == LtsInit /\ [][LtsNext]_vars
Conforms == bad = ""
=============================================================================
