------------------------------ MODULE Lossy_MC ------------------------------
(* A source that never waits, a buffer that loses words when it is full, the   *)
(* specification of the slots behind it and a memory that takes words when it  *)
(* likes: a filled slot holds one whole frame, or the overflow flag was up     *)
(* since the first word of that frame was stored; a frame that begins after    *)
(* the last loss is whole, without anything being restarted.                   *)
EXTENDS Capture, TLC
CONSTANTS Slots, Size, Frames, Depth
VARIABLES s, at, buf, ov, lost, up, got, kind
\* at: next word of the source <<frame, index>>; buf: words stored; ov: the flag; lost, up: frames during or after whose
\* first word something was lost, the flag was up; got: words in the slot being filled
vars == <<s, at, buf, ov, lost, up, got, kind>>
hdr == [n |-> Slots, mask |-> 1, span |-> 64]
Num(w) == 8 * w[1] + w[2]
In(b) == {b[i] : i \in 1..Len(b)}
Init == /\ s = [DmaInit(hdr) EXCEPT !.size = Size, !.ad = [i \in 1..Slots |-> 16 * i]]
        /\ at = <<1, 0>> /\ buf = <<>> /\ ov = FALSE /\ lost = {} /\ up = {} /\ got = <<>> /\ kind = ""
Row(fr, m, w, i) ==
  LET fv == buf # <<>>
  IN <<B(fv), B(fv /\ buf[1][2] = 0), IF fv THEN Num(buf[1]) ELSE 0, fr,
       B(m /\ s.cq # <<>>), B(m), IF s.cq # <<>> THEN s.cq[1] ELSE 0, 1, B(s.dq # <<>>), B(m),
       IF s.dq # <<>> THEN s.dq[1] ELSE 0, 1, w, i, 1>> \o s.st \o s.ad \o <<0>>
\* one step of the slots and the source at once, or of the software
Next ==
  \/ \E new \in BOOLEAN, fr \in 0..1, m \in BOOLEAN, i \in 0..Slots :
      /\ i > 0 => s.st[i] # 1
      /\ at[1] > Frames => ~new
      /\ LET row  == Row(fr, m, B(i > 0), i)
             take == row[1] = 1 /\ fr = 1
             b1   == IF take THEN Tail(buf) ELSE buf
             full == Len(buf) >= Depth
             in   == new /\ ~full
             loss == new /\ full
             known == {f \in 1..Frames : \/ f < at[1] \/ (f = at[1] /\ at[2] > 0)}
         IN /\ DmaCheck(s, row, hdr) = ""
            /\ (Len(s.dq) < 2 \/ ~Taken(s, row))
            /\ s' = DmaStep(s, row, hdr)
            /\ buf' = IF in THEN Append(b1, at) ELSE b1
            /\ at' = IF ~new THEN at ELSE IF at[2] + 1 < Size THEN <<at[1], at[2] + 1>> ELSE <<at[1] + 1, 0>>
            /\ ov' = (ov \/ loss)
            /\ lost' = IF loss THEN lost \cup known ELSE lost
            /\ up' = IF ov \/ loss THEN up \cup known \cup (IF in /\ at[2] = 0 THEN {at[1]} ELSE {}) ELSE up
            /\ got' = IF Starts(s, row) THEN <<>> ELSE IF Taken(s, row) THEN Append(got, buf[1]) ELSE got
            /\ kind' = IF DmaDone(s, row) THEN "done" ELSE ""
  \/ /\ ov /\ ov' = FALSE /\ kind' = "clear" /\ UNCHANGED <<s, at, buf, lost, up, got>>
Whole == got = [i \in 1..Size |-> <<got[1][1], i - 1>>]
Flagged  == kind = "done" => got[1][2] = 0 /\ (Whole \/ got[1][1] \in up)
Recovers == kind = "done" => got[1][2] = 0 /\ (Whole \/ got[1][1] \in lost)
=============================================================================
