------------------------------ MODULE Slots_MC ------------------------------
(* Any software, memory and stream of frames against the specification of the  *)
(* slots: a slot is only ever filled with one whole frame, in place, and       *)
(* nothing outside a slot in use is written.                                   *)
EXTENDS Capture, TLC
CONSTANTS Slots, Size, Frames
VARIABLES s, wd, mem, aq, vq, start, base, kind
\* wd: word offered <<frame, index>>; mem: address -> word; aq, vq: addresses and values accepted, not yet paired;
\* start: number of the frame being stored, base: where, kind: what the last step did
hdr == [n |-> Slots, mask |-> 1, span |-> 64]
Num(w) == 8 * w[1] + w[2]
Lens == Size..(Size + 1)          \* frames as long as programmed, or longer
\* a slot has two places it may be put
Place(i) == {2 * (i - 1) * (Size + 1), (2 * i - 1) * (Size + 1)}
Init == /\ s = [DmaInit(hdr) EXCEPT !.size = Size] /\ wd = <<1, 0, Size>> /\ mem = [a \in 0..63 |-> 0]
        /\ aq = <<>> /\ vq = <<>> /\ start = 0 /\ base = 0 /\ kind = "init"
Row(fv, fr, cv, cr, wv, wr, w, i, v) ==
  <<fv, B(wd[2] = 0), Num(wd), fr, cv, cr, IF s.cq # <<>> THEN s.cq[1] ELSE s.a, 1, wv, wr,
    IF s.dq # <<>> THEN s.dq[1] ELSE Num(wd), 1, w, i, v>> \o s.st \o s.ad \o <<0>>
Soft == {<<0, 0, 0>>} \cup {<<1, i, 1>> : i \in {j \in 1..Slots : s.st[j] # 1}}
        \cup {<<2, i, a>> : i \in {j \in 1..Slots : s.st[j] # 1 /\ s.ad[j] \notin Place(j)}, a \in UNION {Place(j) : j \in 1..Slots}}
\* software loads a slot only once it has given it an address of its own
Fair(w) == (w[1] = 2 => w[3] \in Place(w[2])) /\ (w[1] = 1 => s.ad[w[2]] \in Place(w[2]))
After(w) == IF w[2] + 1 < w[3] THEN {<<w[1], w[2] + 1, w[3]>>} ELSE {<<w[1] + 1, 0, l>> : l \in Lens}
Next ==
  \E fv \in 0..1, fr \in 0..1, cv \in 0..1, cr \in 0..1, wv \in 0..1, wr \in 0..1, w \in Soft :
    /\ Fair(w)
    /\ LET row == Row(fv, fr, cv, cr, wv, wr, w[1], w[2], w[3])
           a1  == IF cv = 1 /\ cr = 1 THEN Append(aq, row[7]) ELSE aq
           v1  == IF wv = 1 /\ wr = 1 THEN Append(vq, row[11]) ELSE vq
           put == a1 # <<>> /\ v1 # <<>>
           go  == fv = 1 /\ fr = 1
       IN /\ DmaCheck(s, row, hdr) = ""
          /\ (wd[1] = Frames => fv = 0)
          /\ Len(s.dq) < 2 \/ ~Taken(s, row)
          /\ s' = DmaStep(s, row, hdr)
          /\ mem' = IF put THEN [mem EXCEPT ![a1[1]] = v1[1]] ELSE mem
          /\ aq' = IF put THEN Tail(a1) ELSE a1
          /\ vq' = IF put THEN Tail(v1) ELSE v1
          /\ IF go THEN wd' \in After(wd) ELSE wd' = wd
          /\ start' = IF Starts(s, row) THEN wd[1] ELSE start
          /\ base' = IF Starts(s, row) THEN s.ad[s.cur] ELSE base
          /\ kind' = IF DmaDone(s, row) THEN "done" ELSE IF put THEN "put" ELSE ""
\* every part of the memory belongs to the slot that is being filled, or is not touched
Whole == kind = "done" => /\ \A i \in 0..(Size - 1) : mem[base + i] = 8 * start + i
                          /\ aq = <<>> /\ vq = <<>>
Inside == [][\A a \in 0..63 : mem'[a] # mem[a] => base' <= a /\ a < base' + Size]_<<s, wd, mem, aq, vq, start, base, kind>>
=============================================================================
