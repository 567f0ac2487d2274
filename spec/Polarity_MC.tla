---------------------------- MODULE Polarity_MC -----------------------------
(* Any source - sync polarities, porches, pulse lengths - whose syncs are at   *)
(* rest when a line of the picture ends: after its first line the specified    *)
(* outputs are its syncs, active high, also after another source was connected.*)
EXTENDS Capture, TLC
VARIABLES s, pol, de, hs, vs, lines, told
Init == s = PolInit(0) /\ pol \in (0..1) \X (0..1) /\ de = 0 /\ hs = 0 /\ vs = 0 /\ lines = 0 /\ told = <<0, 0, 0>>
Raw(h, v) == ((h + pol[1]) % 2) + 2 * ((v + pol[2]) % 2)
Send(d, h, v) == /\ s' = [PolStep(s, <<1, IF d = 1 THEN Code(0)[1] ELSE Raw(h, v), d, 0, 0, 0, 0, 0, 0>>, 0) EXCEPT !.p = <<>>]
                 /\ de' = d /\ hs' = h /\ vs' = v /\ told' = <<d, h, v>>
                 /\ lines' = IF de = 1 /\ d = 0 THEN MinI(lines + 1, 2) ELSE lines
Next == \/ \* picture, or blanking with any syncs; at rest when the picture ends
           \E d \in 0..1, h \in 0..1, v \in 0..1 :
              /\ (d = 1 \/ de = 1) => h = 0 /\ v = 0
              /\ Send(d, h, v) /\ UNCHANGED pol
        \/ \* another source, one of its lines has to pass
           /\ pol' \in (0..1) \X (0..1) /\ lines' = 0 /\ de' = 0 /\ hs' = 0 /\ vs' = 0 /\ told' = <<0, 0, 0>> /\ s' = s
ActiveHigh == lines >= 1 /\ told[1] = 0 => s.sync = <<told[2], told[3]>>
=============================================================================
