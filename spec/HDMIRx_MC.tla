----------------------------- MODULE HDMIRx_MC -----------------------------
(* Design-level facts about the receiver specification.                        *)
(* Two channels with skew; a common sequence of lines (control, then data).    *)
EXTENDS HDMIRx, TLC
CONSTANTS Depth, MaxSkew, Blank, Active
VARIABLES t, skew, s
Line == Blank + Active
\* word k of the transmitted sequence: a data word carries its number in the line
Word(k) == IF k < 0 THEN 0 ELSE IF (k % Line) < Blank THEN 0 ELSE 1048576 + (k % Line)
hdr == [n |-> 3, depth |-> Depth, reg |-> 0]
Init == t = 0 /\ skew \in [1..3 -> 0..MaxSkew] /\ s = ChnInit(hdr)
Row == <<1>> \o [i \in 1..3 |-> Word(t - skew[i])]
Next == /\ t < 6 * Line
        /\ t' = t + 1
        /\ s' = ChnStep(s, Row, hdr)
        /\ UNCHANGED skew
\* blanking longer than the buffer, active lines at least as long: two lines later
\* the channels are aligned for good
Aligned == t > 2 * Line + MaxSkew =>
             /\ s.synced = 1
             /\ \A i \in 2..3 : ChnOut(s, hdr)[i] = ChnOut(s, hdr)[1]
=============================================================================
