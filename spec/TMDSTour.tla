------------------------------ MODULE TMDSTour ------------------------------
(* Behaviours for the encoder: one shortest input sequence to every reachable  *)
(* disparity.  The harness follows each of them with every possible input.     *)
EXTENDS TMDS, TLC
VARIABLES cnt, hist
Inputs == {<<d, 0, 1>> : d \in 0..255}
Init == cnt = 0 /\ hist = <<>>
Next == \E x \in Inputs : cnt' = Emit(x, cnt)[2] /\ hist' = Append(hist, x[1])
View == cnt
Show == PrintT(<<"PRE", cnt, hist>>)
=============================================================================
