------------------------------ MODULE TMDS_MC ------------------------------
(* Design-level check of the TMDS specification over every disparity state and *)
(* every input symbol.                                                         *)
EXTENDS TMDS, TLC
VARIABLES cnt, sym, inp, run
Init == cnt = 0 /\ sym = ControlToken[1] /\ inp = <<0, 0, 0>> /\ run = 0
Inputs == {<<d, 0, 1>> : d \in 0..255} \cup {<<0, c, 0>> : c \in 0..3}
Next == \E x \in Inputs : /\ inp' = x
                          /\ sym' = Emit(x, cnt)[1]
                          /\ cnt' = Emit(x, cnt)[2]
                          /\ run' = cnt
Spec == Init /\ [][Next]_<<cnt, sym, inp, run>>
\* the receiver recovers every input
Inverse == IF inp[3] = 1 THEN ~IsControl(sym) /\ DecodeData(sym) = inp[1]
                         ELSE IsControl(sym) /\ ControlOf(sym) = inp[2]
\* disparity is the running excess of ones and stays bounded
Balance == inp[3] = 1 => cnt - run = 2 * Ones(sym, 10) - 10
Bounded == cnt \in -10..10
\* at most five transitions inside a data symbol; control symbols have at least seven
FewTransitions == IF inp[3] = 1 THEN TransR(sym, 7) <= 4 ELSE TransR(sym, 9) >= 7
View == <<cnt, sym, inp, run>>
=============================================================================
