---------------------------- MODULE CharSync_MC -----------------------------
(* Any stream of legal characters cut at any phase: the specification of the   *)
(* character synchroniser locks to the right phase and to no other, whatever   *)
(* picture is sent.                                                            *)
EXTENDS HDMIRx, TLC
CONSTANTS Req

\* --- no two words in succession hold a control character at one wrong place
Counts == {-8, -6, -4, -2, 0, 2, 4, 6, 8}
Data   == {Encode(v, n)[1] : v \in 0..255, n \in Counts}
Legal  == Data \cup Tokens
At(a, b, p) == ((a + 1024 * b) \div Pow2[p]) % 1024
Splice == [p \in 1..9 |-> {ab \in Legal \X Legal : At(ab[1], ab[2], p) \in Tokens}]
NoDouble == \A p \in 1..9 : {ab[2] : ab \in Splice[p]} \cap {ab[1] : ab \in Splice[p]} = {}
ASSUME Cardinality(Data) = 460
ASSUME NoDouble

\* --- the synchroniser itself, on characters that matter: controls, data, and data that splice to controls
Sample(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}
Pairs == UNION {Sample(Splice[p]) : p \in 1..9}
Alpha == {ControlToken[1], ControlToken[2], ControlToken[4], Encode(85, 0)[1]}
         \cup {ab[1] : ab \in Pairs} \cup {ab[2] : ab \in Pairs}
VARIABLES s, phase, a, run
hdr == [req |-> Req, reg |-> 0]
Init == s = ChrInit(hdr) /\ phase \in 0..9 /\ a = Encode(85, 0)[1] /\ run = 0
Send(b) == /\ s' = [ChrStep(s, <<At(a, b, phase), s.synced, s.data>>, hdr) EXCEPT !.data = 0]
           /\ a' = b /\ run' = IF b \in Tokens THEN MinI(run + 1, Req + 4) ELSE 0
           /\ UNCHANGED phase
Next == \E b \in Alpha : Send(b)
Right == s.synced = 1 => s.sel = (10 - phase) % 10
Locks == run = Req + 4 => s.synced = 1
=============================================================================
