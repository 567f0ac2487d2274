------------------------------ MODULE Link_MC -------------------------------
(* Any HDMI source against the period decoder: control periods of any length,  *)
(* preambles of eight characters, guard bands of two, islands of any number of *)
(* characters, pictures of any contents; up to Errors characters of one        *)
(* channel replaced by another.                                                *)
EXTENDS HDMIRx, TLC
CONSTANTS Errors
VARIABLES s, kind, n, pk, dirty, pd, left
\* kind, n: of the latest character; pk: kind of the one before; dirty, pd: control characters
\* still needed after an error
\* kinds 0 control, 1 video, 2/4 leading and trailing guard band of an island, 3 island, 5 video guard band,
\* 6 preamble of an island, 7 preamble of video
hdr == [dvi |-> 0]
Ctl(c) == ControlToken[c + 1]
Plain   == 456                     \* a data character that is nothing else
Tok0  == {Ctl(0), Ctl(3)}
Chars(k) == CASE k = 0 -> Tok0 \X {Ctl(0)} \X {Ctl(0)}
              [] k = 6 -> Tok0 \X {Ctl(1)} \X {Ctl(1)}
              [] k = 7 -> Tok0 \X {Ctl(1)} \X {Ctl(0)}
              [] k \in {2, 4} -> {TERC4[13], TERC4[16]} \X {DataGB} \X {DataGB}
              [] k = 3 -> {TERC4[9], TERC4[1]} \X {TERC4[9], TERC4[1]} \X {TERC4[9], TERC4[1]}
              [] k = 5 -> {VideoGB}
              [] k = 1 -> {Plain, VideoGB[1]} \X {Plain, VideoGB[2]} \X {Plain, VideoGB[3]}
Wrongs == {Plain, Ctl(0), Ctl(1), DataGB, VideoGB[1], TERC4[1]}
\* what may follow the n-th character of a kind
Follow(k, i) == CASE k = 0 -> {0, 6, 7}
                  [] k = 6 -> IF i < 8 THEN {6} ELSE {2}
                  [] k = 7 -> IF i < 8 THEN {7} ELSE {5}
                  [] k = 2 -> IF i < 2 THEN {2} ELSE {3}
                  [] k = 3 -> {3, 4}
                  [] k = 4 -> IF i < 2 THEN {4} ELSE {0}
                  [] k = 5 -> IF i < 2 THEN {5} ELSE {1}
                  [] k = 1 -> IF i < 4 THEN {1} ELSE {1, 0}     \* lines of four pixels and more
Settle == 4
Init == /\ s = T4Init(hdr) /\ kind = 0 /\ n = 1 /\ pk = 0 /\ dirty = Settle /\ pd = Settle /\ left = Errors
Row(c) == <<1, c[1], c[2], c[3], 0, 0>>
Send(k, c, bad) == /\ s' = [T4Step(s, Row(c), hdr) EXCEPT !.de = <<0, 0>>]
                   /\ kind' = k
                   /\ n' = IF k = kind /\ k \notin {0, 3} THEN MinI(n + 1, 8) ELSE 1
                   /\ pk' = kind /\ pd' = dirty
                   /\ dirty' = IF bad THEN Settle ELSE IF k \in {0, 6, 7} THEN MaxI(dirty - 1, 0) ELSE dirty
                   /\ left' = IF bad THEN left - 1 ELSE left
Next == \E k \in Follow(kind, n) :
          \E c \in Chars(k) :
            \/ Send(k, c, FALSE)
            \/ /\ left > 0
               /\ \E i \in 1..3 : \E w \in Wrongs : w # c[i] /\ Send(k, [c EXCEPT ![i] = w], TRUE)
\* outside the stretch from an error to the fourth control character after it, the decoder tells what is being sent
Told == pd = 0 => /\ (s.per = "VIDEO") = (pk = 1)
               /\ (s.per \in {"GOING_T4", "TERC4", "LEAVE_T4"}) = (pk \in {2, 3, 4})
               /\ (s.per = "TERC4") = (pk = 3)
\* even after an error no picture is seen outside the pictures and guard bands
NoPicture == s.per = "VIDEO" => pk \in {1, 5} \/ pd > 0
=============================================================================
