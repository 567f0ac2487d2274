------------------------------ MODULE CSDigest ------------------------------
(* Exhaustive comparison over all 2^24 pixels: for every value of the first    *)
(* component the digest of the 65536 specified results must equal the digest   *)
(* of the results the code produced (JOBS: <<[a, h], ...>>).                   *)
EXTENDS ColorSpace, TLC, Json, IOUtils
Jobs == JsonDeserialize(IOEnv.JOBS)
CONSTANT Dir                 \* 0: RGB -> YCbCr, 1: YCbCr -> RGB
VARIABLES j, b, h, bad
Init == j \in 1..Len(Jobs) /\ b = 0 /\ h = 1 /\ bad = FALSE
Next == /\ b < 256
        /\ h' = IF Dir = 0 THEN LineY(Jobs[j].a, b, h) ELSE LineR(Jobs[j].a, b, h)
        /\ b' = b + 1
        /\ j' = j
        /\ bad' = (b' = 256 /\ h' # Jobs[j].h)
        /\ IF bad' THEN PrintT(<<"BAD", j, Jobs[j].a, "digest", "">>) ELSE TRUE
=============================================================================
