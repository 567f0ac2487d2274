----------------------------- MODULE FloatDigest ----------------------------
(* Exhaustive comparison: for every listed first operand, the digest of the    *)
(* specified results over ALL finite non-negative second operands must equal   *)
(* the digest of the results the code produced (JOBS: <<[a, h], ...>>).        *)
EXTENDS HalfFloat, TLC, Json, IOUtils
Jobs == JsonDeserialize(IOEnv.JOBS)
CONSTANT Op
Block == 992                 \* 32 blocks of 992 = 31744 = all finite values
VARIABLES j, b, h, bad
Init == j \in 1..Len(Jobs) /\ b = 0 /\ h = 1 /\ bad = FALSE
Next == /\ b < 32
        /\ h' = DigestOp(Op, Jobs[j].a, b * Block, Block, h)
        /\ b' = b + 1
        /\ j' = j
        /\ bad' = (b' = 32 /\ h' # Jobs[j].h)
        /\ IF bad' THEN PrintT(<<"BAD", j, Jobs[j].a, "digest", "">>) ELSE TRUE
=============================================================================
