----------------------------- MODULE Raster_MC ------------------------------
(* The raster of the specification for every small parameter set: a frame has  *)
(* hres x vres pixels, (hscan + 1) x (vscan + 1) ticks, one sync pulse per     *)
(* line and one per frame, of the programmed lengths, outside the picture.     *)
EXTENDS VideoOut, TLC
CONSTANTS MaxH, MaxV
VARIABLES p, x, n, de, hs, vs, edges, old
vars == <<p, x, n, de, hs, vs, edges, old>>
Porch(m) == {q \in (1..m) \X (1..m) \X (1..m) \X (1..m) : q[1] <= q[2] /\ q[2] < q[3] /\ q[3] <= q[4]}
Init == /\ \E a \in Porch(MaxH), b \in Porch(MaxV) : p = a \o b
        /\ x = <<0, 0>> /\ n = 0 /\ de = 0 /\ hs = 0 /\ vs = 0 /\ edges = <<0, 0>> /\ old = <<0, 0>>
Next == /\ n <= (p[4] + 1) * (p[8] + 1)
        /\ LET g == Sig(p, x)
               last == IsLast(p, x)
           IN /\ ~(n > 0 /\ x = <<0, 0>>)
              /\ x' = NextPos(p, x) /\ n' = n + 1
              /\ de' = de + g[1] /\ hs' = hs + g[2] /\ vs' = vs + g[3]
              /\ edges' = <<edges[1] + B(g[2] = 1 /\ old[1] = 0), edges[2] + B(g[3] = 1 /\ old[2] = 0)>>
              /\ old' = <<g[2], g[3]>>
        /\ UNCHANGED p
Apart == ~(De(p, x) /\ (Hs(p, x) \/ Vs(p, x)))
Frame == n > 0 /\ x = <<0, 0>> =>
           /\ n = (p[4] + 1) * (p[8] + 1)
           /\ de = p[1] * p[5]
           /\ hs = (p[3] - p[2]) * (p[8] + 1) /\ vs = (p[7] - p[6]) * (p[4] + 1)
           /\ edges = <<p[8] + 1, 1>>
=============================================================================
