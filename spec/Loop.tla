-------------------------------- MODULE Loop --------------------------------
(* The whole system: a picture in memory is displayed by the output, carried   *)
(* bit by bit over a link, and captured into memory by the receiver.           *)
(* Pixels come from the memory words by the output's rules (VideoOut), words   *)
(* are written by the receiver's rules (Capture); nothing in between shows.    *)
EXTENDS Bits
VO == INSTANCE VideoOut
CA == INSTANCE Capture

NoFinal(s, hdr) == ""
B(x) == IF x THEN 1 ELSE 0

\* hdr: p, mode, mul, mod, ... of the output; imode, k of the receiver; row = <<first address, addresses, words>>
Picture(hdr) == [k \in 1..(hdr.p[1] * hdr.p[5]) |-> VO!Pixel(hdr, k - 1)]
Frame(row, hdr) == CA!RcvFrame(<<Picture(hdr), row[1], row[2], row[3]>>, [mode |-> hdr.imode, k |-> hdr.k])
\* what the software reads: row = <<hres, vres, lock status, synchronised channels>>
Status(row, hdr) == IF row[3] # 1 THEN "locked"
                    ELSE IF row[4] # <<1, 1, 1>> THEN "character_sync"
                    ELSE IF row[5] # 1 THEN "channel_sync"
                    ELSE CA!ResRow(<<hdr.p[1], hdr.p[5], row[1], row[2]>>, hdr)
=============================================================================
