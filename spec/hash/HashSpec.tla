------------------------------ MODULE HashSpec ------------------------------
(* Transcripts: what is hashed is a sequence of items behind a domain label, and the hash input
   is a function of that sequence which is one-to-one.  Values drawn from the extendable output. *)
EXTENDS BigNat, FiniteSetsExt

\* A byte string is a sequence of runs <<byte, length>>.
RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN s
           ELSE IF Head(s)[2] = 0 THEN Norm(Tail(s))
           ELSE LET t == Norm(Tail(s)) IN
                IF t # <<>> /\ t[1][1] = Head(s)[1] THEN <<<<Head(s)[1], Head(s)[2] + t[1][2]>>>> \o Tail(t)
                ELSE <<Head(s)>> \o t
RunLen(s) == LET RECURSIVE L(_)
                 L(k) == IF k = 0 THEN 0 ELSE s[k][2] + L(k - 1) IN L(Len(s))

\* big-endian number of a sequence of bytes
RECURSIVE BE(_)
BE(s) == IF s = <<>> THEN BNZero
         ELSE BNAdd(BNMul(BE(SubSeq(s, 1, Len(s) - 1)), BNOfInt(256)), BNOfInt(s[Len(s)]))
CeilDiv(a, b) == (a + b - 1) \div b

\* what is drawn from the stream
DrawUint(s, bits) == BNMod(BE(SubSeq(s, 1, CeilDiv(bits, 8))), BNPow2(bits))
DrawSigned(s, e) == ZSub(ZOfNat(DrawUint(s, e)), ZOfNat(BNSub(BNPow2(e - 1), BNOne)))
\* w bytes, twice; the first half is the lower one
DrawScalar(s, w, q) == BNMod(BNAdd(BE(SubSeq(s, 1, w)), BNMul(BE(SubSeq(s, w + 1, 2 * w)), BNPow2(8 * w))), q)
BitOf(byte, k) == (byte \div (2 ^ (7 - k))) % 2 = 1
DrawBits(s, n) == [k \in 1..n |-> BitOf(s[CeilDiv(k, 8)], (k - 1) % 8)]
\* The shorter vector counts as padded with zeros.
BitAt(a, k) == k \in 1..Len(a) /\ a[k]
Xor(a, b) == [k \in 1..(IF Len(a) < Len(b) THEN Len(b) ELSE Len(a)) |-> BitAt(a, k) # BitAt(b, k)]
HashLen(bits) == CeilDiv(2 * bits, 8)
=============================================================================
