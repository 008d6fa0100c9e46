------------------------------- MODULE Hashes -------------------------------
(* Byte strings (sequences of 0..255), and standard hash functions on them.  The hash functions have
   no definition here; TLC takes them from the Java library (VerifOverrides). *)
EXTENDS BigNat

RECURSIVE BytesToNat(_)
BytesToNat(s) == IF s = <<>> THEN BNZero
                 ELSE BNAdd(BNMul(BytesToNat(SubSeq(s, 1, Len(s) - 1)), BNOfInt(256)), BNOfInt(s[Len(s)]))
ByteOf(x) == IF x = BNZero THEN 0 ELSE x[1]
\* big-endian, n bytes
RECURSIVE NatToBytes(_, _)
NatToBytes(x, n) == IF n = 0 THEN <<>>
                    ELSE Append(NatToBytes(BNDiv(x, BNOfInt(256)), n - 1), ByteOf(BNMod(x, BNOfInt(256))))
Zeros(n) == [k \in 1..n |-> 0]

SHA256(s) == CHOOSE h \in Seq(0..255) : FALSE
HMACSHA512(key, s) == CHOOSE h \in Seq(0..255) : FALSE
=============================================================================
