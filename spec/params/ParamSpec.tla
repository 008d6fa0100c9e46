------------------------------ MODULE ParamSpec ------------------------------
(* What a set of parameters must satisfy.  A set c has sb (m: bits of security), kappa, ell, ellp, eps,
   prime, modulus (bits), half, uint, wide, xwide (bits of the integer types), order (the group order,
   exact).  Lengths are bits. *)
EXTENDS Curves, Integers

Parties == 20                      \* log2 of the largest number of parties
\* Appendix C.1 of the paper, and the ranges of the batched decryption proof and of the factoring proof
Inequalities(c) ==
  /\ c.kappa = BNBits(c.order)
  /\ c.ell >= c.kappa
  /\ c.eps >= c.ell + c.kappa
  /\ c.ellp >= 3 * c.ell + c.eps
  /\ c.modulus >= c.ellp + c.eps + 1 + Parties
  /\ c.modulus = 2 * c.prime
\* (in the paper: approximately)
Balanced(c) == 2 * c.ell + c.eps = c.prime

\* the largest values that occur, against the signed words they are kept in: 2^(w-1) is the limit
Most(w) == BNSub(BNPow2(w - 1), BNOne)
Half(e) == BNPow2(e - 1)           \* the largest value of "+-2^e"
Ceil(n) == BNPow2(n)
\* masks and responses: |e| < order, |witness| <= 2^(ell-1) or 2^(ellp-1), moduli < 2^modulus
Small(c) == BNAdd(Half(c.ell + c.eps), BNMul(c.order, Half(c.ell)))
Large(c) == BNAdd(Half(c.ellp + c.eps), BNMul(c.order, Half(c.ellp)))
\* the sum of masks that the decryption proof is about, and its response (one-bit challenges)
Dec(c) == Half(c.ellp + c.eps + 1 + Parties)
DecZ(c) == BNAdd(Half(c.ellp + c.eps + 1 + Parties + c.eps), Dec(c))
Blind(c, k) == BNAdd(BNMul(Half(k + c.eps), Ceil(c.modulus)), BNMul(c.order, BNMul(Half(k), Ceil(c.modulus))))
Fac(c) == BNAdd(BNMul(Half(c.ell + c.eps), Ceil(2 * c.modulus)), BNMul(c.order, BNMul(BNMul(Half(c.ell), Ceil(c.modulus)), Ceil(c.prime))))
FacMid(c) == BNAdd(BNMul(Half(c.ell + c.eps), Ceil(c.prime)), BNMul(c.order, Ceil(c.prime)))
Fits(c) ==
  /\ c.prime <= c.half /\ c.modulus <= c.uint /\ 2 * c.modulus <= c.wide
  /\ \A v \in {Small(c), Large(c), FacMid(c), c.order} : BNLe(v, Most(c.uint))
  /\ \A v \in {Blind(c, c.ell), DecZ(c), Ceil(c.modulus)} : BNLe(v, Most(c.wide))
  /\ BNLe(BNAdd(Fac(c), BNOne), Most(c.xwide))
\* plaintexts do not wrap around: ciphertexts of x * c + y stay within half the modulus
NoWrap(c) == BNLt(BNAdd(BNMul(Half(c.ell), Half(c.ell)), Half(c.ellp)), Half(c.modulus - 1))
             /\ BNLt(Large(c), Half(c.modulus - 1)) /\ BNLt(Dec(c), Half(c.modulus - 1))

\* security levels: sizes of moduli (NIST SP 800-57) and of groups
RSA(m) == IF m <= 80 THEN 1024 ELSE IF m <= 112 THEN 2048 ELSE IF m <= 128 THEN 3072 ELSE IF m <= 192 THEN 7680 ELSE 15360
Level(c) == /\ c.modulus >= RSA(c.sb)
            /\ BNBits(c.order) >= 2 * c.sb
            /\ c.hash >= 2 * c.sb
\* the development set is scaled down and claims nothing about its modulus
DevLevel(c) == BNBits(c.order) >= 2 * c.sb /\ c.hash >= 2 * c.sb

Sound(c) == Inequalities(c) /\ Fits(c) /\ NoWrap(c)
=============================================================================
