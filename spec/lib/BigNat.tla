------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as little-endian tuples of 15-bit limbs without leading zero limbs
   (so every number has exactly one representation and `=` is equality of numbers).  TLC's own
   integers are 32 bits wide, hence the limb size: a limb product plus carries fits.

   Every operator is defined here in TLA+.  /verif/java overrides the expensive ones with
   java.math.BigInteger; MC_BigNat compares the overrides with these definitions. *)
EXTENDS Integers, Sequences, FiniteSets

LB == 15
BASE == 32768

RECURSIVE BNStrip(_)
BNStrip(s) == IF s = <<>> THEN s
              ELSE IF s[Len(s)] = 0 THEN BNStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s

IsBN(s) == /\ \A i \in DOMAIN s : s[i] \in 0..(BASE - 1)
           /\ s # <<>> => s[Len(s)] # 0

BNZero == <<>>
BNOne == <<1>>
BNTwo == <<2>>

RECURSIVE BNOfInt(_)
BNOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BNOfInt(n \div BASE)

(* only for numbers below 2^31 *)
RECURSIVE BNToInt(_)
BNToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + BASE * BNToInt(Tail(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE BNCmpAt(_, _, _)
BNCmpAt(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1 ELSE BNCmpAt(a, b, i - 1)
(* -1, 0, 1 *)
BNCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BNCmpAt(a, b, Len(a))

BNLt(a, b) == BNCmp(a, b) < 0
BNLe(a, b) == BNCmp(a, b) <= 0

RECURSIVE BNAddFrom(_, _, _, _)
BNAddFrom(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN <<s % BASE>> \o BNAddFrom(a, b, i + 1, s \div BASE)
BNAdd(a, b) == BNAddFrom(a, b, 1, 0)

RECURSIVE BNSubFrom(_, _, _, _)
BNSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Limb(b, i) - c
       IN <<IF s < 0 THEN s + BASE ELSE s>> \o BNSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
(* requires b <= a *)
BNSub(a, b) == BNStrip(BNSubFrom(a, b, 1, 0))

RECURSIVE BNMulLimb(_, _, _, _)
BNMulLimb(a, k, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == a[i] * k + c IN <<s % BASE>> \o BNMulLimb(a, k, i + 1, s \div BASE)

RECURSIVE BNMulFrom(_, _, _)
BNMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET low == BNStrip(BNMulLimb(a, b[i], 1, 0))
           high == BNMulFrom(a, b, i + 1)
       IN BNAdd(low, IF high = <<>> THEN <<>> ELSE <<0>> \o high)
BNMul(a, b) == BNMulFrom(a, b, 1)

Pow2Int(k) == 2 ^ k

(* 2^k *)
BNPow2(k) == [i \in 1..((k \div LB) + 1) |-> IF i = (k \div LB) + 1 THEN Pow2Int(k % LB) ELSE 0]
BNShl(a, k) == BNMul(a, BNPow2(k))

LimbBits(x) == IF x = 0 THEN 0 ELSE CHOOSE k \in 1..LB : Pow2Int(k - 1) <= x /\ x < Pow2Int(k)
(* bit length *)
BNBits(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * LB + LimbBits(a[Len(a)])
(* bit number k, from 0 *)
BNBit(a, k) == (Limb(a, (k \div LB) + 1) \div Pow2Int(k % LB)) % 2
BNOdd(a) == BNBit(a, 0) = 1

(* long division, one bit at a time *)
RECURSIVE BNDivFrom(_, _, _)
BNDivFrom(a, b, k) ==
  (* quotient and remainder of floor(a / 2^k) by b *)
  IF k >= BNBits(a) THEN <<<<>>, <<>>>>
  ELSE LET qr == BNDivFrom(a, b, k + 1)
           r2 == BNAdd(BNAdd(qr[2], qr[2]), BNOfInt(BNBit(a, k)))
           q2 == BNAdd(qr[1], qr[1])
       IN IF BNLe(b, r2) THEN <<BNAdd(q2, <<1>>), BNSub(r2, b)>> ELSE <<q2, r2>>
BNDivMod(a, b) == BNDivFrom(a, b, 0)
BNDiv(a, b) == BNDivMod(a, b)[1]
BNMod(a, b) == BNDivMod(a, b)[2]

RECURSIVE BNPowModFrom(_, _, _, _)
BNPowModFrom(a, e, m, k) ==
  IF k = 0 THEN BNMod(<<1>>, m)
  ELSE LET h == BNPowModFrom(a, e, m, k - 1)  (* a^(top k-1 bits of e) *)
           s == BNMod(BNMul(h, h), m)
       IN IF BNBit(e, BNBits(e) - k) = 1 THEN BNMod(BNMul(s, a), m) ELSE s
(* a^e mod m *)
BNPowMod(a, e, m) == BNPowModFrom(BNMod(a, m), e, m, BNBits(e))

RECURSIVE BNGcd(_, _)
BNGcd(a, b) == IF b = <<>> THEN a ELSE BNGcd(b, BNMod(a, b))

(* extended Euclid modulo m: <<g, x>> with x*a = g (mod m) *)
RECURSIVE BNEgcd(_, _, _, _, _)
BNEgcd(r0, x0, r1, x1, m) ==
  IF r1 = <<>> THEN <<r0, x0>>
  ELSE LET qr == BNDivMod(r0, r1)
           t == BNMod(BNMul(qr[1], x1), m)
           x2 == IF BNLe(t, x0) THEN BNSub(x0, t) ELSE BNSub(BNAdd(x0, m), t)
       IN BNEgcd(r1, x1, qr[2], x2, m)
BNUnit(a, m) == BNGcd(BNMod(a, m), m) = <<1>>
(* requires BNUnit(a, m) *)
BNInvMod(a, m) == BNMod(BNEgcd(m, <<>>, BNMod(a, m), <<1>>, m)[2], m)

RECURSIVE BNJacobi(_, _)
BNJacobi(a0, n) ==
  LET a == BNMod(a0, n) IN
  IF a = <<>> THEN IF n = <<1>> THEN 1 ELSE 0
  ELSE IF ~BNOdd(a) THEN LET n8 == BNToInt(BNMod(n, <<8>>))
                         IN (IF n8 \in {1, 7} THEN 1 ELSE -1) * BNJacobi(BNDiv(a, <<2>>), n)
  ELSE LET a4 == BNToInt(BNMod(a, <<4>>))
           n4 == BNToInt(BNMod(n, <<4>>))
       IN IF a = <<1>> THEN 1
          ELSE (IF a4 = 3 /\ n4 = 3 THEN -1 ELSE 1) * BNJacobi(n, a)

(* Primality. The definition is only practical for small numbers; the override is a probabilistic
   test with error below 2^-100. *)
BNIsPrime(n) == /\ BNLt(<<1>>, n)
                /\ \A d \in 2..BNToInt(n) : (BNLe(BNMul(BNOfInt(d), BNOfInt(d)), n)) => BNMod(n, BNOfInt(d)) # <<>>

(* integer square root, rounded down *)
RECURSIVE BNSqrtFrom(_, _)
BNSqrtFrom(n, k) ==
  (* floor(sqrt(floor(n / 4^k))) *)
  IF BNBits(n) <= 2 * k THEN <<>>
  ELSE LET s == BNShl(BNSqrtFrom(n, k + 1), 1)
           t == BNAdd(s, <<1>>)
       IN IF BNLe(BNMul(t, t), BNDiv(n, BNPow2(2 * k))) THEN t ELSE s
BNSqrt(n) == BNSqrtFrom(n, 0)

----------------------------------------------------------------------------
(* Integers: [neg, mag], zero is not negative. *)
Z(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
IsZ(z) == /\ DOMAIN z = {"neg", "mag"}
          /\ IsBN(z.mag)
          /\ z.mag = <<>> => ~z.neg
ZOfNat(a) == Z(FALSE, a)
ZOfInt(n) == IF n < 0 THEN Z(TRUE, BNOfInt(0 - n)) ELSE Z(FALSE, BNOfInt(n))
ZZero == Z(FALSE, <<>>)
ZNeg(z) == Z(~z.neg, z.mag)
ZAdd(a, b) == IF a.neg = b.neg THEN Z(a.neg, BNAdd(a.mag, b.mag))
              ELSE IF BNLe(b.mag, a.mag) THEN Z(a.neg, BNSub(a.mag, b.mag))
              ELSE Z(b.neg, BNSub(b.mag, a.mag))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.neg # b.neg, BNMul(a.mag, b.mag))
ZCmp(a, b) == IF a.neg /\ ~b.neg THEN -1 ELSE IF ~a.neg /\ b.neg THEN 1
              ELSE IF a.neg THEN BNCmp(b.mag, a.mag) ELSE BNCmp(a.mag, b.mag)
ZLe(a, b) == ZCmp(a, b) <= 0
ZLt(a, b) == ZCmp(a, b) < 0
(* residue in 0..m-1 *)
ZMod(a, m) == LET r == BNMod(a.mag, m) IN IF a.neg /\ r # <<>> THEN BNSub(m, r) ELSE r
(* the representative of a residue in the symmetric range -(m-1)/2 .. (m-1)/2 (m odd) *)
ZSym(r, m) == IF BNLe(BNAdd(r, r), m) THEN Z(FALSE, r) ELSE Z(TRUE, BNSub(m, r))
(* a^e mod m for any integer e; if e < 0, a must be a unit *)
ZPowMod(a, e, m) == IF e.neg THEN BNPowMod(BNInvMod(a, m), e.mag, m) ELSE BNPowMod(a, e.mag, m)
MulMod(a, b, m) == BNMod(BNMul(a, b), m)
AddMod(a, b, m) == BNMod(BNAdd(a, b), m)
SubMod(a, b, m) == LET x == BNMod(a, m) y == BNMod(b, m) IN IF BNLe(y, x) THEN BNSub(x, y) ELSE BNSub(BNAdd(x, m), y)

(* Membership in the paper's +-2^e, as this code base defines it: [-2^(e-1)+1, 2^(e-1)] *)
InPM2(z, e) == IF z.neg THEN BNLe(z.mag, BNSub(BNPow2(e - 1), <<1>>)) ELSE BNLe(z.mag, BNPow2(e - 1))
=============================================================================
