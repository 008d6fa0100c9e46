----------------------------- MODULE MC_BigNat -----------------------------
(* Results of every operator that VerifOverrides replaces, on numbers around limb and power-of-two
   boundaries and on scattered ones of up to Bits bits.  The check runs this module with the overrides
   and without them, and compares the two tables: same length, every row equal. *)
EXTENDS Curves, PlanKit
CONSTANTS Rows, Bits, Exps, Points

\* scattered numbers: a small congruential generator over limbs
RECURSIVE Scatter(_, _)
Scatter(x, k) == IF k = 0 THEN <<>>
                 ELSE LET y == (x * 20077 + 12345) % BASE IN <<y>> \o Scatter(y, k - 1)
Scattered(i) == BNMod(BNStrip(Scatter(i * 613 + 17, (Bits \div LB) + 1)), BNPow2(1 + ((i * 37) % Bits)))

Edges == UNION {{BNPow2(k), BNSub(BNPow2(k), BNOne), BNAdd(BNPow2(k), BNOne)} : k \in Exps} \cup {BNZero, BNTwo}
Numbers == Edges \cup {Scattered(i) : i \in 1..Rows}
Small == {BNOfInt(k) : k \in 0..60}

Pair(a, b) ==
  LET m == BNAdd(b, BNOne) IN
  [a |-> a, b |-> b, cmp |-> BNCmp(a, b), add |-> BNAdd(a, b), sub |-> IF BNLe(b, a) THEN BNSub(a, b) ELSE BNSub(b, a),
   mul |-> BNMul(a, b), div |-> BNDivMod(a, m), gcd |-> BNGcd(a, b), pow |-> BNPowMod(a, BNMod(b, BNPow2(10)), m),
   inv |-> IF BNUnit(a, m) /\ m # BNOne THEN BNInvMod(a, m) ELSE BNZero,
   jac |-> BNJacobi(a, IF BNOdd(m) THEN m ELSE BNAdd(m, BNOne))]
Single(a) == [a |-> a, bits |-> BNBits(a), sqrt |-> BNSqrt(a)]
Prime(a) == [a |-> a, prime |-> BNIsPrime(a)]
Power(k) == [k |-> k, pow2 |-> BNPow2(k)]
T(k) == EMulG(Tiny32, k)
Point(a, b) == [a |-> a, b |-> b, mul |-> T(a), add |-> EAdd(Tiny32, T(a), T(b))]
Few == {BNOfInt(k) : k \in Points}

\* laws tying the operators together, so that the definitions are not merely compared with themselves
Laws(a, b) ==
  LET m == BNAdd(b, BNOne)  qr == BNDivMod(a, m)  s == BNSqrt(a) IN
  /\ IsBN(a) /\ IsBN(BNAdd(a, b)) /\ IsBN(BNMul(a, b)) /\ IsBN(qr[1]) /\ IsBN(qr[2])
  /\ BNSub(BNAdd(a, b), b) = a
  /\ BNAdd(BNMul(qr[1], m), qr[2]) = a /\ BNLt(qr[2], m)
  /\ BNLe(BNMul(s, s), a) /\ BNLt(a, BNMul(BNAdd(s, BNOne), BNAdd(s, BNOne)))
  /\ (BNUnit(a, m) /\ m # BNOne) => MulMod(BNInvMod(a, m), a, m) = BNOne
  /\ a # BNZero => BNLe(BNPow2(BNBits(a) - 1), a) /\ BNLt(a, BNPow2(BNBits(a)))

ASSUME \A a, b \in Numbers : Laws(a, b)
ASSUME WritePlan(<<{Pair(a, b) : a, b \in Numbers}, {Single(a) : a \in Numbers \cup Small}, {Prime(a) : a \in Small},
                   {Power(k) : k \in 0..100}, {Point(a, b) : a, b \in Few}>>)
=============================================================================
