------------------------------- MODULE Curve -------------------------------
(* Short Weierstrass curves y^2 = x^3 + ax + b over GF(p), with a generator of prime order q.
   A curve is [p, a, b, gx, gy, q]; a point is [inf, x, y] (x = y = 0 for the identity). *)
EXTENDS BigNat

Inf == [inf |-> TRUE, x |-> <<>>, y |-> <<>>]
Pt(x, y) == [inf |-> FALSE, x |-> x, y |-> y]
Gen(C) == Pt(C.gx, C.gy)

OnCurve(C, P) ==
  P.inf \/ /\ BNLt(P.x, C.p) /\ BNLt(P.y, C.p)
           /\ MulMod(P.y, P.y, C.p) =
              AddMod(AddMod(MulMod(MulMod(P.x, P.x, C.p), P.x, C.p), MulMod(C.a, P.x, C.p), C.p), C.b, C.p)

ENeg(C, P) == IF P.inf THEN P ELSE Pt(P.x, BNMod(BNSub(C.p, P.y), C.p))

EAdd(C, P, Q) ==
  IF P.inf THEN Q ELSE IF Q.inf THEN P
  ELSE IF P.x = Q.x /\ AddMod(P.y, Q.y, C.p) = <<>> THEN Inf
  ELSE LET l == IF P = Q
                THEN MulMod(AddMod(MulMod(<<3>>, MulMod(P.x, P.x, C.p), C.p), C.a, C.p),
                            BNInvMod(AddMod(P.y, P.y, C.p), C.p), C.p)
                ELSE MulMod(SubMod(Q.y, P.y, C.p), BNInvMod(SubMod(Q.x, P.x, C.p), C.p), C.p)
           x == SubMod(SubMod(MulMod(l, l, C.p), P.x, C.p), Q.x, C.p)
       IN Pt(x, SubMod(MulMod(l, SubMod(P.x, x, C.p), C.p), P.y, C.p))

RECURSIVE EMulFrom(_, _, _, _)
EMulFrom(C, P, k, n) ==
  IF n = 0 THEN Inf
  ELSE LET h == EMulFrom(C, P, k, n - 1)
           d == EAdd(C, h, h)
       IN IF BNBit(k, BNBits(k) - n) = 1 THEN EAdd(C, d, P) ELSE d
(* k * P for a natural k *)
EMul(C, P, k) == EMulFrom(C, P, k, BNBits(k))

ESub(C, P, Q) == EAdd(C, P, ENeg(C, Q))
EMulG(C, k) == EMul(C, Gen(C), k)
RECURSIVE ESumSeq(_, _)
ESumSeq(C, s) == IF s = <<>> THEN Inf ELSE EAdd(C, Head(s), ESumSeq(C, Tail(s)))

(* Scalars are residues modulo q *)
SAdd(C, a, b) == AddMod(a, b, C.q)
SSub(C, a, b) == SubMod(a, b, C.q)
SMul(C, a, b) == MulMod(a, b, C.q)
SNeg(C, a) == BNMod(BNSub(C.q, a), C.q)
SInv(C, a) == BNInvMod(a, C.q)
RECURSIVE SSumSeq(_, _)
SSumSeq(C, s) == IF s = <<>> THEN <<>> ELSE SAdd(C, Head(s), SSumSeq(C, Tail(s)))

----------------------------------------------------------------------------
(* ECDSA on a prehashed message (a residue modulo q) *)
ECDSAValid(C, X, m, r, s) ==
  /\ r # <<>> /\ s # <<>> /\ BNLt(r, C.q) /\ BNLt(s, C.q)
  /\ LET w == SInv(C, s)
         R == EAdd(C, EMulG(C, SMul(C, m, w)), EMul(C, X, SMul(C, r, w)))
     IN ~R.inf /\ BNMod(R.x, C.q) = r
LowS(C, s) == BNLe(s, BNDiv(C.q, <<2>>))
(* The public key recovered from a signature and the recovery id 0..3: bit 0 is the parity of the
   y-coordinate of R, bit 1 whether its x-coordinate was reduced.  Square roots: the nonce point is
   passed in, and checked to fit. *)
RecoveryFits(C, X, m, r, s, rec, R) ==
  /\ OnCurve(C, R) /\ ~R.inf
  /\ R.x = (IF rec >= 2 THEN BNAdd(r, C.q) ELSE r)
  /\ BNOdd(R.y) <=> rec % 2 = 1
  /\ X = EMul(C, ESub(C, EMul(C, R, s), EMulG(C, m)), SInv(C, r))
=============================================================================
