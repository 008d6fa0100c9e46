-------------------------------- MODULE ZkSpec --------------------------------
(* Acceptance of every zero-knowledge proof: the equations and range conditions of the paper (with
   this code base's documented deviations) for a given challenge, plus "the challenge in the proof
   is the one the transcript gives".

   Points are written by their discrete logarithms (all the points of a case are made from
   scalars), so g^k is k and point equations are equations modulo the group order.
   A case c has
     params          "test", "p112"
     n0, n1          Paillier moduli,   hn, ht, hs  ring-Pedersen parameters
     u               the other public inputs
     h               the challenge the hash gives
     f               the proof                                                              *)
EXTENDS PaillierSpec, Curves, TLC

\* the paper's parameters (Appendix C.1)
Kappa(ps) == QBits(CurveOf(ps))
Ell(ps) == Kappa(ps)
EllP(ps) == PrimeBits(ps) + Ell(ps)
Eps(ps) == PrimeBits(ps) - 2 * Ell(ps)
Reps(ps) == IF ps = "test" THEN 16 ELSE 112           \* m, the number of elements of mod and prm proofs
IntBits(ps) == 2 * PrimeBits(ps)
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)

Q(c) == CurveOf(c.params).q
\* arithmetic of dlogs; z integers, a, b residues
SZ(c, z) == ZMod(z, Q(c))
Pls(c, a, b) == AddMod(a, b, Q(c))
Mns(c, a, b) == SubMod(a, b, Q(c))
Tms(c, a, b) == MulMod(a, b, Q(c))

N2(n) == BNMul(n, n)
EncP(n, z, r) == Enc(n, z, r)
\* (no inverse: the `units` conditions below fail as well)
Pow(x, z, m) == IF z.neg /\ ~BNUnit(x, m) THEN BNZero ELSE ZPowMod(x, z, m)
\* s^a t^b
Com(c, a, b) == MulMod(Pow(c.hs, a, c.hn), Pow(c.ht, b, c.hn), c.hn)
CMul(n, a, b) == MulMod(a, b, N2(n))
HMulM(c, a, b) == MulMod(a, b, c.hn)

----------------------------------------------------------------------------
(* Each verifier is a set of named conditions; the proof is accepted iff all hold. *)
EncElgConds(c) ==
  LET f == c.f  u == c.u  e == c.h  eZ == ZOfNat(e) IN
  [chal |-> f.e = e,
   range |-> InPM2(f.z1, Ell(c.params) + Eps(c.params)),
   enc |-> EncP(c.n0, f.z1, f.z2) = CMul(c.n0, f.D, Pow(u.C, eZ, N2(c.n0))),
   point |-> Pls(c, Tms(c, u.a, f.w), SZ(c, f.z1)) = Pls(c, f.Y, Tms(c, u.x, e)),
   b |-> f.w = Pls(c, f.Z, Tms(c, u.b, e)),
   com |-> Com(c, f.z1, f.z3) = HMulM(c, f.T, Pow(f.S, eZ, c.hn))]

AffGConds(c) ==
  LET f == c.f  u == c.u  e == c.h  eZ == ZOfNat(e) IN
  [chal |-> f.e = e,
   range1 |-> InPM2(f.z1, Ell(c.params) + Eps(c.params)),
   range2 |-> InPM2(f.z2, EllP(c.params) + Eps(c.params)),
   units |-> BNUnit(u.C, c.n0) /\ BNUnit(u.Y, c.n1),
   aff |-> CMul(c.n0, Pow(u.C, f.z1, N2(c.n0)), EncP(c.n0, f.z2, f.w)) = CMul(c.n0, f.A, Pow(u.D, eZ, N2(c.n0))),
   point |-> SZ(c, f.z1) = Pls(c, f.Bx, Tms(c, u.x, e)),
   enc |-> EncP(c.n1, f.z2, f.wy) = CMul(c.n1, f.By, Pow(u.Y, ZNeg(eZ), N2(c.n1))),
   com1 |-> Com(c, f.z1, f.z3) = HMulM(c, f.E, Pow(f.S, eZ, c.hn)),
   com2 |-> Com(c, f.z2, f.z4) = HMulM(c, f.F, Pow(f.T, eZ, c.hn))]

FacConds(c) ==
  LET f == c.f  e == c.h
      R == Pow(c.hs, ZOfNat(c.n0), c.hn)
      b == Ell(c.params) + Eps(c.params) + PrimeBits(c.params) - 2 IN
  [chal |-> f.e = e,
   range1 |-> InPM2(f.z1, b),
   range2 |-> InPM2(f.z2, b),
   units |-> BNUnit(f.P, c.hn) /\ BNUnit(f.Q, c.hn),
   com1 |-> Com(c, f.z1, f.w1) = HMulM(c, f.A, Pow(f.P, e, c.hn)),
   com2 |-> Com(c, f.z2, f.w2) = HMulM(c, f.B, Pow(f.Q, e, c.hn)),
   prod |-> HMulM(c, Pow(f.Q, f.z1, c.hn), Pow(c.ht, f.v, c.hn)) = HMulM(c, f.T, Pow(R, e, c.hn))]

\* batched proofs: e and h are sequences of bits, f.c and f.z sequences of commitments and responses
Bit(b) == ZOfNat(IF b THEN BNOne ELSE BNZero)
Batch(c, Elem(_, _, _)) ==
  [chal |-> c.f.e = c.h,
   length |-> Len(c.h) = Kappa(c.params) /\ Len(c.f.c) = Len(c.h) /\ Len(c.f.z) = Len(c.h),
   elems |-> \A j \in 1..Len(c.h) : j <= Len(c.f.c) /\ j <= Len(c.f.z) => Elem(c.h[j], c.f.c[j], c.f.z[j])]

AffGStarConds(c) ==
  LET u == c.u
      Elem(e, k, z) ==
        /\ InPM2(z.z, Ell(c.params) + Eps(c.params))
        /\ InPM2(z.zp, EllP(c.params) + Eps(c.params))
        /\ CMul(c.n0, Pow(u.C, z.z, N2(c.n0)), EncP(c.n0, z.zp, z.w)) = CMul(c.n0, k.A, Pow(u.D, Bit(e), N2(c.n0)))
        /\ SZ(c, z.z) = Pls(c, k.R, IF e THEN u.x ELSE BNZero)
        /\ EncP(c.n1, z.zp, z.l) = CMul(c.n1, k.B, Pow(u.Y, ZNeg(Bit(e)), N2(c.n1)))
  IN Batch(c, Elem) @@ [units |-> BNUnit(u.C, c.n0) /\ BNUnit(u.Y, c.n1)]

DecConds(c) ==
  LET u == c.u
      wb == EllP(c.params) + Eps(c.params) + 1 + CeilLog2(u.parties) + Eps(c.params)
      Elem(e, k, z) ==
        /\ InPM2(z.z, Ell(c.params) + Eps(c.params))
        /\ InPM2(z.w, wb)
        /\ CMul(c.n0, EncP(c.n0, z.w, z.nu), Pow(u.K, ZNeg(z.z), N2(c.n0))) = CMul(c.n0, k.A, Pow(u.D, Bit(e), N2(c.n0)))
        /\ SZ(c, z.z) = Pls(c, k.C, IF e THEN u.x ELSE BNZero)
        /\ Tms(c, u.g, SZ(c, z.w)) = Pls(c, k.B, IF e THEN u.s ELSE BNZero)
  IN Batch(c, Elem) @@ [units |-> BNUnit(u.K, c.n0)]

ElogConds(c) ==
  LET f == c.f  u == c.u  e == c.h IN
  [chal |-> f.e = e,
   l |-> f.z = Pls(c, f.A, Tms(c, u.l, e)),
   m |-> Pls(c, f.u, Tms(c, u.x, f.z)) = Pls(c, f.N, Tms(c, u.m, e)),
   y |-> Tms(c, u.h, f.u) = Pls(c, f.B, Tms(c, u.y, e))]

SchConds(c) ==
  LET f == c.f  u == c.u  e == c.h IN
  [chal |-> f.e = e, eq |-> f.p = Pls(c, u.k, Tms(c, u.x, e))]

PrmConds(c) ==
  LET f == c.f  m == Reps(c.params) IN
  [chal |-> f.e = c.h,
   length |-> Len(c.h) = m /\ Len(f.a) = m /\ Len(f.z) = m,
   units |-> BNUnit(c.ht, c.hn) /\ BNUnit(c.hs, c.hn),
   elems |-> \A j \in 1..m : j <= Len(f.a) /\ j <= Len(f.z) =>
      BNPowMod(c.ht, f.z[j], c.hn) = HMulM(c, f.a[j], IF c.h[j] THEN c.hs ELSE BNOne)]

ModConds(c) ==
  LET f == c.f  m == Reps(c.params)  n == c.n0 IN
  [chal |-> f.y = c.h,
   length |-> Len(f.y) = m /\ Len(f.e) = m,
   modulus |-> BNOdd(n) /\ ~BNIsPrime(n) /\ BNLt(BNOne, n),
   w |-> BNUnit(f.w, n),
   elems |-> \A j \in 1..m : j <= Len(f.y) /\ j <= Len(f.e) =>
      LET k == f.e[j]
          y1 == IF k.a THEN SubMod(BNZero, f.y[j], n) ELSE BNMod(f.y[j], n)
          y2 == IF k.b THEN MulMod(f.w, y1, n) ELSE y1
      IN /\ BNUnit(f.y[j], n)
         /\ BNPowMod(k.z, n, n) = BNMod(f.y[j], n)
         /\ BNPowMod(k.x, <<4>>, n) = y2]

Conds(c) == CASE c.op = "encelg" -> EncElgConds(c)
              [] c.op = "affg" -> AffGConds(c)
              [] c.op = "fac" -> FacConds(c)
              [] c.op = "affgstar" -> AffGStarConds(c)
              [] c.op = "dec" -> DecConds(c)
              [] c.op = "elog" -> ElogConds(c)
              [] c.op = "sch" -> SchConds(c)
              [] c.op = "prm" -> PrmConds(c)
              [] c.op = "mod" -> ModConds(c)
\* the conditions a case fails
Fails(c) == LET k == Conds(c) IN {x \in DOMAIN k : ~k[x]}
Accepts(c) == Fails(c) = {}
=============================================================================
