------------------------------ MODULE HonestSpec ------------------------------
(* Honest proofs: they verify (also after transport), and their responses hide the witness behind
   masks from the whole prescribed range.

   A case c has the primes of two Paillier keys (p0, q0, p1, q1), ring-Pedersen parameters
   (hn, ht, hs) and the witness w; c.res the outcome: accept, bin, hr, and, if c.hide, the
   responses t[1], t[2] given to two challenges with the same prover randomness.  Two such answers
   determine the witness and every mask, as in the soundness argument of the proof. *)
EXTENDS ZkSpec, SequencesExt

Complete13(c) == ~c.panic /\ c.res.accept /\ c.res.bin /\ c.res.hr

\* integers drawn from +-2^b times s
Scaled(b, s) == [hi |-> BNMul(BNPow2(b - 1), s)]
InScaled(z, r) == IF z.neg THEN BNLt(z.mag, r.hi) ELSE BNLe(z.mag, r.hi)
Plain2(b) == Scaled(b, BNOne)

N0(c) == BNMul(c.p0, c.q0)
N1(c) == BNMul(c.p1, c.q1)
\* exact division of integers, with a remainder of 0 expected
ZDivExact(a, b) == Z(a.neg # b.neg, BNDiv(a.mag, b.mag))
Divides(b, a) == BNMod(a.mag, b.mag) = BNZero

\* the challenge as a signed integer
Chal(c, t) == IF c.op = "fac" THEN t.e ELSE ZOfNat(t.e)
Bits(b) == IF b THEN ZOfInt(1) ELSE ZZero

\* z = mask + e * secret, for a known secret
Unmask(t, e, z, secret) == ZSub(z, ZMul(e, secret))
\* the secret, from two answers
Extract(t1, t2, e1, e2, k) == ZDivExact(ZSub(t1[k], t2[k]), ZSub(e1, e2))
Extractable(t1, t2, e1, e2, k) == Divides(ZSub(e1, e2), ZSub(t1[k], t2[k]))

M(v, r) == [v |-> v, r |-> r]
\* randomizer behind z = r * rho^e mod n
UnRho(z, rho, e, n) == MulMod(z, ZPowMod(rho, ZNeg(e), n), n)

L(c) == Ell(c.params)
LE(c) == Ell(c.params) + Eps(c.params)
LPE(c) == EllP(c.params) + Eps(c.params)

\* integer masks by name, and the ranges they come from; i = 1, 2 says which answer they are from
\* (both must give the same)
Masks(c, i) ==
  LET t == c.res.t[i]  t1 == c.res.t[1]  t2 == c.res.t[2]
      e == Chal(c, t)  e1 == Chal(c, t1)  e2 == Chal(c, t2)
      Ex(k) == Extract(t1, t2, e1, e2, k)
  IN
  CASE c.op = "encelg" ->
         [alpha |-> M(Unmask(t, e, t.z1, c.w.x), Plain2(LE(c))),
          mu |-> M(Ex("z3"), Scaled(L(c), c.hn)),
          gamma |-> M(Unmask(t, e, t.z3, Ex("z3")), Scaled(LE(c), c.hn))]
    [] c.op = "affg" ->
         [alpha |-> M(Unmask(t, e, t.z1, c.w.x), Plain2(LE(c))),
          beta |-> M(Unmask(t, e, t.z2, ZNeg(c.w.y)), Plain2(LPE(c))),
          m |-> M(Ex("z3"), Scaled(L(c), c.hn)),
          gamma |-> M(Unmask(t, e, t.z3, Ex("z3")), Scaled(LE(c), c.hn)),
          mu |-> M(Ex("z4"), Scaled(L(c), c.hn)),
          delta |-> M(Unmask(t, e, t.z4, Ex("z4")), Scaled(LE(c), c.hn))]
    [] c.op = "fac" ->
         LET b == LE(c) + PrimeBits(c.params) - 2
             p == ZOfNat(c.p0)  q == ZOfNat(c.q0) IN
         [alpha |-> M(Unmask(t, e, t.z1, p), Plain2(b)),
          beta |-> M(Unmask(t, e, t.z2, q), Plain2(b)),
          mu |-> M(Ex("w1"), Scaled(L(c), c.hn)),
          x |-> M(Unmask(t, e, t.w1, Ex("w1")), Scaled(LE(c), c.hn)),
          nu |-> M(Ex("w2"), Scaled(L(c), c.hn)),
          y |-> M(Unmask(t, e, t.w2, Ex("w2")), Scaled(LE(c), c.hn)),
          \* v = r - e nu p
          r |-> M(ZAdd(t.v, ZMul(e, ZMul(p, Ex("w2")))), Scaled(LE(c), BNMul(N0(c), c.hn)))]
    [] OTHER -> [none |-> M(ZOfInt(1), Plain2(2))]

\* ... and of the batched proofs, one record for every element
ElemMasks(c, i) ==
  LET t == c.res.t[i] IN
  CASE c.op = "affgstar" ->
         [j \in 1..Len(t.z) |->
           [alpha |-> M(Unmask(t, Bits(t.e[j]), t.z[j].z, c.w.x), Plain2(LE(c))),
            beta |-> M(Unmask(t, Bits(t.e[j]), t.z[j].zp, ZNeg(c.w.y)), Plain2(LPE(c)))]]
    [] c.op = "dec" ->
         [j \in 1..Len(t.z) |->
           [alpha |-> M(Unmask(t, Bits(t.e[j]), t.z[j].z, c.w.x), Plain2(LE(c))),
            beta |-> M(Unmask(t, Bits(t.e[j]), t.z[j].w, c.w.y), Plain2(LPE(c) + 1 + CeilLog2(c.w.parties) + Eps(c.params)))]]
    [] OTHER -> <<>>

\* elements of residue rings: [v, n]
Resid(c, i) ==
  LET t == c.res.t[i] IN
  CASE c.op = "encelg" -> <<[v |-> UnRho(t.z2, c.w.rho, Chal(c, t), N0(c)), n |-> N0(c)],
                            [v |-> SubMod(t.w, MulMod(t.e, c.w.b, Q(c)), Q(c)), n |-> Q(c)]>>
    [] c.op = "affg" -> <<[v |-> UnRho(t.w, c.w.rho, Chal(c, t), N0(c)), n |-> N0(c)],
                          [v |-> UnRho(t.wy, c.w.rhoy, ZNeg(Chal(c, t)), N1(c)), n |-> N1(c)]>>
    [] c.op = "affgstar" -> [j \in 1..(2 * Len(t.z)) |->
           LET k == (j + 1) \div 2 IN
           IF j % 2 = 1 THEN [v |-> UnRho(t.z[k].w, c.w.rho, Bits(t.e[k]), N0(c)), n |-> N0(c)]
           ELSE [v |-> UnRho(t.z[k].l, c.w.rhoy, ZNeg(Bits(t.e[k])), N1(c)), n |-> N1(c)]]
    [] c.op = "dec" -> [j \in 1..Len(t.z) |-> [v |-> UnRho(t.z[j].nu, c.w.rho, Bits(t.e[j]), N0(c)), n |-> N0(c)]]
    [] c.op = "elog" -> <<[v |-> SubMod(t.z, MulMod(t.e, c.w.b, Q(c)), Q(c)), n |-> Q(c)],
                          [v |-> SubMod(t.u, MulMod(t.e, c.w.x, Q(c)), Q(c)), n |-> Q(c)]>>
    [] c.op = "sch" -> <<[v |-> SubMod(t.p, MulMod(t.e, c.w.x, Q(c)), Q(c)), n |-> Q(c)]>>
    [] c.op = "prm" -> [j \in 1..Len(t.z) |->
           [v |-> IF t.e[j] THEN SubMod(t.z[j], c.res.lambda, c.res.phi) ELSE t.z[j], n |-> c.res.phi]]
    [] c.op = "mod" -> <<[v |-> t.w, n |-> N0(c)]>>
    [] OTHER -> <<>>

\* the mask values as a sequence
Values(m) == LET s == SetToSeq(DOMAIN m) IN [k \in 1..Len(s) |-> m[s[k]].v]
\* both answers show the same masks, and all are in range
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
Hiding(c) ==
  LET m1 == Masks(c, 1)  m2 == Masks(c, 2)
      l1 == ElemMasks(c, 1)  l2 == ElemMasks(c, 2)
      r1 == Resid(c, 1)  r2 == Resid(c, 2)
      e1 == Chal(c, c.res.t[1])  e2 == Chal(c, c.res.t[2])
      keys == CASE c.op = "encelg" -> {"z3"} [] c.op = "affg" -> {"z3", "z4"} [] c.op = "fac" -> {"w1", "w2"} [] OTHER -> {}
  IN
  /\ c.op \notin {"mod", "sch"} => c.res.t[1].e # c.res.t[2].e
  /\ \A k \in keys : Extractable(c.res.t[1], c.res.t[2], e1, e2, k)
  /\ m1 = m2 /\ l1 = l2 /\ r1 = r2
  /\ \A k \in DOMAIN m1 : InScaled(m1[k].v, m1[k].r)
  /\ \A j \in 1..Len(l1) : \A k \in DOMAIN l1[j] : InScaled(l1[j][k].v, l1[j][k].r)
  /\ \A j \in 1..Len(r1) : BNLt(r1[j].v, r1[j].n)
  \* no mask is used twice within a proof, and none is trivial
  /\ Distinct(Values(m1))
  /\ Distinct([j \in 1..Len(l1) |-> l1[j].alpha.v]) /\ Distinct([j \in 1..Len(l1) |-> l1[j].beta.v])
  /\ Distinct([j \in 1..Len(r1) |-> r1[j].v])
  /\ \A j \in 1..Len(r1) : BNLt(BNOne, r1[j].v)
  /\ c.op \in {"encelg", "affg", "affgstar", "dec"} => \A j \in 1..Len(r1) : BNUnit(r1[j].v, r1[j].n)
  \* the commitment of the modulus proof is a non-square with Jacobi symbol -1
  /\ c.op = "mod" => BNJacobi(r1[1].v, c.p0) * BNJacobi(r1[1].v, c.q0) = -1

----------------------------------------------------------------------------
(* Over a whole trace: every mask reaches the outer half of its range on both sides. *)
Named(c) == {<<c.op, k>> : k \in DOMAIN Masks(c, 1) \ {"none"}}
Samples(c) ==
  LET m == Masks(c, 1)  l == ElemMasks(c, 1) IN
  {<<c.op, c.params, k, m[k]>> : k \in DOMAIN m \ {"none"}} \cup
  UNION {{<<c.op, c.params, k, l[j][k]>> : k \in DOMAIN l[j]} : j \in 1..Len(l)}
Outer(m) == BNLe(m.r.hi, BNMul(BNTwo, m.v.mag))
Covered(S) == \A x \in {<<s[1], s[2], s[3]>> : s \in S} :
  /\ \E s \in S : <<s[1], s[2], s[3]>> = x /\ Outer(s[4]) /\ s[4].v.neg
  /\ \E s \in S : <<s[1], s[2], s[3]>> = x /\ Outer(s[4]) /\ ~s[4].v.neg
=============================================================================
