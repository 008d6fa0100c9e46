------------------------------- MODULE Plan_Zk -------------------------------
(* Proofs made from the specification.  For a given challenge one can choose all responses and
   solve the equations for the commitments, so every verifier condition can be made to hold or
   fail on its own: that is how each case below is built.
   chal.ndjson gives the challenges that a few given hash outputs lead to in the code. *)
EXTENDS ZkSpec, Primes, PlanKit
CONSTANTS Part, Deep, Params

Chal == ndJsonDeserialize("chal.ndjson")
Chals(op, ps) == {Chal[k] : k \in {k \in 1..Len(Chal) : Chal[k].op = op /\ Chal[k].params = ps}}

ModuliOf(b) == [n0 |-> BNMul(Low(b), Mid(b)), n1 |-> BNMul(High(b), Low2(b)), hn |-> BNMul(High2(b), Mid(b))]
ModuliTest == ModuliOf(128)
Moduli112 == IF "p112" \in Params THEN ModuliOf(1024) ELSE [none |-> 0]
Moduli(ps) == IF ps = "test" THEN ModuliTest ELSE Moduli112

\* a number that looks random, below m
Rnd(k, m) == BNPowMod(BNOfInt(7 + 2 * k), BNAdd(BNPow2(61), BNOfInt(12345 + k)), m)
Unit(k, m) == LET x == Rnd(k, m) IN IF BNUnit(x, m) THEN x ELSE BNTwo
RndZ(k, b) == Z(k % 2 = 1, Rnd(k, BNPow2(b)))
Dec1(x) == BNSub(x, BNOne)
Hi(e) == ZOfNat(BNPow2(e - 1))
Lo(e) == Z(TRUE, Dec1(BNPow2(e - 1)))
One == ZOfInt(1)
\* the ends of a range, their outer neighbours, and something inside
Ends(e) == {Hi(e), Lo(e), ZAdd(Hi(e), One), ZSub(Lo(e), One), ZZero, One, ZOfInt(-1)}
Outside(e) == {ZAdd(Hi(e), One), ZSub(Lo(e), One), ZMul(Hi(e), ZOfInt(2)), ZNeg(ZMul(Hi(e), ZOfInt(2)))}
WordEnds(b) == {ZOfNat(Dec1(BNPow2(b - 1))), Z(TRUE, Dec1(BNPow2(b - 1))), Z(FALSE, BNPow2(b - 2)), Z(TRUE, BNPow2(b - 2))}

Base(op, ps, ch) ==
  LET m == Moduli(ps) IN
  [op |-> op, params |-> ps, stream |-> ch.stream, h |-> ch.h, n0 |-> m.n0, n1 |-> m.n1, hn |-> m.hn,
   ht |-> Unit(1, m.hn), hs |-> Unit(2, m.hn), tight |-> FALSE]

\* near misses of a commitment
PtMiss(c, x) == {BNZero, AddMod(x, BNOne, Q(c)), SubMod(BNZero, x, Q(c)), SubMod(x, BNOne, Q(c)), AddMod(x, x, Q(c))} \ {x}
CtMiss(n, x) == {CMul(n, x, BNAdd(n, BNOne)),                   \* plaintext off by one
                 CMul(n, x, BNTwo), CMul(n, x, Pow(BNTwo, ZOfNat(n), N2(n))),  \* randomizer doubled
                 BNSub(N2(n), x), BNInvMod(x, N2(n)), BNOne} \ {x}
RpMiss(c, x) == {HMulM(c, x, BNTwo), BNSub(c.hn, x), BNInvMod(x, c.hn), HMulM(c, x, c.ht), BNOne} \ {x}
ScMiss(c, x) == {AddMod(x, BNOne, Q(c)), SubMod(BNZero, x, Q(c))} \ {x}
ZMiss(z) == {ZAdd(z, One), ZSub(z, One), ZNeg(z)} \ {z}
RhoMiss(n, x) == {MulMod(x, BNTwo, n), BNSub(n, x)} \ {x}
ChMiss(c) == {AddMod(c.h, BNOne, Q(c)), SubMod(BNZero, c.h, Q(c)), BNZero, BNOne} \ {c.h}
SetF(c, k, v) == [c EXCEPT !.f = [c.f EXCEPT ![k] = v]]
Misses(c, pts, scs, cts0, cts1, rps, zs, rhos0, rhos1) ==
  UNION {{SetF(c, k, v) : v \in PtMiss(c, c.f[k])} : k \in pts} \cup
  UNION {{SetF(c, k, v) : v \in ScMiss(c, c.f[k])} : k \in scs} \cup
  UNION {{SetF(c, k, v) : v \in CtMiss(c.n0, c.f[k])} : k \in cts0} \cup
  UNION {{SetF(c, k, v) : v \in CtMiss(c.n1, c.f[k])} : k \in cts1} \cup
  UNION {{SetF(c, k, v) : v \in RpMiss(c, c.f[k])} : k \in rps} \cup
  UNION {{SetF(c, k, v) : v \in ZMiss(c.f[k])} : k \in zs} \cup
  UNION {{SetF(c, k, v) : v \in RhoMiss(c.n0, c.f[k])} : k \in rhos0} \cup
  UNION {{SetF(c, k, v) : v \in RhoMiss(c.n1, c.f[k])} : k \in rhos1}

----------------------------------------------------------------------------
\* enc-elg
EncElg(ps, ch, z1, z3, k) ==
  LET c == Base("encelg", ps, ch)
      e == ch.h  eZ == ZOfNat(e)
      u == [C |-> Unit(3 + k, N2(c.n0)), a |-> Rnd(4 + k, Q(c)), b |-> Rnd(5 + k, Q(c)), x |-> Rnd(6 + k, Q(c))]
      S == Unit(7 + k, c.hn)
      w == Rnd(8 + k, Q(c))
      z2 == Unit(9 + k, c.n0)
  IN c @@ [u |-> u, f |->
      [e |-> e, S |-> S, z1 |-> z1, w |-> w, z2 |-> z2, z3 |-> z3,
       D |-> CMul(c.n0, EncP(c.n0, z1, z2), Pow(u.C, ZNeg(eZ), N2(c.n0))),
       Y |-> Mns(c, Pls(c, Tms(c, u.a, w), SZ(c, z1)), Tms(c, u.x, e)),
       Z |-> Mns(c, w, Tms(c, u.b, e)),
       T |-> HMulM(c, Com(c, z1, z3), Pow(S, ZNeg(eZ), c.hn))]]
\* equations hold for another challenge than the hash gives, or the challenge in the proof is not the hash's
ForE(Make(_, _, _, _, _), ps, ch, z1, z3, k, v) == [Make(ps, [ch EXCEPT !.h = v], z1, z3, k) EXCEPT !.h = ch.h]
EncElgCases(ps) ==
  LET r == Ell(ps) + Eps(ps)
      small == RndZ(10, r - 3)
      z3 == RndZ(11, IntBits(ps) + Ell(ps) + Eps(ps))
      chs == Chals("encelg", ps)
      c1 == {EncElg(ps, ch, small, z3, 20) : ch \in chs}
  IN {EncElg(ps, ch, z1, z3, 0) : ch \in chs, z1 \in Ends(r) \cup Outside(r) \cup WordEnds(IntBits(ps))}
     \cup {[EncElg(ps, ch, z1, z3, 0) EXCEPT !.tight = TRUE] : ch \in chs, z1 \in Ends(r)}
     \cup {EncElg(ps, ch, small, z, 0) : ch \in chs, z \in {ZZero} \cup WordEnds(2 * IntBits(ps))}
     \cup UNION {Misses(c, {"Y", "Z"}, {"w"}, {"D"}, {}, {"S", "T"}, {"z1", "z3"}, {"z2"}, {}) : c \in c1}
     \cup UNION {{SetF(c, "e", v) : v \in ChMiss(c)} : c \in c1}
     \cup UNION {{ForE(EncElg, ps, ch, small, z3, 0, v) : v \in ChMiss(EncElg(ps, ch, small, z3, 0))} : ch \in chs}
     \cup UNION {{SetF(SetF(c, "Y", Pls(c, c.f.Y, d)), "Z", Mns(c, c.f.Z, d)) : d \in {BNOne, c.u.a}} : c \in c1}

\* aff-g
\* values that are not invertible, for a modulus with the factor p
NonUnits(p, m) == {BNZero, p, BNMul(p, BNTwo), BNMod(BNMul(p, p), m)}
AffGUnits(c, k) == [C |-> Unit(3 + k, N2(c.n0)), D |-> Unit(4 + k, N2(c.n0)), Y |-> Unit(5 + k, N2(c.n1)), x |-> Rnd(6 + k, Q(c))]
AffGFor(ps, ch, z1, z2, k, u) ==
  LET c == Base("affg", ps, ch)
      e == ch.h  eZ == ZOfNat(e)
      S == Unit(7 + k, c.hn)  T == Unit(8 + k, c.hn)
      w == Unit(9 + k, c.n0)  wy == Unit(10 + k, c.n1)
      z3 == RndZ(11 + k, IntBits(ps) + Ell(ps) + Eps(ps))
      z4 == RndZ(12 + k, IntBits(ps) + Ell(ps) + Eps(ps))
  IN c @@ [u |-> u, f |->
      [e |-> e, S |-> S, T |-> T, z1 |-> z1, z2 |-> z2, z3 |-> z3, z4 |-> z4, w |-> w, wy |-> wy,
       A |-> CMul(c.n0, CMul(c.n0, Pow(u.C, z1, N2(c.n0)), EncP(c.n0, z2, w)), Pow(u.D, ZNeg(eZ), N2(c.n0))),
       Bx |-> Mns(c, SZ(c, z1), Tms(c, u.x, e)),
       By |-> CMul(c.n1, EncP(c.n1, z2, wy), Pow(u.Y, eZ, N2(c.n1))),
       E |-> HMulM(c, Com(c, z1, z3), Pow(S, ZNeg(eZ), c.hn)),
       F |-> HMulM(c, Com(c, z2, z4), Pow(T, ZNeg(eZ), c.hn))]]
AffG(ps, ch, z1, z2, k) == AffGFor(ps, ch, z1, z2, k, AffGUnits(Base("affg", ps, ch), k))
AffGCases(ps) ==
  LET r1 == Ell(ps) + Eps(ps)
      r2 == EllP(ps) + Eps(ps)
      s1 == RndZ(10, r1 - 3)  s2 == RndZ(13, r2 - 3)
      chs == Chals("affg", ps)
      c1 == {AffG(ps, ch, s1, s2, 20) : ch \in chs}
  IN {AffG(ps, ch, z1, s2, 0) : ch \in chs, z1 \in Ends(r1) \cup Outside(r1) \cup WordEnds(IntBits(ps))}
     \cup {AffG(ps, ch, s1, z2, 0) : ch \in chs, z2 \in Ends(r2) \cup Outside(r2) \cup WordEnds(IntBits(ps))}
     \cup {[AffG(ps, ch, z1, z2, 0) EXCEPT !.tight = TRUE] : ch \in chs, z1 \in {Hi(r1), Lo(r1)}, z2 \in {Hi(r2), Lo(r2)}}
     \cup UNION {{AffGFor(ps, ch, z1, s2, 20, [AffGUnits(Base("affg", ps, ch), 20) EXCEPT !.C = v])
                   : v \in NonUnits(Low(PrimeBits(ps)), N2(Moduli(ps).n0)), z1 \in {s1, ZNeg(s1), ZZero}} : ch \in chs}
     \cup UNION {{AffGFor(ps, ch, z1, s2, 20, [AffGUnits(Base("affg", ps, ch), 20) EXCEPT !.C = v, !.D = v])
                   : v \in NonUnits(Low(PrimeBits(ps)), N2(Moduli(ps).n0)), z1 \in {s1, ZNeg(s1)}} : ch \in chs}
     \cup UNION {{AffGFor(ps, ch, s1, s2, 20, [AffGUnits(Base("affg", ps, ch), 20) EXCEPT !.Y = v])
                   : v \in NonUnits(High(PrimeBits(ps)), N2(Moduli(ps).n1))} : ch \in chs}
     \cup UNION {Misses(c, {"Bx"}, {}, {"A"}, {"By"}, {"S", "T", "E", "F"}, {"z1", "z2", "z3", "z4"}, {"w"}, {"wy"}) : c \in c1}
     \cup UNION {{SetF(c, "e", v) : v \in ChMiss(c)} : c \in c1}
     \cup UNION {{ForE(AffG, ps, ch, s1, s2, 0, v) : v \in ChMiss(AffG(ps, ch, s1, s2, 0))} : ch \in chs}
     \cup UNION {{SetF(SetF(c, "E", HMulM(c, c.f.E, d)), "F", HMulM(c, c.f.F, BNInvMod(d, c.hn))) : d \in {BNTwo, c.ht}} : c \in c1}

\* fac
FacFor(ps, ch, z1, z2, k, P, QQ) ==
  LET c == Base("fac", ps, ch)
      e == ch.h
      R == Pow(c.hs, ZOfNat(c.n0), c.hn)
      w1 == RndZ(5 + k, IntBits(ps) + Ell(ps) + Eps(ps))
      w2 == RndZ(6 + k, IntBits(ps) + Ell(ps) + Eps(ps))
      v == RndZ(7 + k, 2 * IntBits(ps) + Ell(ps) + Eps(ps))
  IN c @@ [u |-> [none |-> 0], f |->
      [e |-> e, P |-> P, Q |-> QQ, z1 |-> z1, z2 |-> z2, w1 |-> w1, w2 |-> w2, v |-> v,
       A |-> HMulM(c, Com(c, z1, w1), Pow(P, ZNeg(e), c.hn)),
       B |-> HMulM(c, Com(c, z2, w2), Pow(QQ, ZNeg(e), c.hn)),
       T |-> HMulM(c, HMulM(c, Pow(QQ, z1, c.hn), Pow(c.ht, v, c.hn)), Pow(R, ZNeg(e), c.hn))]]
Fac(ps, ch, z1, z2, k) == FacFor(ps, ch, z1, z2, k, Unit(3 + k, Moduli(ps).hn), Unit(4 + k, Moduli(ps).hn))
ZChMiss(h) == {ZAdd(h, One), ZNeg(h), ZZero} \ {h}
FacCases(ps) ==
  LET r == Ell(ps) + Eps(ps) + PrimeBits(ps) - 2
      s1 == RndZ(10, r - 3)  s2 == RndZ(13, r - 3)
      chs == Chals("fac", ps)
      c1 == {Fac(ps, ch, s1, s2, 20) : ch \in chs}
  IN {Fac(ps, ch, z1, s2, 0) : ch \in chs, z1 \in Ends(r) \cup Outside(r)}
     \cup {Fac(ps, ch, s1, z2, 0) : ch \in chs, z2 \in Ends(r) \cup Outside(r)}
     \cup {[Fac(ps, ch, z1, z2, 0) EXCEPT !.tight = TRUE] : ch \in chs, z1 \in {Hi(r), Lo(r)}, z2 \in {Hi(r), Lo(r)}}
     \cup UNION {{FacFor(ps, ch, z1, s2, 20, x[1], x[2])
                   : z1 \in {s1, ZNeg(s1)},
                     x \in {<<v, BNTwo>> : v \in NonUnits(High2(PrimeBits(ps)), Moduli(ps).hn)} \cup {<<BNTwo, v>> : v \in NonUnits(High2(PrimeBits(ps)), Moduli(ps).hn)}}
                 : ch \in chs}
     \cup UNION {Misses(c, {}, {}, {}, {}, {"P", "Q", "A", "B", "T"}, {"z1", "z2", "w1", "w2", "v"}, {}, {}) : c \in c1}
     \cup UNION {{SetF(c, "e", v) : v \in ZChMiss(c.h)} : c \in c1}
     \cup UNION {{ForE(Fac, ps, ch, s1, s2, 0, v) : v \in ZChMiss(ch.h)} : ch \in chs}
     \cup UNION {{SetF(SetF(c, x[1], HMulM(c, c.f[x[1]], BNTwo)), x[2], HMulM(c, c.f[x[2]], BNInvMod(BNTwo, c.hn)))
                   : x \in {<<"A", "B">>, <<"B", "T">>, <<"A", "T">>}} : c \in c1}

----------------------------------------------------------------------------
\* Batched proofs.  zs(j): the responses of element j; `bits` the challenge the elements answer.
StarUnits(c) == [C |-> Unit(3, N2(c.n0)), D |-> Unit(4, N2(c.n0)), Y |-> Unit(5, N2(c.n1)), x |-> Rnd(6, Q(c))]
AffGStarFor(ps, ch, bits, zs(_), u) ==
  LET c == Base("affgstar", ps, ch)
      n02 == N2(c.n0)
      Di == Pow(u.D, ZOfInt(-1), n02)
      El(j) == LET z == zs(j) e == bits[j] IN
        [A |-> CMul(c.n0, CMul(c.n0, Pow(u.C, z.z, n02), EncP(c.n0, z.zp, z.w)), IF e THEN Di ELSE BNOne),
         R |-> Mns(c, SZ(c, z.z), IF e THEN u.x ELSE BNZero),
         B |-> CMul(c.n1, EncP(c.n1, z.zp, z.l), IF e THEN u.Y ELSE BNOne)]
  IN c @@ [u |-> u, f |-> [e |-> bits, c |-> [j \in 1..Len(bits) |-> El(j)], z |-> [j \in 1..Len(bits) |-> zs(j)]]]
AffGStar(ps, ch, bits, zs(_)) == AffGStarFor(ps, ch, bits, zs, StarUnits(Base("affgstar", ps, ch)))
StarZ(ps, j) == [z |-> RndZ(10 + j, Ell(ps) + Eps(ps) - 3), zp |-> RndZ(50 + j, EllP(ps) + Eps(ps) - 3),
                 w |-> Unit(100 + j, Moduli(ps).n0), l |-> Unit(150 + j, Moduli(ps).n1)]
SetC(c, j, k, v) == [c EXCEPT !.f = [c.f EXCEPT !.c = [c.f.c EXCEPT ![j] = [c.f.c[j] EXCEPT ![k] = v]]]]
SetZ(c, j, k, v) == [c EXCEPT !.f = [c.f EXCEPT !.z = [c.f.z EXCEPT ![j] = [c.f.z[j] EXCEPT ![k] = v]]]]
Flip(bits, j) == [bits EXCEPT ![j] = ~bits[j]]
Last1(s) == SubSeq(s, 1, Len(s) - 1)
\* cases of wrong lengths
Lengths(c) ==
  {[c EXCEPT !.f = [c.f EXCEPT !.c = Last1(c.f.c)]], [c EXCEPT !.f = [c.f EXCEPT !.z = Last1(c.f.z)]],
   [c EXCEPT !.f = [c.f EXCEPT !.c = Last1(c.f.c), !.z = Last1(c.f.z)]],
   [c EXCEPT !.f = [c.f EXCEPT !.e = Last1(c.f.e), !.c = Last1(c.f.c), !.z = Last1(c.f.z)]],
   [c EXCEPT !.f = [c.f EXCEPT !.c = <<>>, !.z = <<>>]], [c EXCEPT !.f = [c.f EXCEPT !.c = <<>>]],
   [c EXCEPT !.f = [c.f EXCEPT !.z = <<>>]],
   [c EXCEPT !.f = [c.f EXCEPT !.e = <<>>, !.c = <<>>, !.z = <<>>]],
   [c EXCEPT !.f = [c.f EXCEPT !.c = Append(c.f.c, c.f.c[1]), !.z = Append(c.f.z, c.f.z[1])]],
   [c EXCEPT !.f = [c.f EXCEPT !.c = Append(c.f.c, c.f.c[1])]],
   [c EXCEPT !.f = [c.f EXCEPT !.z = Append(c.f.z, c.f.z[1])]],
   [c EXCEPT !.f = [c.f EXCEPT !.e = Append(c.f.e, c.f.e[1]), !.c = Append(c.f.c, c.f.c[1]), !.z = Append(c.f.z, c.f.z[1])]],
   \* elements exchanged
   [c EXCEPT !.f = [c.f EXCEPT !.z = [c.f.z EXCEPT ![1] = c.f.z[2], ![2] = c.f.z[1]]]],
   [c EXCEPT !.f = [c.f EXCEPT !.c = [c.f.c EXCEPT ![1] = c.f.c[2], ![2] = c.f.c[1]], !.z = [c.f.z EXCEPT ![1] = c.f.z[2], ![2] = c.f.z[1]]]]}
\* positions to look at: everywhere, or the ends and around the bytes
Where(h) == IF Deep THEN 1..Len(h) ELSE {1, 2, 8, 9, Len(h) \div 2, Len(h) - 1, Len(h)}
\* challenges answered by the elements but not given by the hash, and the reverse
BatchChal(Make(_, _), ch, c) ==
  {[Make(ch, Flip(ch.h, j)) EXCEPT !.h = ch.h] : j \in Where(ch.h)}
  \cup {[c EXCEPT !.f = [c.f EXCEPT !.e = Flip(ch.h, j)]] : j \in Where(ch.h)}
  \* the right challenge in the proof, but one element answers the other one
  \cup {[Make(ch, Flip(ch.h, j)) EXCEPT !.f = [(Make(ch, Flip(ch.h, j))).f EXCEPT !.e = ch.h]] : j \in Where(ch.h)}

AffGStarCases(ps) ==
  LET chs == Chals("affgstar", ps)
      Make(ch, bits) == AffGStar(ps, ch, bits, LAMBDA j : StarZ(ps, j))
      c1 == {Make(ch, ch.h) : ch \in chs}
      r1 == Ell(ps) + Eps(ps)  r2 == EllP(ps) + Eps(ps)
      At(ch, j0, k, v) == AffGStar(ps, ch, ch.h, LAMBDA j : IF j = j0 THEN [StarZ(ps, j) EXCEPT ![k] = v] ELSE StarZ(ps, j))
  IN c1
     \cup UNION {{At(ch, j, "z", v) : v \in Ends(r1) \cup Outside(r1), j \in {1, 2, Len(ch.h)}} : ch \in chs}
     \cup UNION {{At(ch, j, "zp", v) : v \in Ends(r2) \cup Outside(r2), j \in {1, 2, Len(ch.h)}} : ch \in chs}
     \cup UNION {UNION {{SetC(c, j, "A", v) : v \in CtMiss(c.n0, c.f.c[j].A)} \cup {SetC(c, j, "B", v) : v \in CtMiss(c.n1, c.f.c[j].B)}
                        \cup {SetC(c, j, "R", v) : v \in PtMiss(c, c.f.c[j].R)}
                       : j \in {1, Len(c.h)}} : c \in c1}
     \cup UNION {UNION {{SetC(c, j, "A", CMul(c.n0, c.f.c[j].A, BNTwo)), SetC(c, j, "B", CMul(c.n1, c.f.c[j].B, BNTwo)),
                         SetC(c, j, "R", Pls(c, c.f.c[j].R, BNOne))} : j \in Where(c.h)} : c \in c1}
     \cup UNION {UNION {{SetZ(c, j, "z", v) : v \in ZMiss(c.f.z[j].z)} \cup {SetZ(c, j, "zp", v) : v \in ZMiss(c.f.z[j].zp)}
                        \cup {SetZ(c, j, "w", v) : v \in RhoMiss(c.n0, c.f.z[j].w)} \cup {SetZ(c, j, "l", v) : v \in RhoMiss(c.n1, c.f.z[j].l)}
                       : j \in {2, Len(c.h) - 1}} : c \in c1}
     \cup UNION {{AffGStarFor(ps, ch, ch.h, LAMBDA j : StarZ(ps, j), [StarUnits(Base("affgstar", ps, ch)) EXCEPT !.C = v])
                   : v \in NonUnits(Low(PrimeBits(ps)), N2(Moduli(ps).n0))} : ch \in chs}
     \cup UNION {{AffGStarFor(ps, ch, ch.h, LAMBDA j : StarZ(ps, j), [StarUnits(Base("affgstar", ps, ch)) EXCEPT !.Y = v])
                   : v \in NonUnits(High(PrimeBits(ps)), N2(Moduli(ps).n1))} : ch \in chs}
     \* errors of two elements that cancel out
     \cup {SetC(SetC(c, 1, "R", Pls(c, c.f.c[1].R, BNOne)), 2, "R", Mns(c, c.f.c[2].R, BNOne)) : c \in c1}
     \cup {SetC(SetC(c, 1, "A", CMul(c.n0, c.f.c[1].A, BNTwo)), 2, "A", CMul(c.n0, c.f.c[2].A, BNInvMod(BNTwo, N2(c.n0)))) : c \in c1}
     \cup UNION {Lengths(c) : c \in c1}
     \cup UNION {BatchChal(Make, ch, Make(ch, ch.h)) : ch \in chs}

DecFor(ps, ch, bits, parties, zs(_), K) ==
  LET c == Base("dec", ps, ch)
      n02 == N2(c.n0)
      u == [K |-> K, D |-> Unit(4, n02), x |-> Rnd(6, Q(c)), s |-> Rnd(7, Q(c)), g |-> Rnd(8, Q(c)), parties |-> parties]
      Di == BNInvMod(u.D, n02)
      El(j) == LET z == zs(j) e == bits[j] IN
        [A |-> CMul(c.n0, CMul(c.n0, EncP(c.n0, z.w, z.nu), Pow(u.K, ZNeg(z.z), n02)), IF e THEN Di ELSE BNOne),
         C |-> Mns(c, SZ(c, z.z), IF e THEN u.x ELSE BNZero),
         B |-> Mns(c, Tms(c, u.g, SZ(c, z.w)), IF e THEN u.s ELSE BNZero)]
  IN c @@ [u |-> u, f |-> [e |-> bits, c |-> [j \in 1..Len(bits) |-> El(j)], z |-> [j \in 1..Len(bits) |-> zs(j)]]]
DecP(ps, ch, bits, parties, zs(_)) == DecFor(ps, ch, bits, parties, zs, Unit(3, N2(Moduli(ps).n0)))
DecZ(ps, j) == [z |-> RndZ(10 + j, Ell(ps) + Eps(ps) - 3), w |-> RndZ(50 + j, EllP(ps) + 2 * Eps(ps) - 3), nu |-> Unit(100 + j, Moduli(ps).n0)]
DecBound(ps, n) == EllP(ps) + Eps(ps) + 1 + CeilLog2(n) + Eps(ps)
DecCases(ps) ==
  LET chs == Chals("dec", ps)
      Make(ch, bits) == DecP(ps, ch, bits, 3, LAMBDA j : DecZ(ps, j))
      c1 == {Make(ch, ch.h) : ch \in chs}
      r1 == Ell(ps) + Eps(ps)
      At(ch, n, j0, k, v) == DecP(ps, ch, ch.h, n, LAMBDA j : IF j = j0 THEN [DecZ(ps, j) EXCEPT ![k] = v] ELSE DecZ(ps, j))
      \* numbers of parties around the powers of two
      ns == {2, 3, 4, 5, 8, 9, 1024, 1025}
  IN c1
     \cup UNION {{At(ch, 3, j, "z", v) : v \in Ends(r1) \cup Outside(r1), j \in {1, 2, Len(ch.h)}} : ch \in chs}
     \cup UNION {UNION {{At(ch, n, j, "w", v) : v \in {Hi(DecBound(ps, n)), Lo(DecBound(ps, n)), ZAdd(Hi(DecBound(ps, n)), One), ZSub(Lo(DecBound(ps, n)), One)}}
                        : n \in ns, j \in (IF Deep THEN {1, Len(ch.h)} ELSE {Len(ch.h)})} : ch \in chs}
     \cup UNION {{At(ch, 3, 1, "w", v) : v \in Ends(DecBound(ps, 3)) \cup Outside(DecBound(ps, 3)) \cup WordEnds(2 * IntBits(ps))} : ch \in chs}
     \cup UNION {UNION {{SetC(c, j, "A", v) : v \in CtMiss(c.n0, c.f.c[j].A)}
                        \cup {SetC(c, j, "B", v) : v \in PtMiss(c, c.f.c[j].B)} \cup {SetC(c, j, "C", v) : v \in PtMiss(c, c.f.c[j].C)}
                       : j \in {1, Len(c.h)}} : c \in c1}
     \cup UNION {UNION {{SetC(c, j, "A", CMul(c.n0, c.f.c[j].A, BNTwo)), SetC(c, j, "B", Pls(c, c.f.c[j].B, BNOne)),
                         SetC(c, j, "C", Pls(c, c.f.c[j].C, BNOne))} : j \in Where(c.h)} : c \in c1}
     \cup UNION {UNION {{SetZ(c, j, "z", v) : v \in ZMiss(c.f.z[j].z)} \cup {SetZ(c, j, "w", v) : v \in ZMiss(c.f.z[j].w)}
                        \cup {SetZ(c, j, "nu", v) : v \in RhoMiss(c.n0, c.f.z[j].nu)}
                       : j \in {2, Len(c.h) - 1}} : c \in c1}
     \cup {DecFor(ps, ch, ch.h, 3, LAMBDA j : DecZ(ps, j), v) : ch \in chs, v \in NonUnits(Low(PrimeBits(ps)), N2(Moduli(ps).n0))}
     \cup {SetC(SetC(c, 1, "B", Pls(c, c.f.c[1].B, BNOne)), 2, "B", Mns(c, c.f.c[2].B, BNOne)) : c \in c1}
     \cup {SetC(SetC(c, 1, "B", Pls(c, c.f.c[1].B, BNOne)), 1, "C", Mns(c, c.f.c[1].C, BNOne)) : c \in c1}
     \cup UNION {Lengths(c) : c \in c1}
     \cup UNION {BatchChal(Make, ch, Make(ch, ch.h)) : ch \in chs}

----------------------------------------------------------------------------
\* discrete logarithms
\* zs: the public points that are the identity
ElogZ(ps, ch, z, uu, k, zs) ==
  LET c == Base("elog", ps, ch)
      e == ch.h
      u0 == [l |-> Rnd(3 + k, Q(c)), m |-> Rnd(4 + k, Q(c)), x |-> Rnd(5 + k, Q(c)), y |-> Rnd(6 + k, Q(c)), h |-> Rnd(7 + k, Q(c))]
      u == [x \in DOMAIN u0 |-> IF x \in zs THEN BNZero ELSE u0[x]]
  IN c @@ [u |-> u, f |-> [e |-> e, z |-> z, u |-> uu,
       A |-> Mns(c, z, Tms(c, u.l, e)),
       N |-> Mns(c, Pls(c, uu, Tms(c, u.x, z)), Tms(c, u.m, e)),
       B |-> Mns(c, Tms(c, u.h, uu), Tms(c, u.y, e))]]
Elog(ps, ch, z, uu, k) == ElogZ(ps, ch, z, uu, k, {})
ElogCases(ps) ==
  LET chs == Chals("elog", ps)
      q == CurveOf(ps).q
      c1 == {Elog(ps, ch, Rnd(11, q), Rnd(12, q), k) : ch \in chs, k \in 0..2}
      For(ch, v) == [Elog(ps, [ch EXCEPT !.h = v], Rnd(11, q), Rnd(12, q), 0) EXCEPT !.h = ch.h]
  IN c1
     \cup {ElogZ(ps, ch, Rnd(11, q), Rnd(12, q), 0, zs) : ch \in chs, zs \in SUBSET {"l", "m", "x", "y", "h"}}
     \cup {Elog(ps, ch, z, uu, 9) : ch \in chs, z \in {BNOne, Dec1(q), BNZero}, uu \in {BNOne, Dec1(q), BNZero}}
     \cup UNION {Misses(c, {"A", "N", "B"}, {"z", "u"}, {}, {}, {}, {}, {}, {}) : c \in c1}
     \cup UNION {{SetF(c, "e", v) : v \in ChMiss(c)} : c \in c1}
     \cup UNION {{For(ch, v) : v \in ChMiss(Elog(ps, ch, BNOne, BNOne, 0))} : ch \in chs}
     \cup UNION {{SetF(SetF(c, x[1], Pls(c, c.f[x[1]], BNOne)), x[2], Mns(c, c.f[x[2]], BNOne))
                   : x \in {<<"A", "N">>, <<"N", "B">>, <<"A", "B">>}} : c \in c1}

Sch(ps, ch, p, x) ==
  LET c == Base("sch", ps, ch) IN
  c @@ [u |-> [x |-> x, k |-> Mns(c, p, Tms(c, x, ch.h))], f |-> [e |-> ch.h, p |-> p]]
SchCases(ps) ==
  LET chs == Chals("sch", ps)
      q == CurveOf(ps).q
      c1 == {Sch(ps, ch, p, x) : ch \in chs, p \in {BNOne, Dec1(q), Rnd(5, q)}, x \in {BNZero, BNOne, BNTwo, Dec1(q), Rnd(6, q)}}
      For(ch, v) == [Sch(ps, [ch EXCEPT !.h = v], Rnd(5, q), Rnd(6, q)) EXCEPT !.h = ch.h]
      PubMiss(c, k) == {[c EXCEPT !.u = [c.u EXCEPT ![k] = v]] : v \in PtMiss(c, c.u[k])}
  IN c1 \cup UNION {PubMiss(c, "k") \cup PubMiss(c, "x") \cup Misses(c, {}, {"p"}, {}, {}, {}, {}, {}, {}) \cup {SetF(c, "e", v) : v \in ChMiss(c)} : c \in c1}
     \cup UNION {{For(ch, v) : v \in ChMiss(Sch(ps, ch, BNOne, BNOne))} : ch \in chs}

----------------------------------------------------------------------------
\* prm
PrmFor(ps, ch, bits, zs, ht, hs) ==
  LET c == [Base("prm", ps, ch) EXCEPT !.ht = ht, !.hs = hs]
      si == Pow(c.hs, ZOfInt(-1), c.hn)
  IN c @@ [u |-> [none |-> 0], f |-> [e |-> bits, z |-> zs,
       a |-> [j \in 1..Len(bits) |-> HMulM(c, BNPowMod(c.ht, zs[j], c.hn), IF bits[j] THEN si ELSE BNOne)]]]
Prm(ps, ch, bits, zs) == PrmFor(ps, ch, bits, zs, Base("prm", ps, ch).ht, Base("prm", ps, ch).hs)
PrmZ(ps) == [j \in 1..Reps(ps) |-> Rnd(10 + j, BNPow2(IntBits(ps) - (j % 5)))]
SetJ(c, k, j, v) == [c EXCEPT !.f = [c.f EXCEPT ![k] = [c.f[k] EXCEPT ![j] = v]]]
Shorter(c, ks) == [c EXCEPT !.f = [k \in DOMAIN c.f |-> IF k \in ks THEN Last1(c.f[k]) ELSE c.f[k]]]
Emptied(c, ks) == [c EXCEPT !.f = [k \in DOMAIN c.f |-> IF k \in ks THEN <<>> ELSE c.f[k]]]
Longer(c, ks) == [c EXCEPT !.f = [k \in DOMAIN c.f |-> IF k \in ks THEN Append(c.f[k], c.f[k][1]) ELSE c.f[k]]]
PrmCases(ps) ==
  LET chs == Chals("prm", ps)
      m == Reps(ps)
      Make(ch, bits) == Prm(ps, ch, bits, PrmZ(ps))
      c1 == {Make(ch, ch.h) : ch \in chs}
      At == {1, 2, m \div 2, m \div 2 + 1, m - 1, m}
  IN c1
     \cup UNION {{Prm(ps, ch, ch.h, [PrmZ(ps) EXCEPT ![j] = v]) : v \in {BNZero, BNOne, Dec1(BNPow2(IntBits(ps)))}, j \in {1, m}} : ch \in chs}
     \cup UNION {UNION {{SetJ(c, "a", j, v) : v \in RpMiss(c, c.f.a[j]) \cup {BNZero}}
                        \cup {SetJ(c, "z", j, v) : v \in {BNAdd(Dec1(c.f.z[j]), BNTwo), Dec1(c.f.z[j])}}
                        \cup {SetJ(c, "e", j, ~c.f.e[j])} : j \in At} : c \in c1}
     \cup UNION {{[Make(ch, Flip(ch.h, j)) EXCEPT !.h = ch.h] : j \in At} : ch \in chs}
     \cup UNION {{[Make(ch, Flip(ch.h, j)) EXCEPT !.f = [(Make(ch, Flip(ch.h, j))).f EXCEPT !.e = ch.h]] : j \in At} : ch \in chs}
     \cup UNION {UNION {{Shorter(c, ks), Emptied(c, ks), Longer(c, ks)}
                        : ks \in {{"e"}, {"a"}, {"z"}, {"a", "z"}, {"e", "a", "z"}, {"e", "z"}}} : c \in c1}
     \* bases that are no units; with both zero everything else holds
     \cup UNION {{PrmFor(ps, ch, ch.h, PrmZ(ps), x[1], x[2])
                   : x \in UNION {{<<v, v>>, <<v, BNTwo>>, <<BNTwo, v>>} : v \in NonUnits(High2(PrimeBits(ps)), Moduli(ps).hn)}} : ch \in chs}
     \cup {SetJ(SetJ(c, "z", 1, c.f.z[2]), "z", 2, c.f.z[1]) : c \in c1}
     \cup {SetJ(SetJ(c, "a", 1, HMulM(c, c.f.a[1], BNTwo)), "a", 2, HMulM(c, c.f.a[2], BNInvMod(BNTwo, c.hn))) : c \in c1}

----------------------------------------------------------------------------
\* mod: c.p, c.q the primes, ch.h the challenges
Sqrt4(y, p) == LET k == BNDiv(BNAdd(p, BNOne), <<4>>) IN BNPowMod(y, BNMul(k, k), p)
Crt(xp, xq, p, q) == BNAdd(xp, BNMul(p, MulMod(SubMod(xq, xp, q), BNInvMod(p, q), q)))
ModN(p, q) == BNMul(p, q)
\* the answer to y for commitment w
ModElem(p, q, w, y) ==
  LET n == ModN(p, q)
      phi == BNMul(Dec1(p), Dec1(q))
      try == {<<a, b>> \in BOOLEAN \X BOOLEAN :
                LET y1 == IF a THEN SubMod(BNZero, y, n) ELSE BNMod(y, n)
                    y2 == IF b THEN MulMod(w, y1, n) ELSE y1
                IN BNJacobi(y2, p) = 1 /\ BNJacobi(y2, q) = 1}
      ab == CHOOSE t \in try : TRUE
      y1 == IF ab[1] THEN SubMod(BNZero, y, n) ELSE BNMod(y, n)
      y2 == IF ab[2] THEN MulMod(w, y1, n) ELSE y1
  IN [x |-> Crt(Sqrt4(BNMod(y2, p), p), Sqrt4(BNMod(y2, q), q), p, q), a |-> ab[1], b |-> ab[2],
      z |-> BNPowMod(y, BNInvMod(n, phi), n)]
NonSq(p, q) == CHOOSE w \in {BNOfInt(k) : k \in 2..60} : BNJacobi(w, p) * BNJacobi(w, q) = -1
ModP(ps, ch) ==
  LET c == [Base("mod", ps, ch) EXCEPT !.n0 = ModN(ch.p, ch.q)]
      w == BNPowMod(NonSq(ch.p, ch.q), BNAdd(BNPow2(60), BNOne), c.n0)
  IN c @@ [u |-> [none |-> 0], f |-> [w |-> w, y |-> ch.h, e |-> [j \in 1..Len(ch.h) |-> ModElem(ch.p, ch.q, w, ch.h[j])]]]
SetE(c, j, k, v) == [c EXCEPT !.f = [c.f EXCEPT !.e = [c.f.e EXCEPT ![j] = [c.f.e[j] EXCEPT ![k] = v]]]]
\* a prime modulus answers every challenge: -1 is not a square, so y or -y has a fourth root
PrimeElem(n, y) ==
  LET a == BNJacobi(y, n) # 1
      y1 == IF a THEN SubMod(BNZero, y, n) ELSE y
  IN [x |-> Sqrt4(y1, n), a |-> a, b |-> FALSE, z |-> BNPowMod(y, BNInvMod(n, Dec1(n)), n)]
ModPrime(ps, ch) ==
  LET c == [Base("mod", ps, ch) EXCEPT !.n0 = ch.p] IN
  c @@ [u |-> [none |-> 0], f |-> [w |-> <<4>>, y |-> ch.h, e |-> [j \in 1..Len(ch.h) |-> PrimeElem(ch.p, ch.h[j])]]]
\* a commitment that is no unit, possible when every challenge happens to be a square up to sign
ModBadW(ps, ch) ==
  LET c == [Base("mod", ps, ch) EXCEPT !.n0 = ModN(ch.p, ch.q)]
      w == BNMul(ch.p, <<6>>)
  IN c @@ [u |-> [none |-> 0], f |-> [w |-> w, y |-> ch.h, e |-> [j \in 1..Len(ch.h) |-> ModElem(ch.p, ch.q, NonSq(ch.p, ch.q), ch.h[j])]]]
ModCases(ps) ==
  LET all == Chals("mod", ps)
      chs == {ch \in all : ch.q # BNZero}
      primes == all \ chs
      m == Reps(ps)
      At == IF ps = "test" THEN 1..m ELSE {1, m}
      c1 == {ModP(ps, ch) : ch \in chs}
      El(c, j) ==
        LET k == c.f.e[j]  n == c.n0 IN
        {SetE(c, j, "x", v) : v \in {BNSub(n, k.x), MulMod(k.x, BNTwo, n), BNAdd(Dec1(k.x), BNTwo), MulMod(k.x, k.x, n), BNInvMod(k.x, n)}}
        \cup {SetE(c, j, "z", v) : v \in {BNSub(n, k.z), MulMod(k.z, BNTwo, n), Dec1(k.z), BNInvMod(k.z, n)}}
        \cup {SetE(c, j, "a", ~k.a), SetE(c, j, "b", ~k.b)}
        \cup {SetE(SetE(c, j, "a", ~k.a), j, "b", ~k.b)}
        \cup {SetJ(c, "y", j, MulMod(c.f.y[j], c.f.y[j], n))}
  IN c1
     \cup UNION {UNION {El(c, j) : j \in At} : c \in c1}
     \cup {[c EXCEPT !.f = [c.f EXCEPT !.w = v]] : c \in c1, v \in {BNZero, BNOne}}
     \cup UNION {{[c EXCEPT !.f = [c.f EXCEPT !.w = v]] : v \in {BNSub(c.n0, c.f.w), MulMod(c.f.w, BNTwo, c.n0)}} : c \in c1}
     \cup {ModPrime(ps, ch) : ch \in primes}
     \cup {ModBadW(ps, ch) : ch \in chs}
     \cup UNION {UNION {{Shorter(c, ks), Emptied(c, ks), Longer(c, ks)} : ks \in {{"y"}, {"e"}, {"y", "e"}}} : c \in c1}
     \cup {[c EXCEPT !.f = [c.f EXCEPT !.e = [c.f.e EXCEPT ![1] = c.f.e[2], ![2] = c.f.e[1]]]] : c \in c1}
     \cup UNION {{[c EXCEPT !.f = [c.f EXCEPT !.e = [c.f.e EXCEPT ![j] = c.f.e[k]]]] : j \in {m}, k \in {1}} : c \in c1}
     \* the proof of another key, and challenges of one's own choice
     \cup UNION {{[c EXCEPT !.f = [c.f EXCEPT !.y = [c.f.y EXCEPT ![j] = BNOne], !.e = [c.f.e EXCEPT ![j] = [x |-> BNOne, a |-> FALSE, b |-> FALSE, z |-> BNOne]]]]
                   : j \in {1, m}} : c \in c1}

----------------------------------------------------------------------------
(* What the challenge is bound to.  For every kind of proof: an accepted proof, and copies of it in
   which one component of the transcript - statement, setup, commitments, context - is another one.
   The responses are left alone; what matters is which question is put to the hash. *)
ContextText == "context"
BindBase(op, ps) ==
  LET ch == CHOOSE ch \in Chals(op, ps) : ch.stream = 2
      r1 == Ell(ps) + Eps(ps)  r2 == EllP(ps) + Eps(ps)
      rf == Ell(ps) + Eps(ps) + PrimeBits(ps) - 2
  IN CASE op = "encelg" -> EncElg(ps, ch, RndZ(10, r1 - 3), RndZ(11, IntBits(ps) + Ell(ps) + Eps(ps)), 20)
       [] op = "affg" -> AffG(ps, ch, RndZ(10, r1 - 3), RndZ(13, r2 - 3), 20)
       [] op = "fac" -> Fac(ps, ch, RndZ(10, rf - 3), RndZ(13, rf - 3), 20)
       [] op = "affgstar" -> AffGStar(ps, ch, ch.h, LAMBDA j : StarZ(ps, j))
       [] op = "dec" -> DecP(ps, ch, ch.h, 3, LAMBDA j : DecZ(ps, j))
       [] op = "elog" -> Elog(ps, ch, Rnd(11, CurveOf(ps).q), Rnd(12, CurveOf(ps).q), 1)
       [] op = "sch" -> Sch(ps, ch, Rnd(5, CurveOf(ps).q), Rnd(6, CurveOf(ps).q))
       [] op = "prm" -> Prm(ps, ch, ch.h, PrmZ(ps))
       [] op = "mod" -> ModP(ps, CHOOSE x \in Chals("mod", ps) : x.stream = 2 /\ x.q # BNZero)
\* the components of each transcript: numbers modulo something, points; `el` those of each element of a batch
Components(op) ==
  CASE op = "encelg" -> [mods |-> {"n0", "hn"}, rp |-> {"ht", "hs"}, ct0 |-> {<<"u", "C">>, <<"f", "D">>}, ct1 |-> {}, com |-> {"S", "T"},
                         pts |-> {<<"u", "a">>, <<"u", "b">>, <<"u", "x">>, <<"f", "Y">>, <<"f", "Z">>}]
    [] op = "affg" -> [mods |-> {"n0", "n1", "hn"}, rp |-> {"ht", "hs"}, ct0 |-> {<<"u", "C">>, <<"u", "D">>, <<"f", "A">>},
                       ct1 |-> {<<"u", "Y">>, <<"f", "By">>}, com |-> {"E", "F", "S", "T"}, pts |-> {<<"u", "x">>, <<"f", "Bx">>}]
    [] op = "fac" -> [mods |-> {"n0", "hn"}, rp |-> {"ht", "hs"}, ct0 |-> {}, ct1 |-> {}, com |-> {"P", "Q", "A", "B", "T"}, pts |-> {}]
    [] op = "affgstar" -> [mods |-> {"n0", "n1"}, rp |-> {}, ct0 |-> {<<"u", "C">>, <<"u", "D">>}, ct1 |-> {<<"u", "Y">>}, com |-> {}, pts |-> {<<"u", "x">>}]
    [] op = "dec" -> [mods |-> {"n0", "hn"}, rp |-> {"ht", "hs"}, ct0 |-> {<<"u", "K">>, <<"u", "D">>}, ct1 |-> {}, com |-> {},
                      pts |-> {<<"u", "x">>, <<"u", "s">>, <<"u", "g">>}]
    [] op = "elog" -> [mods |-> {}, rp |-> {}, ct0 |-> {}, ct1 |-> {}, com |-> {},
                       pts |-> {<<"u", "l">>, <<"u", "m">>, <<"u", "x">>, <<"u", "y">>, <<"u", "h">>, <<"f", "A">>, <<"f", "N">>, <<"f", "B">>}]
    [] op = "sch" -> [mods |-> {}, rp |-> {}, ct0 |-> {}, ct1 |-> {}, com |-> {}, pts |-> {<<"u", "x">>, <<"u", "k">>}]
    [] op = "prm" -> [mods |-> {"hn"}, rp |-> {"ht", "hs"}, ct0 |-> {}, ct1 |-> {}, com |-> {}, pts |-> {}]
    [] op = "mod" -> [mods |-> {"n0"}, rp |-> {}, ct0 |-> {}, ct1 |-> {}, com |-> {"w"}, pts |-> {}]
SetU(c, k, v) == [c EXCEPT !.u = [c.u EXCEPT ![k] = v]]
SetIn(c, x, v) == IF x[1] = "u" THEN SetU(c, x[2], v) ELSE SetF(c, x[2], v)
\* other values below m (bits wide): another lowest bit, another bit in each word
OtherNat(x, m, bits) ==
  LET limbs == {64 * k + 3 : k \in (IF bits <= 1024 THEN 0..(bits \div 64 - 1) ELSE {0, bits \div 128, bits \div 64 - 1})} IN
  {y \in {BNAdd(x, BNPow2(b)) : b \in limbs} \cup {BNSub(x, BNPow2(b)) : b \in {b \in limbs : BNLt(BNPow2(b), x)}} \cup {BNSub(m, x)} : BNLt(y, m)} \ {x}
\* a larger modulus, so that nothing else is reduced differently
OtherMod(n, bits) == {y \in {BNAdd(n, BNPow2(b)) : b \in {1, 65, bits \div 2, bits - 65}} : BNLt(y, BNPow2(bits))}
Labelled(cs, what) == {c @@ [comp |-> what] : c \in cs}
Other(c) ==
  LET k == Components(c.op)  b == IntBits(c.params) IN
  UNION {Labelled({[c EXCEPT ![x] = v] : v \in OtherMod(c[x], b)}, x) : x \in k.mods}
  \cup UNION {Labelled({[c EXCEPT ![x] = v] : v \in OtherNat(c[x], c.hn, b)}, x) : x \in k.rp}
  \cup UNION {Labelled({SetIn(c, x, v) : v \in OtherNat(c[x[1]][x[2]], N2(c.n0), 2 * b)}, x[2]) : x \in k.ct0}
  \cup UNION {Labelled({SetIn(c, x, v) : v \in OtherNat(c[x[1]][x[2]], N2(c.n1), 2 * b)}, x[2]) : x \in k.ct1}
  \cup UNION {Labelled({SetF(c, x, v) : v \in OtherNat(c.f[x], IF x = "w" THEN c.n0 ELSE c.hn, b)}, x) : x \in k.com}
  \cup UNION {Labelled({SetIn(c, x, v) : v \in PtMiss(c, c[x[1]][x[2]])}, x[2]) : x \in k.pts}
  \cup (IF c.op \in {"affgstar", "dec"} THEN
          UNION {Labelled({SetC(c, j, "A", v) : v \in OtherNat(c.f.c[j].A, N2(c.n0), 2 * b)}, "A") : j \in {1, 2, Len(c.h)}}
          \cup UNION {Labelled({SetC(c, j, x, v) : v \in PtMiss(c, c.f.c[j][x])}, x) : j \in {1, 2, Len(c.h)}, x \in IF c.op = "dec" THEN {"B", "C"} ELSE {"R"}}
          \cup (IF c.op = "affgstar" THEN UNION {Labelled({SetC(c, j, "B", v) : v \in OtherNat(c.f.c[j].B, N2(c.n1), 2 * b)}, "B") : j \in {1, 2, Len(c.h)}} ELSE {})
          \cup Labelled({[c EXCEPT !.f = [c.f EXCEPT !.c = [c.f.c EXCEPT ![1] = c.f.c[2], ![2] = c.f.c[1]]]],
                         [c EXCEPT !.f = [c.f EXCEPT !.c = Last1(c.f.c)]],
                         [c EXCEPT !.f = [c.f EXCEPT !.c = Append(c.f.c, c.f.c[1])]]}, "list")
        ELSE {})
  \cup (IF c.op = "prm" THEN
          UNION {Labelled({SetJ(c, "a", j, v) : v \in OtherNat(c.f.a[j], c.hn, b)}, "a") : j \in {1, 2, Reps(c.params)}}
          \cup Labelled({SetJ(SetJ(c, "a", 1, c.f.a[2]), "a", 2, c.f.a[1]), Shorter(c, {"a"}), Longer(c, {"a"})}, "list")
        ELSE {})
BindOps == {"encelg", "affg", "fac", "affgstar", "dec", "elog", "sch", "prm", "mod"}
BindCases(op, ps) ==
  LET c == BindBase(op, ps) IN
  <<{c @@ [comp |-> "base", aux |-> ContextText]},
    {x @@ [aux |-> ContextText] : x \in Other(c)},
    {c @@ [comp |-> "aux", aux |-> v] : v \in {"", "contexu", "contex", "dontext", "context ", "contextcontext", "acontext"}}>>
BindAll(ps) == FlattenSeq([k \in 1..Cardinality(BindOps) |-> LET op == SetToSeq(BindOps)[k] IN IF Chals(op, ps) = {} THEN <<>> ELSE BindCases(op, ps)])

----------------------------------------------------------------------------
Of(ps) == CASE Part = "c14" -> <<EncElgCases(ps), AffGCases(ps), FacCases(ps)>>
            [] Part = "c15" -> <<AffGStarCases(ps), DecCases(ps)>>
            [] Part = "c16" -> <<ElogCases(ps), SchCases(ps)>>
            [] Part = "c17" -> <<PrmCases(ps), ModCases(ps)>>
            [] Part = "c18" -> BindAll(ps)
ASSUME WritePlan(FlattenSeq([k \in 1..Cardinality(Params) |-> Of(SetToSeq(Params)[k])]))
=============================================================================
