----------------------------- MODULE Plan_Honest -----------------------------
(* Witnesses to prove things about: the ends of every range, zero, units, extreme scalars and keys
   (Part = "c13"), or many runs of the provers with different randomness (Part = "c30"). *)
EXTENDS HonestSpec, Primes, PlanKit
CONSTANTS Part, Params, Deep

Dec1(x) == BNSub(x, BNOne)
Rnd(k, m) == BNPowMod(BNOfInt(7 + 2 * k), BNAdd(BNPow2(61), BNOfInt(12345 + k)), m)
Unit(k, m) == LET x == Rnd(k, m) IN IF BNUnit(x, m) THEN x ELSE BNTwo
RndZ(k, b) == Z(k % 2 = 1, Rnd(k, BNPow2(b)))
Hi(e) == ZOfNat(BNPow2(e - 1))
Lo(e) == Z(TRUE, Dec1(BNPow2(e - 1)))
Inside(e) == {Hi(e), Lo(e), ZZero, ZOfInt(1), ZOfInt(-1)}

\* two arrangements of keys
Arr(b) == <<[p0 |-> Low(b), q0 |-> Mid(b), p1 |-> High(b), q1 |-> Low2(b), hn |-> BNMul(High2(b), Mid(b))],
            [p0 |-> High(b), q0 |-> High2(b), p1 |-> Low(b), q1 |-> Low2(b), hn |-> BNMul(Low(b), Low2(b))],
            [p0 |-> Low(b), q0 |-> Low2(b), p1 |-> Mid(b), q1 |-> High(b), hn |-> BNMul(High(b), High2(b))]>>
ArrTest == Arr(128)
Arr112 == IF "p112" \in Params THEN Arr(1024) ELSE <<>>
Keys(ps) == IF ps = "test" THEN ArrTest ELSE Arr112

Base(op, ps, k, id, hide) == LET a == Keys(ps)[k] IN
  a @@ [op |-> op, params |-> ps, id |-> id, hide |-> hide, ht |-> Unit(1, a.hn), hs |-> Unit(2, a.hn), aux |-> <<1, 2, 3>>]
WithAux(c, aux) == [c EXCEPT !.aux = aux]
qq(ps) == CurveOf(ps).q
Sc(ps) == {BNOne, Dec1(qq(ps)), Rnd(31, qq(ps))}
Sc0(ps) == Sc(ps) \cup {BNZero}
Rhos(n) == {BNOne, Dec1(n), Unit(9, n)}
DecY(ps, n) == EllP(ps) + Eps(ps) + 1 + CeilLog2(n)

EncElg(ps, k, id, h, x, a, b, rho) == Base("encelg", ps, k, id, h) @@ [w |-> [x |-> x, a |-> a, b |-> b, rho |-> rho]]
Aff(op, ps, k, id, h, x, y, cc, rho, rhoy, rhoc) ==
  Base(op, ps, k, id, h) @@ [w |-> [x |-> x, y |-> y, c |-> cc, rho |-> rho, rhoy |-> rhoy, rhoc |-> rhoc]]
Dec(ps, k, id, h, x, y, cc, a, n, rho, rhoc) ==
  Base("dec", ps, k, id, h) @@ [w |-> [x |-> x, y |-> y, c |-> cc, a |-> a, parties |-> n, rho |-> rho, rhoc |-> rhoc]]
NoW == [none |-> 0]
n0(ps, k) == BNMul(Keys(ps)[k].p0, Keys(ps)[k].q0)
n1(ps, k) == BNMul(Keys(ps)[k].p1, Keys(ps)[k].q1)
Big(ps) == {ZZero, RndZ(4, 2 * PrimeBits(ps) - 2), RndZ(5, 2 * PrimeBits(ps) - 2)}

C13(ps) ==
  LET ks == IF ps = "test" THEN {1, 2} ELSE {1}
      L0 == Ell(ps)  LP == EllP(ps)
      ns == IF Deep THEN 2..17 ELSE {2, 3, 4, 5, 8, 9}
  IN <<
  {EncElg(ps, k, 0, FALSE, x, a, b, Unit(9, n0(ps, k))) : k \in ks, x \in Inside(L0), a \in Sc(ps), b \in Sc(ps)},
  {EncElg(ps, 1, 0, FALSE, x, BNTwo, BNTwo, rho) : x \in {Hi(L0), Lo(L0)}, rho \in Rhos(n0(ps, 1))},
  {WithAux(EncElg(ps, 1, 1, FALSE, Hi(L0), BNTwo, BNTwo, BNTwo), aux) : aux \in {<<>>, <<0>>, <<255, 0>>}},
  {Aff("affg", ps, k, 0, FALSE, x, y, cc, BNTwo, BNTwo, BNTwo) : k \in ks, x \in Inside(L0), y \in Inside(LP), cc \in Big(ps)},
  {Aff("affg", ps, 1, 0, FALSE, Hi(L0), Lo(LP), ZOfInt(-1), r, ry, rc)
     : r \in Rhos(n0(ps, 1)), ry \in Rhos(n1(ps, 1)), rc \in Rhos(n0(ps, 1))},
  {Base("fac", ps, k, id, FALSE) @@ [w |-> NoW] : k \in 1..3, id \in 1..4},
  {WithAux(Base("elog", ps, 1, 0, FALSE), <<7>>) @@ [w |-> [x |-> x, b |-> b, a |-> a, g |-> g]] : x \in Sc0(ps), b \in Sc0(ps), a \in Sc0(ps), g \in Sc0(ps)},
  {WithAux(Base("sch", ps, 1, id, FALSE), aux) @@ [w |-> [x |-> x]] : x \in Sc0(ps), id \in 1..3, aux \in {<<>>, <<1>>}},
  {Base("mod", ps, k, id, FALSE) @@ [w |-> NoW] : k \in 1..3, id \in (IF ps = "test" THEN 1..8 ELSE 1..1)}>>
  \o (IF ps = "test" THEN <<
  {Aff("affgstar", ps, k, 0, FALSE, x, y, cc, BNTwo, BNTwo, BNTwo) : k \in ks, x \in Inside(L0), y \in Inside(LP), cc \in Big(ps)},
  {Dec(ps, k, 0, FALSE, x, y, ZOfInt(-5), Rnd(3, qq(ps)), n, BNTwo, BNTwo)
     : <<k, n, x, y>> \in {<<k, n, x, y>> \in ks \X ns \X Inside(L0) \X UNION {Inside(DecY(ps, n)) : n \in ns} : y \in Inside(DecY(ps, n))}},
  {Dec(ps, 1, 0, FALSE, ZOfInt(3), ZOfInt(5), cc, a, 3, r, rc) : cc \in Big(ps), a \in Sc(ps), r \in Rhos(n0(ps, 1)), rc \in Rhos(n0(ps, 1))},
  {Base("prm", ps, 1, id, FALSE) @@ [w |-> NoW] : id \in 1..6}>> ELSE <<>>)

C30(ps) ==
  LET L0 == Ell(ps)  LP == EllP(ps)
      ids == IF Deep THEN 1..200 ELSE 1..96
      few == IF Deep THEN 1..12 ELSE 1..5
      sc(k) == Rnd(k, qq(ps)) IN <<
  {EncElg(ps, 1, id, TRUE, RndZ(id, L0 - 1), sc(id), sc(id + 1000), Unit(id, n0(ps, 1))) : id \in ids},
  {Aff("affg", ps, 1 + (id % 2), id, TRUE, RndZ(id, L0 - 1), RndZ(id + 1, LP - 1), RndZ(id, LP), Unit(id, n0(ps, 1 + (id % 2))),
       Unit(id, n1(ps, 1 + (id % 2))), Unit(3, n0(ps, 1 + (id % 2)))) : id \in ids},
  {Base("fac", ps, 1 + (id % 3), id, TRUE) @@ [w |-> NoW] : id \in ids},
  {Base("elog", ps, 1, id, TRUE) @@ [w |-> [x |-> sc(id), b |-> sc(id + 1), a |-> sc(id + 2), g |-> sc(id + 3)]] : id \in ids},
  {Base("sch", ps, 1, id, TRUE) @@ [w |-> [x |-> sc(id)]] : id \in ids},
  {Base("mod", ps, 1 + (id % 3), id, TRUE) @@ [w |-> NoW] : id \in (IF ps = "test" THEN 1..24 ELSE 1..3)}>>
  \o (IF ps = "test" THEN <<
  {Aff("affgstar", ps, 1, id, TRUE, RndZ(id, L0 - 1), RndZ(id + 1, LP - 1), RndZ(id, LP), Unit(id, n0(ps, 1)), Unit(id, n1(ps, 1)), BNTwo) : id \in few},
  {Dec(ps, 1, id, TRUE, RndZ(id, L0 - 1), RndZ(id + 1, LP - 1), RndZ(id, LP), sc(id), 3, Unit(id, n0(ps, 1)), BNTwo) : id \in few},
  {Base("prm", ps, 1, id, TRUE) @@ [w |-> NoW] : id \in 1..6}>> ELSE <<>>)

Of(ps) == IF Part = "c13" THEN C13(ps) ELSE C30(ps)
ASSUME WritePlan(FlattenSeq([k \in 1..Cardinality(Params) |-> Of(SetToSeq(Params)[k])]))
=============================================================================
