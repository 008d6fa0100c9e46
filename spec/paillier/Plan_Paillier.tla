---------------------------- MODULE Plan_Paillier ----------------------------
EXTENDS Primes, PlanKit
CONSTANTS Params, Part, Deep

Keys(params) == LET k == PrimeBits(params) IN
  IF params = "test" THEN {<<Low(k), Low2(k)>>, <<High(k), High2(k)>>, <<High2(k), Low(k)>>, <<Low(k), Mid(k)>>}
  ELSE {<<Low(k), High(k)>>} \cup (IF Deep THEN {<<Mid(k), Low2(k)>>, <<High(k), High2(k)>>} ELSE {})

Blank == [a |-> ZZero, b |-> ZZero, ab |-> 0, bb |-> 0, ra |-> BNOne, rb |-> BNOne, n |-> 0, p2 |-> BNZero]
Case(params, key, op) == [op |-> op, params |-> params, p |-> key[1], q |-> key[2]] @@ Blank

Signs(xs) == {Z(s, x) : s \in BOOLEAN, x \in xs}
Dec(x) == BNSub(x, BNOne)
\* plaintexts: around 0, around half the modulus (the wrap), the largest word
Plain(params, N) == LET w == 2 * PrimeBits(params) h == BNDiv(N, BNTwo) IN
  Signs({BNZero, BNOne, BNTwo, h, Dec(h), BNAdd(h, BNOne), BNPow2(w \div 2), BNPow2(w - 2), Dec(BNPow2(w - 1))})
FewPlain(params, N) == LET w == 2 * PrimeBits(params) h == BNDiv(N, BNTwo) IN
  Signs({BNZero, BNOne, h, Dec(BNPow2(w - 1)), BNPow2(w \div 2)})
WidePlain(params, N) == LET w == 4 * PrimeBits(params) IN
  Signs({BNZero, BNOne, N, Dec(N), BNAdd(N, BNOne), BNMul(N, BNDiv(N, <<4>>)), Dec(BNPow2(w - 1)), BNPow2(w - 2), BNDiv(N, BNTwo)})
Tight(z) == BNBits(z.mag)
Rhos(N) == {BNOne, BNTwo, Dec(N), BNDiv(N, <<7>>), BNPow2(100)}
UnitsOf(N, S) == {r \in S : BNUnit(r, N)}

W(params) == 2 * PrimeBits(params)

EncCases(params) == LET ks == Keys(params) IN
  {[Case(params, k, op) EXCEPT !.a = a, !.ab = b, !.ra = r] :
     op \in {"enc", "encp"}, k \in ks, a \in UNION {Plain(params, BNMul(k[1], k[2])) : k \in ks},
     b \in {W(params) - 1}, r \in {BNTwo, BNPow2(100)}}
EncTight(params) == LET ks == Keys(params) IN
  {[Case(params, k, op) EXCEPT !.a = a, !.ab = Tight(a), !.ra = Dec(BNMul(k[1], k[2]))] :
     op \in {"enc", "encp"}, k \in ks, a \in UNION {Plain(params, BNMul(k[1], k[2])) : k \in ks}}
EncWide(params) == LET ks == Keys(params) IN
  UNION {{[Case(params, k, op) EXCEPT !.a = a, !.ab = 2 * W(params) - 1, !.ra = r] :
     op \in {"encw", "encpw"}, a \in WidePlain(params, BNMul(k[1], k[2])), r \in {BNDiv(BNMul(k[1], k[2]), <<7>>)}} : k \in ks}
Fresh(params) == LET ks == Keys(params) IN
  {[Case(params, k, "fresh") EXCEPT !.a = a, !.ab = 64, !.n = n] : k \in ks, a \in Signs({BNOne, BNPow2(60)}), n \in 1..(IF params = "test" THEN 6 ELSE 1)}
AddCases(params) == LET ks == Keys(params) IN
  UNION {{[Case(params, k, op) EXCEPT !.a = a, !.ab = W(params) - 1, !.b = b, !.bb = W(params) - 1, !.ra = BNTwo, !.rb = BNDiv(BNMul(k[1], k[2]), <<7>>)] :
     op \in {"add3", "sub"}, a \in FewPlain(params, BNMul(k[1], k[2])), b \in FewPlain(params, BNMul(k[1], k[2]))} : k \in ks}
AddVariants(params) == LET ks == Keys(params) IN
  {[Case(params, k, op) EXCEPT !.a = Z(TRUE, BNPow2(50)), !.ab = 60, !.b = b, !.bb = 61, !.ra = BNTwo, !.rb = BNPow2(90)] :
     op \in {"add1", "add2"}, k \in ks, b \in Signs({BNOne, BNPow2(60)})}
Factors(params, N) == Signs({BNZero, BNOne, BNTwo, BNPow2(64), BNDiv(N, BNTwo), Dec(BNPow2(W(params) - 1))})
MulCases(params) == LET ks == Keys(params) IN
  UNION {{[Case(params, k, op) EXCEPT !.a = a, !.ab = W(params) - 1, !.b = b, !.bb = IF t THEN Tight(b) ELSE W(params) - 1, !.ra = BNTwo] :
     op \in {"mul_ss", "mul_ps"}, a \in Signs({BNOne, BNDiv(BNMul(k[1], k[2]), BNTwo)}), b \in Factors(params, BNMul(k[1], k[2])), t \in BOOLEAN}
     : k \in (IF params = "test" THEN ks ELSE {CHOOSE k \in ks : TRUE})}
MulVariants(params) == LET ks == Keys(params) IN
  {[Case(params, k, op) EXCEPT !.a = Z(TRUE, BNPow2(50)), !.ab = 60, !.b = b, !.bb = 70, !.ra = BNTwo] :
     op \in {"mulr_ss", "mulr_ps"}, k \in ks, b \in Signs({BNOne, BNPow2(69)})}
  \cup UNION {{[Case(params, k, op) EXCEPT !.a = Z(TRUE, BNPow2(50)), !.ab = 60, !.b = b, !.bb = 2 * W(params) - 1, !.ra = BNTwo] :
     op \in {"mul_sw", "mul_pw"}, b \in Signs({BNZero, BNOne, BNMul(k[1], k[2]), Dec(BNPow2(2 * W(params) - 1))})} : k \in ks}
Masks(params) == LET ks == Keys(params) IN
  UNION {{[Case(params, k, "mask") EXCEPT !.b = b, !.bb = IF t THEN Tight(b) ELSE W(params) - 1, !.ra = r, !.rb = s] :
     b \in Signs({BNZero, BNOne, BNPow2(31), Dec(BNPow2(W(params) - 1))}), t \in BOOLEAN,
     r \in {BNTwo, Dec(BNMul(k[1], k[2]))}, s \in {BNOne, BNDiv(BNMul(k[1], k[2]), <<7>>)}} : k \in ks}
Raw(params) == LET ks == Keys(params) IN
  UNION {LET N == BNMul(k[1], k[2]) N2 == BNMul(N, N) IN
     {[Case(params, k, "raw") EXCEPT !.ra = c] :
        c \in UnitsOf(N, {BNOne, BNTwo, Dec(N2), Dec(N), BNAdd(N, BNOne), BNDiv(N2, <<3>>), BNDiv(N2, BNTwo), BNPow2(4 * PrimeBits(params) - 3)})} : k \in ks}
Others(params) == LET ks == Keys(params) IN
  {[Case(params, k, op) EXCEPT !.a = Z(FALSE, BNTwo), !.ab = 10, !.p2 = Mid(PrimeBits(params))] :
     op \in {"otheradd", "otherdec"}, k \in {k \in ks : k[2] # Mid(PrimeBits(params))}}

KeyCases(params) == {Case(params, k, "key") : k \in Keys(params)}

\* ring-Pedersen: moduli and bases, exponents of every supported width
RPs(params) == LET k == PrimeBits(params) IN
  {LET n == BNMul(x[1], x[2]) t == MulMod(x[3], x[3], n) IN [n |-> n, t |-> t, s |-> BNPowMod(t, x[4], n)] :
     x \in {<<Low(k), High(k), BNTwo, BNPow2(77)>>, <<High2(k), Mid(k), BNDiv(High(k), <<5>>), BNSub(BNPow2(2 * k - 3), BNOfInt(9))>>}}
RPCase(params, g, op) == [op |-> op, params |-> params, n |-> g.n, t |-> g.t, s |-> g.s, a |-> ZZero, b |-> ZZero, ab |-> 0, bb |-> 0]
Exps(w) == Signs({BNZero, BNOne, BNPow2(w \div 2), Dec(BNPow2(w - 1))})
FewExps(w) == {Z(FALSE, BNOne), Z(TRUE, BNPow2(w \div 3)), Z(TRUE, Dec(BNPow2(w - 1)))}
X(params) == IF params = "test" THEN 640 ELSE 5120
RPPair(params, op, wa, wb) ==
  {[RPCase(params, g, op) EXCEPT !.a = a, !.ab = wa - 1, !.b = b, !.bb = wb - 1] :
     g \in RPs(params), a \in (IF params = "test" THEN Exps(wa) ELSE FewExps(wa)), b \in (IF params = "test" THEN Exps(wb) ELSE FewExps(wb))}
RPTight(params, op, wa, wb) ==
  {[RPCase(params, g, op) EXCEPT !.a = a, !.ab = Tight(a), !.b = b, !.bb = Tight(b)] :
     g \in RPs(params), a \in FewExps(wa), b \in FewExps(wb)}
NatA(S) == {c \in S : ~c.a.neg}
NatB(S) == {c \in S : ~c.b.neg}
RPCases(params) == LET w == W(params) IN
  <<RPPair(params, "ss_sw", w, 2 * w), RPPair(params, "sw_ss", 2 * w, w), RPPair(params, "sw_sx", 2 * w, X(params)),
    RPPair(params, "ss_ss", w, w), RPPair(params, "ps_pw", w, 2 * w), RPPair(params, "pw_ps", 2 * w, w),
    RPPair(params, "pw_px", 2 * w, X(params)), NatA(RPPair(params, "us_ss", w, w)), RPPair(params, "zv_ss", w, w),
    NatB(RPPair(params, "zv_us", w, w)), RPPair(params, "zv_ps", w, w), RPPair(params, "zr_ss", w, w), RPPair(params, "zr_pw", 2 * w, w),
    RPPair(params, "prod", w, w), RPPair(params, "pow_ps", w, w), RPPair(params, "pow_ss", w, w), RPPair(params, "pow_pw", w, 2 * w),
    RPTight(params, "ss_sw", w, 2 * w), RPTight(params, "pw_ps", 2 * w, w), RPTight(params, "prod", w, w), RPTight(params, "sw_sx", 2 * w, X(params))>>

Parts(p) == CASE Part = "enc" -> <<EncCases(p), EncTight(p), EncWide(p), Fresh(p), AddCases(p), AddVariants(p), MulCases(p), MulVariants(p),
                                   Masks(p), Raw(p), Others(p)>>
              [] Part = "keys" -> <<KeyCases(p)>>
              [] Part = "rp" -> RPCases(p)
ASSUME WritePlan(FlattenSeq([k \in 1..Cardinality(Params) |-> Parts(SetToSeq(Params)[k])]))
=============================================================================
