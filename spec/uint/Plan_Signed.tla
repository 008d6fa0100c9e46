----------------------------- MODULE Plan_Signed -----------------------------
(* The calls to replay into the code: for each operation, all combinations of boundary bounds and
   boundary values (0, 1, the largest magnitude and its neighbours, powers of two), both signs,
   with the bound tight or slack. *)
EXTENDS SignedSpec, PlanKit

CONSTANTS Widths, Part, Deep

Case(op, w, a, ab, b, bb, e) ==
  [op |-> op, w |-> w, a |-> a, ab |-> ab, b |-> b, bb |-> bb, e |-> e, m |-> <<>>, n |-> 0]
U(op, w, a, ab) == Case(op, w, a, ab, ZZero, 0, 0)

\* magnitudes around 2^b, below 2^b
Mags(b) == {x \in {BNZero, BNOne, MaxMag(b), BNPow2(IF b = 0 THEN 0 ELSE b - 1),
                   MaxMag(IF b = 0 THEN 0 ELSE b - 1)} : BNBits(x) <= b}
Vals(b) == {Z(s, x) : s \in BOOLEAN, x \in Mags(b)}
Bounds(w) == {0, 1, 2, 15, w \div 2 - 1, w \div 2, w - 3, w - 2, w - 1}
Few(w) == IF Deep THEN Bounds(w) ELSE {0, 1, w \div 2 - 1, w \div 2, w - 2, w - 1}

Signed(w) == UNION {{<<v, b>> : v \in Vals(b)} : b \in Bounds(w)}
SignedFew(w) == UNION {{<<v, b>> : v \in Vals(b)} : b \in Few(w)}

\* words read as two's complement, whether or not they fit the bound claimed for them
WordsTC(w) == {Z(s, x) : s \in BOOLEAN, x \in UNION {Mags(b) \cup {BNPow2(b)} : b \in Bounds(w) \ {w - 1}} \cup {MaxMag(w - 1)}}
              \cup {Z(TRUE, BNPow2(w - 1)), Z(TRUE, BNPow2(w - 2))}
ClaimedBounds(w) == Bounds(w) \cup {w, w + 1, 2 * w}

Constructors(w) ==
  {U(op, w, a, b) : op \in {"s_new", "p_new", "s_newpos", "p_newpos"}, a \in WordsTC(w), b \in ClaimedBounds(w)}
  \cup {U("u_new", w, Z(FALSE, x), b) : x \in UNION {Mags(k) : k \in Bounds(w) \cup {w}}, b \in ClaimedBounds(w)}

Unary(w) == {U(op, w, x[1], x[2]) :
               op \in {"s_neg", "s_negop", "s_negopr", "p_neg", "p_negop", "s_abs", "s_absv", "p_abs", "s_pub", "p_val",
                       "s_sign", "p_sign", "s_wide", "p_wide"}, x \in Signed(w)}
            \cup {U("u_wide", w, Z(FALSE, x), w) : x \in UNION {Mags(k) : k \in Bounds(w) \cup {w}}}
            \cup {U("n_wide", w, Z(FALSE, x), w) : x \in UNION {Mags(k) : k \in Bounds(w) \cup {w}}}
            \cup {U("n_narrow", w, Z(FALSE, x), 0) :
                    x \in UNION {Mags(k) \cup {BNPow2(k)} : k \in Bounds(w) \cup {w, w + 1, w + 64, 2 * w - 2}}}
            \cup {Case("n_mulwide", w, Z(FALSE, x), 0, Z(FALSE, y), 0, 0) :
                    x \in UNION {Mags(k) : k \in {1, w \div 2, w}}, y \in UNION {Mags(k) : k \in {1, w \div 2, w - 1, w}}}

Binary1(w) == {Case(op, w, x[1], x[2], y[1], y[2], 0) :
                op \in {"ss_add", "ss_sub", "ss_mul", "sp_add", "sp_mul", "sp_mulwide"},
                x \in SignedFew(w), y \in SignedFew(w)}
Binary2(w) == {Case(op, w, Z(s, MaxMag(x)), x, Z(t, MaxMag(y)), y, 0) :
                op \in {"ss_addop", "ss_addopr", "ss_subop", "ss_mulop", "ss_mulopr", "sp_addop", "sp_mulop"},
                x \in Few(w), y \in Few(w), s \in BOOLEAN, t \in BOOLEAN}

Moduli(w) == {BNOfInt(7), BNOfInt(32749), BNSub(BNPow2(w \div 2), BNOne), BNAdd(BNPow2(w \div 2), BNOne),
              BNSub(BNPow2(w - 1), BNOfInt(3)), BNSub(BNPow2(w), BNOfInt(5)), BNAdd(BNPow2(w - 1), BNOne)}
Modulo(w) == UNION {{Case("s_mod", w, Z(FALSE, x), 0, Z(FALSE, m), 0, e) :
                 x \in {y \in {BNZero, BNOne, BNDiv(m, BNTwo), BNAdd(BNDiv(m, BNTwo), BNOne), BNSub(BNDiv(m, BNTwo), BNOne),
                         BNSub(m, BNOne), BNSub(m, BNTwo)} : BNLt(y, m)},
                 e \in {BNBits(m) - 1, BNBits(m), BNBits(m) + 1}} : m \in Moduli(w)}
AddModulo(w) == UNION {{[Case("u_addmod", w, Z(FALSE, x), w, Z(FALSE, y), w, 0) EXCEPT !.m = m] :
                 x \in {BNZero, BNOne, BNDiv(m, BNTwo), BNSub(m, BNOne)},
                 y \in {BNZero, BNOne, BNDiv(m, BNTwo), BNAdd(BNDiv(m, BNTwo), BNOne), BNSub(m, BNOne)}} : m \in Moduli(w)}
Mixed == {Case("sp_mulwide_mixed", 512, Z(s, MaxMag(ab)), ab, Z(t, MaxMag(bb)), bb, 0) :
             ab \in {0, 1, 128, 510, 511}, bb \in {0, 1, 64, 127}, s \in BOOLEAN, t \in BOOLEAN}

\* prime moduli, so every nonzero base is a unit
PowModuli(w) == {BNSub(BNPow2(89), BNOne), BNSub(BNPow2(127), BNOne)}
Powers1(w) == {[Case(op, w, x[1], x[2], Z(FALSE, g), 0, 0) EXCEPT !.m = m] :
                op \in {"pow_s", "pow_p"}, x \in Signed(w),
                m \in PowModuli(w), g \in {BNOne, BNTwo, BNOfInt(30011), MaxMag(88)}}
Powers2(w) == {[Case("pow_u", w, Z(FALSE, x), w, Z(FALSE, g), 0, 0) EXCEPT !.m = m] :
                x \in UNION {Mags(k) : k \in Bounds(w) \cup {w}},
                m \in PowModuli(w), g \in {BNZero, BNOne, BNTwo, BNOfInt(30011)}}

\* C23
Exps(w) == {1, 2, 3, 14, 15, 16, 17, w \div 2 - 1, w \div 2, w - 3, w - 2}
AroundExp(e) == {BNZero, BNOne, BNPow2(e - 1), BNSub(BNPow2(e - 1), BNOne), BNAdd(BNPow2(e - 1), BNOne),
                 MaxMag(e), BNPow2(IF e > 1 THEN e - 2 ELSE 0), BNPow2(e)}
Ranges(w) == UNION {{Case(op, w, Z(s, x), b, ZZero, 0, e) :
                 op \in {"p_in", "s_ensure", "s_assert"}, s \in BOOLEAN,
                 x \in AroundExp(e), b \in {w - 1}} : e \in Exps(w)}
             \cup UNION {{Case(op, w, Z(s, x), BNBits(x), ZZero, 0, e) :
                 op \in {"p_in", "s_ensure", "s_assert"}, s \in BOOLEAN, x \in AroundExp(e)} : e \in Exps(w) \ {w - 2}}
             \cup {Case(op, w, Z(s, x), w - 1, ZZero, 0, e) :
                 op \in {"p_in", "s_assert"}, s \in BOOLEAN, x \in {BNZero, MaxMag(w - 1), BNPow2(w - 2)}, e \in {w - 1, w}}
             \cup {Case("s_ensure", w, Z(s, x), w - 1, ZZero, 0, e) :
                 s \in BOOLEAN, x \in {BNZero, MaxMag(w - 1), BNPow2(w - 2)}, e \in {w - 1, w, w + 1}}

Sample(op, w, s, e, n) == [Case(op, w, Z(FALSE, s), 0, ZZero, 0, e) EXCEPT !.n = n]
Samplers(w) ==
  {Sample(op, w, BNOne, e, 40 * 2 ^ e) : op \in {"rand", "xof_signed"}, e \in {1, 2, 3, 4, 5}}
  \cup {Sample(op, w, BNOne, e, 80) : op \in {"rand", "xof_signed"}, e \in {7, 8, 9, 15, 16, 31, 32, 33, 64, w \div 2, w - 2, w - 1}}
  \cup {Sample(op, w, BNOfInt(s), e, 40 * s * 2 ^ e) :
          op \in {"rand_scaled", "rand_scaled_wide"}, s \in {1, 3, 5}, e \in {1, 2, 3}}
  \cup {Sample(op, w, s, e, 80) : op \in {"rand_scaled", "rand_scaled_wide"},
          s \in {BNOfInt(255), BNSub(BNPow2(w \div 2), BNOne), BNSub(BNPow2(w - 5), BNOne)}, e \in {2, 8, 33, w \div 4}}
  \cup {Sample(op, w, BNOne, e, 80) : op \in {"rand", "xof_signed", "rand_scaled", "rand_scaled_wide"}, e \in {0, w, w + 1}}

Parts(w) == CASE Part = "arith" -> <<Constructors(w), Unary(w), Binary1(w), Binary2(w), Modulo(w), AddModulo(w)>>
                 \o (IF w = 128 THEN <<Mixed>> ELSE <<>>)
              [] Part = "pow" -> <<Powers1(w), Powers2(w)>>
              [] Part = "range" -> <<Ranges(w)>>
              [] Part = "sample" -> <<Samplers(w)>>
ASSUME WritePlan(FlattenSeq([k \in 1..Cardinality(Widths) |-> Parts(SetToSeq(Widths)[k])]))
=============================================================================
