------------------------------ MODULE Plan_Curve ------------------------------
EXTENDS CurveSpec, PlanKit
CONSTANTS Params, Part, Deep

Nothing == [a |-> <<>>, b |-> <<>>, s |-> <<>>, e |-> 0, z |-> ZZero, m |-> <<>>, n |-> 0, tweak |-> "none"]
Call(p, op) == [op |-> op, params |-> p] @@ Nothing

Mersenne(k) == BNSub(BNPow2(k), BNOne)
\* scalars: both ends, the middle, single bits, runs of ones, and some with no structure
Scal(C) == {BNZero, BNOne, BNTwo, BNOfInt(3), BNSub(C.q, BNOne), BNSub(C.q, BNTwo),
            BNDiv(C.q, BNTwo), BNAdd(BNDiv(C.q, BNTwo), BNOne), BNPow2(QBits(C) - 1), Mersenne(QBits(C) - 1),
            BNDiv(C.q, BNOfInt(7)), BNDiv(C.q, BNOfInt(2477)), BNPow2(16)}
Few(C) == {BNZero, BNOne, BNSub(C.q, BNOne), BNDiv(C.q, BNTwo), BNDiv(C.q, BNOfInt(7)), BNPow2(QBits(C) - 1)}
Seqs(C) == {<<>>, <<BNOne>>, <<BNSub(C.q, BNOne), BNOne>>, <<BNSub(C.q, BNOne), BNSub(C.q, BNOne)>>,
            <<BNOfInt(5), BNOfInt(7), BNDiv(C.q, BNOfInt(11))>>, <<BNOne, BNZero, BNTwo>>,
            <<BNDiv(C.q, BNTwo), BNDiv(C.q, BNOfInt(3)), BNDiv(C.q, BNOfInt(5)), BNDiv(C.q, BNOfInt(7)), BNOfInt(9)>>}

Bytes(p) == IF p = "test" THEN 24 ELSE 32

Unary(p) == LET C == CurveOf(p) IN
  {[Call(p, op) EXCEPT !.a = a] :
     op \in {"s_neg", "s_inv", "s_back", "x_neg", "p_base", "p_xbase", "p_x", "p_key"}, a \in Scal(C)}
  \cup {Call(p, op) : op \in {"p_gen", "p_id"}}
Binary(p) == LET C == CurveOf(p) IN
  {[Call(p, op) EXCEPT !.a = a, !.b = b] :
     op \in {"s_add", "s_sub", "s_mul"}, a \in Scal(C), b \in Scal(C)}
Variants(p) == LET C == CurveOf(p) IN
  {[Call(p, op) EXCEPT !.a = a, !.b = b] :
     op \in {"s_addref", "s_addas", "s_subas", "s_mulref", "s_mulas", "x_add1", "x_add2", "x_add3", "x_add4", "x_add5",
             "x_add6", "x_addas1", "x_addas2", "x_sub1", "x_sub2", "x_mul1", "x_mul2", "x_mul3", "x_mul4", "x_mul5",
             "x_mul6", "x_mul7"}, a \in {BNZero, BNSub(C.q, BNOne), BNDiv(C.q, BNOfInt(7))},
     b \in {BNOne, BNSub(C.q, BNTwo), BNDiv(C.q, BNOfInt(13))}}
Points(p) == LET C == CurveOf(p) IN
  {[Call(p, op) EXCEPT !.a = a, !.b = b] :
     op \in {"p_add", "p_mul1", "p_mul2", "p_mul3", "p_mul4", "p_mul5", "p_mul6", "p_mul7", "p_mul8", "p_eq"},
     a \in Few(C), b \in Few(C)}
Lists(p) == LET C == CurveOf(p) IN
  {[Call(p, op) EXCEPT !.s = s] : op \in {"s_sum", "s_sumref", "s_prod", "x_sum", "x_sumref", "p_sum", "p_sumref"}, s \in Seqs(C)}
Encodings(p) == LET C == CurveOf(p) IN
  {[Call(p, "s_bytes") EXCEPT !.a = a, !.e = Bytes(p), !.n = Bytes(p)] :
      a \in Scal(C) \cup {C.q, BNAdd(C.q, BNOne), Mersenne(8 * Bytes(p))} }
  \cup {[Call(p, "s_bytes") EXCEPT !.a = a, !.e = e, !.n = Bytes(p)] :
      a \in {BNOne, BNOfInt(255)}, e \in {1, 2, 4, 8, Bytes(p) - 1, Bytes(p) + 1, 2 * Bytes(p)}}
  \cup {[Call(p, "s_reduce") EXCEPT !.a = a] :
      a \in Scal(C) \cup {C.q, BNAdd(C.q, BNOne), BNMul(BNTwo, BNSub(BNPow2(QBits(C) - 1), BNOne)), Mersenne(QBits(C))}}
  \cup {[Call(p, "s_u64") EXCEPT !.a = a] : a \in {BNZero, BNOne, BNOfInt(65537), BNPow2(31), BNOfInt(2147483646),
      BNOfInt(2147483647)} \cup (IF p = "test" THEN {} ELSE {BNPow2(63), Mersenne(64)})}
Splits(p) == LET C == CurveOf(p) IN
  {[Call(p, "split") EXCEPT !.a = a, !.e = k] : a \in Scal(C), k \in 1..5}
  \cup {[Call(p, op) EXCEPT !.n = k] : op \in {"random", "random_nz"}, k \in 1..10}

Keys(C) == {BNOne, BNSub(C.q, BNOne), BNDiv(C.q, BNOfInt(7))}
Nonces(C) == {BNOne, BNTwo, BNDiv(C.q, BNOfInt(19)), BNDiv(C.q, BNOfInt(23)), BNSub(C.q, BNOfInt(5))}
Msgs(C) == {BNZero, BNOne, BNSub(C.q, BNOne), BNDiv(C.q, BNOfInt(29)), BNPow2(QBits(C) - 1)}
Tweaks == {"none", "neg_s", "r+1", "s+1", "m+1", "neg_m", "key", "neg_key", "r0", "s0", "keyinf", "swap"}
Signatures(p) == LET C == CurveOf(p) IN
  {[Call(p, "sig") EXCEPT !.a = x, !.b = k, !.m = m, !.tweak = t] :
     x \in Keys(C), k \in Nonces(C), m \in Msgs(C),
     t \in (IF Deep \/ p = "test" THEN Tweaks ELSE Tweaks)}

\* integers to convert: multiples of the order and their neighbours, up to the top of the word
UBits(p) == IF p = "test" THEN 256 ELSE 2048
IntMags(p, top) == LET C == CurveOf(p) IN
  UNION {{x, BNAdd(x, BNOne), IF x = <<>> THEN x ELSE BNSub(x, BNOne)} :
     x \in {BNZero, BNTwo, BNDiv(C.q, BNTwo), C.q, BNMul(C.q, BNTwo), BNMul(C.q, C.q), BNMul(C.q, BNPow2(64)),
            BNPow2(QBits(C)), BNPow2(63), BNPow2(64), BNPow2(top \div 2), BNPow2(top - 2), BNMul(C.q, BNPow2(top - 2 - QBits(C)))}}
  \cup {Mersenne(top - 1), BNMul(C.q, BNDiv(Mersenne(top - 1), C.q))}
Ints(p, op, top) ==
  {[Call(p, op) EXCEPT !.z = Z(s, x), !.e = b] : s \in BOOLEAN, x \in IntMags(p, top), b \in {top - 1}}
  \cup {[Call(p, op) EXCEPT !.z = Z(s, x), !.e = BNBits(x)] : s \in BOOLEAN, x \in IntMags(p, top)}
ScalarsOut(p) == LET C == CurveOf(p) IN
  {[Call(p, op) EXCEPT !.a = a] : op \in {"c_pub", "c_sec", "c_round", "c_roundp", "c_rounds"},
     a \in Scal(C) \cup {BNSub(C.q, BNOfInt(k)) : k \in 3..6} \cup {BNAdd(BNDiv(C.q, BNTwo), BNTwo), BNSub(BNDiv(C.q, BNTwo), BNOne)}
           \cup {BNPow2(k) : k \in 1..(QBits(C) - 1)}}

Parts(p) == CASE Part = "group" -> <<Unary(p), Binary(p), Variants(p), Points(p), Lists(p), Encodings(p), Splits(p), Signatures(p)>>
              [] Part = "conv" -> <<ScalarsOut(p), Ints(p, "c_from", UBits(p)), Ints(p, "c_sfrom", UBits(p)),
                                    Ints(p, "c_fromw", 2 * UBits(p)), Ints(p, "c_sfromw", 2 * UBits(p))>>
ASSUME WritePlan(FlattenSeq([k \in 1..Cardinality(Params) |-> Parts(SetToSeq(Params)[k])]))
=============================================================================
