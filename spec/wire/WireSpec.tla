------------------------------ MODULE WireSpec ------------------------------
(* What a serialized form stands for.  Meaning(c) of a call c is one of
     [v |-> "valid", x |-> value]     it must be read as x
     [v |-> "may", xs |-> values]     it may be refused, or read as one of these (forms that are not
                                      the usual one but say the same)
     [v |-> "bad"]                    it must be refused
   and reading never panics.  c.bytes is the raw byte string (a sequence of 0..255), which the
   human-readable form shows as text. *)
EXTENDS HashSpec, Curves

FieldLen(p) == IF p = "test" THEN 24 ELSE 32
Valid(x) == [v |-> "valid", xs |-> {x}]
May(xs) == [v |-> "may", xs |-> xs]
Bad == [v |-> "bad", xs |-> {}]

Rhs(C, x) == BNMod(BNAdd(BNAdd(BNMul(BNMul(x, x), x), BNMul(C.a, x)), C.b), C.p)
\* p = 3 (mod 4) for both curves
Root(C, r) == BNPowMod(r, BNDiv(BNAdd(C.p, BNOne), BNOfInt(4)), C.p)
IsSquare(C, r) == MulMod(Root(C, r), Root(C, r), C.p) = r
\* the points with this first coordinate
Lifts(C, x) == IF BNLt(x, C.p) /\ IsSquare(C, Rhs(C, x))
               THEN LET y == Root(C, Rhs(C, x)) IN {Pt(x, y), Pt(x, BNMod(BNSub(C.p, y), C.p))} ELSE {}

ScalarOf(p, s) == IF Len(s) = FieldLen(p) /\ BNLt(BE(s), CurveOf(p).q) THEN Valid(BE(s)) ELSE Bad
PointOf(p, s) ==
  LET C == CurveOf(p)
      n == FieldLen(p)
      x == BE(SubSeq(s, 2, n + 1))
  IN CASE s = <<0>> -> Valid(Inf)
       [] Len(s) = n + 1 /\ s[1] \in {2, 3} ->
            LET L == {P \in Lifts(C, x) : BNOdd(P.y) = (s[1] = 3)} IN IF L = {} THEN Bad ELSE [v |-> "valid", xs |-> L]
       \* compact: the first coordinate only
       [] Len(s) = n + 1 /\ s[1] = 5 -> May(Lifts(C, x))
       [] Len(s) = 2 * n + 1 /\ s[1] = 4 -> May(Lifts(C, x) \cap {Pt(x, BE(SubSeq(s, n + 2, 2 * n + 1)))})
       [] OTHER -> Bad
UintOf(len, s) == IF Len(s) = len THEN Valid(BE(s)) ELSE Bad
\* a signed number of a word of len bytes: sign, magnitude, and the bound on the bit size of the magnitude
SignedOf(len, neg, bound, s) ==
  LET m == BE(s)
      x == [v |-> Z(neg, m), b |-> bound]
  IN IF bound >= 8 * len \/ BNBits(m) > bound THEN Bad
     ELSE IF Len(s) = CeilDiv(bound, 8) /\ ~(neg /\ m = BNZero) THEN Valid(x) ELSE May({x})
BitsOf(n, s) == IF CeilDiv(n, 8) > Len(s) THEN Bad
                ELSE IF CeilDiv(n, 8) = Len(s) /\ \A k \in (n + 1)..(8 * Len(s)) : ~BitOf(s[Len(s)], (k - 1) % 8) THEN Valid(DrawBits(s, n))
                ELSE May({DrawBits(s, n)})

Raw(c) == CASE c.op = "scalar" -> ScalarOf(c.params, c.bytes)
            [] c.op = "point" -> PointOf(c.params, c.bytes)
            [] c.op = "uint" -> UintOf(32, c.bytes)
            \* arithmetic needs an odd modulus
            [] c.op = "modulus" -> LET n == UintOf(32, c.bytes) IN IF \A x \in n.xs : BNOdd(x) THEN n ELSE Bad
            [] c.op = "signed" -> SignedOf(32, c.neg, c.bound, c.bytes)
            [] c.op = "bits" -> BitsOf(c.bound, c.bytes)
            [] c.op = "hash" -> Valid(c.bytes)
\* text that is not the usual one
Meaning(c) == CASE c.text = "usual" -> Raw(c)
                [] c.text \in {"bare", "upper"} -> May(Raw(c).xs)
                [] c.text \in {"odd", "digit", "type"} -> Bad

Reads(c, r) == LET m == Meaning(c) IN
  /\ ~r.panic
  /\ m.v = "valid" => r.some
  /\ r.some => r.r \in m.xs
=============================================================================
