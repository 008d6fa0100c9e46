----------------------------- MODULE SignedSpec -----------------------------
(* Signed integers with a declared bit bound, as used by every proof and by Paillier.
   A signed integer is an integer v with a bound b, |v| < 2^b, held in a word of w bits, b < w.

   A call is a record c = [op, w, a, ab, b, bb, e, m, n]: operation, word width, operands with
   their bounds, and what else the operation takes.  The result r = [panic, some, r] says whether
   the call panicked, refused (`some` false), or returned r.r = [v, b].
   Allowed(c, r) says which results the specification admits. *)
EXTENDS BigNat

Fits(v, b) == BNBits(v.mag) <= b
MaxMag(b) == BNSub(BNPow2(b), BNOne)         \* largest magnitude with b bits
WordMax(w) == MaxMag(w - 1)

MaxI(x, y) == IF x >= y THEN x ELSE y

\* result exactly v, with a bound that bounds it and fits the word
Exactly(r, w, v) == /\ ~r.panic /\ r.some
                    /\ r.r.v = v
                    /\ Fits(v, r.r.b) /\ r.r.b < w
ExactlyU(r, w, v) == /\ ~r.panic /\ r.some /\ r.r.v = v /\ Fits(v, r.r.b) /\ r.r.b <= w
Plain(r, v) == ~r.panic /\ r.some /\ r.r.v = v
Refused(r) == ~r.panic /\ ~r.some
\* the operators of the language refuse by panicking, the named methods by returning nothing
RefusedBy(op, r) == IF op THEN r.panic ELSE Refused(r)

\* sum or product of values with bounds ab, bb:
\* refused if the worst case overflows the word, done if the documented condition holds
SumNeverFits(w, ab, bb) == BNLt(WordMax(w), BNAdd(MaxMag(ab), MaxMag(bb)))
SumMustWork(w, ab, bb) == MaxI(ab, bb) + 1 < w
MulNeverFits(w, ab, bb) == BNLt(WordMax(w), BNMul(MaxMag(ab), MaxMag(bb)))
MulMustWork(w, ab, bb) == ab + bb < w

Partial(r, op, w, v, mustWork, never) ==
  IF mustWork THEN Exactly(r, w, v)
  ELSE IF never THEN RefusedBy(op, r)
  ELSE Exactly(r, w, v) \/ RefusedBy(op, r)

\* a value that is in range, with the bound given by the caller
Make(r, w, ok, v) == IF ok THEN Exactly(r, w, v) ELSE Refused(r)

Scale(c) == IF c.op \in {"rand", "xof_signed"} THEN BNOne ELSE c.a.mag
Hi(c) == BNMul(Scale(c), BNPow2(c.e - 1))                     \* scale * 2^(e-1)
InSampled(c, v) == IF v.neg THEN BNLt(v.mag, Hi(c)) ELSE BNLe(v.mag, Hi(c))
\* number of integers in the sampled interval, if small
IntervalSize(c) == BNMul(Scale(c), BNPow2(c.e))
SamplesOK(c, r) ==
  /\ ~r.panic
  /\ Len(r.vals) = c.n
  /\ \A i \in 1..Len(r.vals) : InSampled(c, r.vals[i].v) /\ Fits(r.vals[i].v, r.vals[i].b)
  /\ LET got == {r.vals[i].v : i \in 1..Len(r.vals)}
     IN IF BNBits(IntervalSize(c)) <= 7
        THEN Cardinality(got) = BNToInt(IntervalSize(c))      \* every value is reachable
        ELSE /\ \E v \in got : v.neg /\ BNLe(BNDiv(Hi(c), <<4>>), v.mag)
             /\ \E v \in got : ~v.neg /\ BNLe(BNDiv(Hi(c), <<4>>), v.mag)

Allowed(c, r) ==
  CASE c.op = "s_new" \/ c.op = "p_new" -> Make(r, c.w, c.ab < c.w /\ Fits(c.a, c.ab), c.a)
    [] c.op = "s_newpos" \/ c.op = "p_newpos" -> Make(r, c.w, c.ab < c.w /\ ~c.a.neg /\ Fits(c.a, c.ab), c.a)
    [] c.op = "u_new" -> IF c.ab <= c.w /\ Fits(c.a, c.ab) THEN ExactlyU(r, c.w, c.a) ELSE Refused(r)
    [] c.op = "s_mod" ->
         LET half == BNDiv(c.b.mag, BNTwo)
             v == IF BNLe(c.a.mag, half) THEN c.a ELSE Z(TRUE, BNSub(c.b.mag, c.a.mag))
         IN Make(r, c.w, c.e - 1 < c.w /\ Fits(v, c.e - 1), v)
    [] c.op \in {"s_neg", "s_negop", "s_negopr", "p_neg", "p_negop"} -> Exactly(r, c.w, ZNeg(c.a))
    [] c.op \in {"s_abs", "s_absv", "p_abs"} -> ExactlyU(r, c.w, Z(FALSE, c.a.mag))
    [] c.op \in {"s_pub", "p_val"} -> Exactly(r, c.w, c.a)
    [] c.op \in {"s_sign", "p_sign"} -> ~r.panic /\ r.some /\ r.r.v.neg = c.a.neg
    [] c.op \in {"s_wide", "p_wide"} -> Exactly(r, 2 * c.w, c.a)
    [] c.op = "u_wide" -> ExactlyU(r, 2 * c.w, c.a)
    [] c.op = "n_wide" -> Plain(r, c.a)
    [] c.op = "n_narrow" -> IF BNBits(c.a.mag) <= c.w THEN Plain(r, c.a) ELSE Refused(r)
    [] c.op = "n_mulwide" -> Plain(r, ZMul(c.a, c.b))
    [] c.op \in {"ss_add", "sp_add"} ->
         Partial(r, FALSE, c.w, ZAdd(c.a, c.b), SumMustWork(c.w, c.ab, c.bb), SumNeverFits(c.w, c.ab, c.bb))
    [] c.op = "ss_sub" ->
         Partial(r, FALSE, c.w, ZSub(c.a, c.b), SumMustWork(c.w, c.ab, c.bb), SumNeverFits(c.w, c.ab, c.bb))
    [] c.op \in {"ss_mul", "sp_mul"} ->
         Partial(r, FALSE, c.w, ZMul(c.a, c.b), MulMustWork(c.w, c.ab, c.bb), MulNeverFits(c.w, c.ab, c.bb))
    [] c.op \in {"ss_addop", "ss_addopr", "sp_addop"} ->
         Partial(r, TRUE, c.w, ZAdd(c.a, c.b), SumMustWork(c.w, c.ab, c.bb), SumNeverFits(c.w, c.ab, c.bb))
    [] c.op = "ss_subop" ->
         Partial(r, TRUE, c.w, ZSub(c.a, c.b), SumMustWork(c.w, c.ab, c.bb), SumNeverFits(c.w, c.ab, c.bb))
    [] c.op \in {"ss_mulop", "ss_mulopr", "sp_mulop"} ->
         Partial(r, TRUE, c.w, ZMul(c.a, c.b), MulMustWork(c.w, c.ab, c.bb), MulNeverFits(c.w, c.ab, c.bb))
    [] c.op = "sp_mulwide" -> Exactly(r, 2 * c.w, ZMul(c.a, c.b))
    [] c.op = "sp_mulwide_mixed" -> Exactly(r, 640, ZMul(c.a, c.b))
    [] c.op = "u_addmod" -> ExactlyU(r, c.w, Z(FALSE, AddMod(c.a.mag, c.b.mag, c.m)))
    [] c.op \in {"pow_s", "pow_p", "pow_u"} -> Plain(r, Z(FALSE, ZPowMod(c.b.mag, c.a, c.m)))
    [] c.op = "p_in" -> IF InPM2(c.a, c.e) THEN Exactly(r, c.w, c.a) ELSE Refused(r)
    [] c.op = "s_ensure" -> IF c.e < c.w - 1 /\ InPM2(c.a, c.e) THEN Exactly(r, c.w, c.a) ELSE Refused(r)
    [] c.op = "s_assert" -> IF InPM2(c.a, c.e) THEN Exactly(r, c.w, c.a) ELSE r.panic
    [] c.op \in {"rand", "rand_scaled", "rand_scaled_wide", "xof_signed"} ->
         IF c.e \in 1..(c.w - 1) THEN SamplesOK(c, r)
         \* outside of the domain: refused, or at least not wrong
         ELSE r.panic \/ (c.e > 0 /\ SamplesOK(c, r) /\ \A i \in 1..Len(r.vals) : r.vals[i].b < c.w)
=============================================================================
