------------------------------ MODULE CurveSpec ------------------------------
(* The prime-order group, its scalar field, conversions between scalars and integers, and ECDSA
   signatures, as calls with their results.  A call c has [op, params, a, b, s, e, z, m, tweak];
   r = [panic, some, r]. *)
EXTENDS Curves

Some(r, v) == ~r.panic /\ r.some /\ r.r = v
None(r) == ~r.panic /\ ~r.some

RECURSIVE SProd(_, _)
SProd(C, s) == IF s = <<>> THEN BNOne ELSE SMul(C, Head(s), SProd(C, Tail(s)))
SProdMod(C, s) == BNMod(SProd(C, s), C.q)

\* a signed integer v with bound b is a representative of the scalar x
Represents(C, x, v, b) == ZMod(v, C.q) = x /\ BNBits(v.mag) <= b

NonceX(C, x) == BNMod(x, C.q)

SigOK(C, c, r) ==
  IF c.r # <<>> /\ c.sg # <<>> /\ ~c.vk.inf /\ ECDSAValid(C, c.vk, c.m, c.r, c.sg)
  THEN /\ ~r.panic /\ r.some
       /\ r.r.r = c.r
       /\ r.r.s \in {c.sg, SNeg(C, c.sg)}
       /\ LowS(C, r.r.s)
       /\ LET w == SInv(C, r.r.s)
              R == EAdd(C, EMulG(C, SMul(C, c.m, w)), EMul(C, c.vk, SMul(C, c.r, w)))
          IN /\ r.r.rec = (IF BNOdd(R.y) THEN 1 ELSE 0) + (IF BNLe(C.q, R.x) THEN 2 ELSE 0)
             /\ RecoveryFits(C, c.vk, c.m, c.r, r.r.s, r.r.rec, R)
  ELSE None(r)

Allowed(c) ==
  LET C == CurveOf(c.params)
      r == c.res
      A == EMulG(C, c.a)
      B == EMulG(C, c.b)
  IN
  CASE c.op \in {"s_add", "s_addref", "s_addas", "x_add1", "x_add2", "x_add3", "x_add4", "x_add5", "x_add6",
                 "x_addas1", "x_addas2"} -> Some(r, SAdd(C, c.a, c.b))
    [] c.op \in {"s_sub", "s_subas", "x_sub1", "x_sub2"} -> Some(r, SSub(C, c.a, c.b))
    [] c.op \in {"s_neg", "x_neg"} -> Some(r, SNeg(C, c.a))
    [] c.op \in {"s_mul", "s_mulref", "s_mulas", "x_mul1", "x_mul2", "x_mul3", "x_mul4", "x_mul5", "x_mul6", "x_mul7"} ->
         Some(r, SMul(C, c.a, c.b))
    [] c.op = "s_inv" -> IF c.a = <<>> THEN None(r) ELSE Some(r, SInv(C, c.a))
    [] c.op \in {"s_sum", "s_sumref", "x_sum", "x_sumref"} -> Some(r, SSumSeq(C, c.s))
    [] c.op = "s_prod" -> Some(r, SProdMod(C, c.s))
    [] c.op = "s_u64" -> Some(r, BNMod(c.a, C.q))
    [] c.op = "s_bytes" -> IF c.e = c.n /\ BNLt(c.a, C.q) THEN Some(r, c.a) ELSE None(r)
    [] c.op = "s_back" -> Some(r, c.a)
    [] c.op = "s_reduce" -> Some(r, BNMod(c.a, C.q))
    [] c.op = "p_gen" -> Some(r, Gen(C))
    [] c.op = "p_id" -> Some(r, Inf)
    [] c.op \in {"p_base", "p_xbase"} -> Some(r, A)
    [] c.op = "p_add" -> Some(r, EAdd(C, A, B))
    [] c.op \in {"p_mul1", "p_mul2", "p_mul3", "p_mul4", "p_mul5", "p_mul6", "p_mul7", "p_mul8"} -> Some(r, EMul(C, A, c.b))
    [] c.op \in {"p_sum", "p_sumref"} -> Some(r, EMulG(C, SSumSeq(C, c.s)))
    [] c.op = "p_x" -> A.inf \/ Some(r, NonceX(C, A.x))
    [] c.op = "p_eq" -> Some(r, A = B)
    [] c.op = "p_key" -> IF A.inf THEN None(r) ELSE Some(r, A)
    [] c.op = "split" -> /\ ~r.panic /\ r.some /\ Len(r.r) = c.e
                         /\ SSumSeq(C, r.r) = c.a
                         /\ \A k \in 1..Len(r.r) : BNLt(r.r[k], C.q)
    [] c.op = "random" -> ~r.panic /\ r.some /\ BNLt(r.r, C.q)
    [] c.op = "random_nz" -> ~r.panic /\ r.some /\ BNLt(r.r, C.q) /\ r.r # <<>>
    [] c.op = "c_pub" -> /\ ~r.panic /\ r.some /\ Represents(C, c.a, r.r.v, r.r.b) /\ ~r.r.v.neg /\ BNLt(r.r.v.mag, C.q)
    [] c.op = "c_sec" -> /\ ~r.panic /\ r.some /\ Represents(C, c.a, r.r.v, r.r.b)
                         /\ BNLe(r.r.v.mag, BNDiv(C.q, BNTwo))
    [] c.op \in {"c_from", "c_fromw", "c_sfrom", "c_sfromw"} -> Some(r, ZMod(c.z, C.q))
    [] c.op \in {"c_round", "c_roundp", "c_rounds"} -> Some(r, c.a)
=============================================================================
