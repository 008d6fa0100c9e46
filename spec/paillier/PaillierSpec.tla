----------------------------- MODULE PaillierSpec -----------------------------
(* Paillier encryption, its keys, and ring-Pedersen commitments: what every call must return. *)
EXTENDS BigNat

PrimeBits(params) == IF params = "test" THEN 128 ELSE 1024

\* Enc_N(m; r) = (1 + N)^m r^N mod N^2, for any integer m
Enc(N, m, r) == LET N2 == BNMul(N, N)
                IN MulMod(AddMod(BNOne, ZMod(ZMul(m, ZOfNat(N)), N2), N2), BNPowMod(r, N, N2), N2)
\* the plaintext as decrypted: the representative in (-N/2, N/2)
Sym(m, N) == ZSym(ZMod(m, N), N)

\* A ciphertext as the homomorphic view knows it: [m, rho]; adding, subtracting and scaling
HAdd(N, x, y) == [m |-> ZAdd(x.m, y.m), rho |-> MulMod(x.rho, y.rho, N)]
HNeg(N, x) == [m |-> ZNeg(x.m), rho |-> BNInvMod(x.rho, N)]
HMul(N, x, k) == [m |-> ZMul(x.m, k), rho |-> ZPowMod(x.rho, k, N)]

None(r) == ~r.panic /\ ~r.some
\* r is a faithful account of a ciphertext with value c hiding h
Faithful(N, r, c, h) ==
  /\ ~r.panic /\ r.some
  /\ r.r.c = c
  /\ r.r.m = Sym(h.m, N)
  /\ BNBits(r.r.m.mag) <= r.r.mb
  /\ r.r.rho = BNMod(h.rho, N)
  /\ r.r.same

EncAllowed(e) ==
  LET N == BNMul(e.p, e.q)
      N2 == BNMul(N, N)
      r == e.res
      A == [m |-> e.a, rho |-> BNMod(e.ra, N)]
      B == [m |-> e.b, rho |-> BNMod(e.rb, N)]
      ca == Enc(N, e.a, e.ra)
      cb == Enc(N, e.b, e.rb)
      \* c^k mod N^2, for a signed k
      pw(c, k) == ZPowMod(c, k, N2)
  IN CASE e.op \in {"enc", "encw", "encp", "encpw"} -> Faithful(N, r, ca, A)
       [] e.op = "fresh" -> /\ ~r.panic /\ r.some
                            /\ BNLt(r.r.rho, N) /\ BNUnit(r.r.rho, N)
                            /\ Faithful(N, r, Enc(N, e.a, r.r.rho), [m |-> e.a, rho |-> r.r.rho])
       [] e.op \in {"add1", "add2", "add3"} -> Faithful(N, r, MulMod(ca, cb, N2), HAdd(N, A, B))
       [] e.op = "sub" -> Faithful(N, r, MulMod(ca, pw(cb, ZNeg(ZOfNat(BNOne))), N2), HAdd(N, A, HNeg(N, B)))
       [] e.op \in {"mul_ss", "mul_ps", "mulr_ss", "mulr_ps", "mul_sw", "mul_pw"} -> Faithful(N, r, pw(ca, e.b), HMul(N, A, e.b))
       [] e.op = "mask" -> /\ ~r.panic /\ r.some
                           /\ r.r.c = MulMod(ZPowMod(BNMod(e.ra, N), e.b, N), e.rb, N)
       [] e.op = "raw" -> /\ ~r.panic /\ r.some /\ r.r.c = e.ra /\ r.r.same
                          \* what was decrypted re-encrypts to the same ciphertext
                          /\ Enc(N, r.r.m, r.r.rho) = e.ra
                          /\ BNLt(r.r.rho, N) /\ BNLe(r.r.m.mag, BNDiv(N, BNTwo))
       \* ciphertexts of another key are refused
       [] e.op \in {"otheradd", "otherdec"} -> r.panic \/ ~r.some

----------------------------------------------------------------------------
(* Keys *)
KeyAllowed(e) ==
  LET p == e.p.mag
      q == e.q.mag
      N == BNMul(p, q)
      phi == BNMul(BNSub(p, BNOne), BNSub(q, BNOne))
      k == PrimeBits(e.params)
  IN /\ ~e.p.neg /\ ~e.q.neg
     /\ BNIsPrime(p) /\ BNIsPrime(q)
     /\ BNMod(p, <<4>>) = <<3>> /\ BNMod(q, <<4>>) = <<3>>
     /\ BNBits(p) = k /\ BNBits(q) = k /\ e.pb = k /\ e.qb = k
     /\ (e.gen => BNBits(N) = 2 * k)
     /\ e.n = N /\ e.ns = ZOfNat(N) /\ e.nb = 2 * k /\ e.nz = N /\ e.nwz = N /\ e.nn = N
     /\ e.phi = phi /\ e.phib >= BNBits(phi)
     /\ MulMod(e.iphi, phi, N) = BNOne /\ BNLt(e.iphi, N)
     /\ MulMod(e.in, N, phi) = BNOne /\ BNLt(e.in, phi) /\ e.inb >= BNBits(e.in)
     /\ \A i \in DOMAIN e.wire : e.wire[i] = N
     /\ e.again = <<e.p, e.q>>
     /\ e.eq

Square(x, p) == BNMod(x, p) = BNZero \/ BNPowMod(x, BNDiv(BNSub(p, BNOne), BNTwo), p) = BNOne
RnsAllowed(e) ==
  LET N == BNMul(e.p, e.q) IN
  /\ e.a = BNMod(e.x, e.p) /\ e.b = BNMod(e.x, e.q)
  /\ e.join = BNMod(e.x, N)
  /\ e.sq <=> (Square(e.x, e.p) /\ Square(e.x, e.q))
  /\ e.sq => /\ MulMod(e.sa, e.sa, e.p) = e.a /\ MulMod(e.sb, e.sb, e.q) = e.b
             /\ BNLt(e.sj, N) /\ MulMod(e.sj, e.sj, N) = BNMod(e.x, N)

----------------------------------------------------------------------------
(* Ring-Pedersen *)
IsSquareNum(n) == LET r == BNSqrt(n) IN BNMul(r, r) = n
\* the two primes from modulus and totient
PrimesOf(n, phi) == LET sum == BNAdd(BNSub(n, phi), BNOne)          \* p + q
                        disc == BNSub(BNMul(sum, sum), BNMul(<<4>>, n))
                        root == BNSqrt(disc)
                    IN <<BNDiv(BNSub(sum, root), BNTwo), BNDiv(BNAdd(sum, root), BNTwo)>>
SafePrime(p) == BNIsPrime(p) /\ BNIsPrime(BNDiv(p, BNTwo))

RPAllowed(e) ==
  LET pq == PrimesOf(e.n, e.phi)
      k == PrimeBits(e.params)
  IN /\ BNMul(pq[1], pq[2]) = e.n
     /\ BNMul(BNSub(pq[1], BNOne), BNSub(pq[2], BNOne)) = e.phi
     /\ \A i \in 1..2 : SafePrime(pq[i]) /\ BNBits(pq[i]) = k
     /\ e.nn = e.n
     /\ BNBits(e.lambda) <= e.lb
     /\ BNLt(e.lambda, BNDiv(e.phi, <<4>>))
     /\ BNLt(e.t, e.n) /\ BNLt(e.s, e.n) /\ BNUnit(e.t, e.n)
     /\ \A i \in 1..2 : Square(e.t, pq[i])
     /\ e.s = BNPowMod(e.t, e.lambda, e.n)
     /\ e.wire = <<e.n, e.t, e.s, e.n, e.n, e.t, e.s>>
     /\ BNLt(e.res, e.phi) /\ e.resb >= BNBits(e.phi)

CommitAllowed(e) ==
  LET pw(x, k) == ZPowMod(x, k, e.n)
      C(a, b) == MulMod(pw(e.s, a), pw(e.t, b), e.n)
      want == CASE e.op \in {"ss_sw", "sw_ss", "sw_sx", "ss_ss", "ps_pw", "pw_ps", "pw_px", "us_ss"} -> C(e.a, e.b)
                [] e.op \in {"zv_ss", "zv_us", "zv_ps"} -> C(ZZero, e.b)
                [] e.op \in {"zr_ss", "zr_pw"} -> C(e.a, ZZero)
                [] e.op = "prod" -> C(ZAdd(e.a, e.b), ZAdd(e.a, e.b))
                [] e.op = "pow_ps" -> C(ZMul(e.a, e.b), ZZero)
                [] e.op \in {"pow_ss", "pow_pw"} -> C(ZZero, ZMul(e.a, e.b))
  IN ~e.res.panic /\ e.res.some /\ e.res.r.c = want /\ e.res.r.same
=============================================================================
