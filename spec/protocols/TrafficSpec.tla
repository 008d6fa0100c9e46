----------------------------- MODULE TrafficSpec -----------------------------
(* What the parties of an honest session send, as functions of what each of them draws at random.
   A session is [proto, ids, input, keys, parties, sent]; sent is a sequence of [r, f, t, at, v] (round, from, to, place, number), with
   log for points: which multiple of the generator they are.
   Fresh* are the values that are drawn: [name, v, n, f] with 0 <= v < n (those of a range around zero are moved).
   *Sent says what all messages are, given these. *)
EXTENDS Curve, SequencesExt, FiniteSetsExt, TLC

Order(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* as the test parameters have it
LP == 160
Kappa == 32
\* the place of x in a map over S
Pos(S, x) == ToString(Cardinality({y \in S : y < x}))
Msg(e, r, f, t, at) == LET s == SelectSeq(e.sent, LAMBDA m : m.r = r /\ m.f = f /\ m.t = t /\ m.at = at) IN
  IF Len(s) = 1 THEN s[1] ELSE [v |-> <<>>, log |-> <<>>, missing |-> TRUE]
Is(m, x) == "missing" \notin DOMAIN m /\ m.v = x
IsG(m, x) == "missing" \notin DOMAIN m /\ "log" \in DOMAIN m /\ m.log = x
Log(e, r, f, at) == Msg(e, r, f, 0, at).log
Fresh(name, v, n, f) == [name |-> name, v |-> v, n |-> n, f |-> f]
Scal(C, name, v, f) == Fresh(name, v, C.q, f)
Bits(name, v, f) == Fresh(name, v, BNPow2(Kappa), f)
Sums(C, S, f(_)) == SSumSeq(C, [k \in 1..Cardinality(S) |-> f(Order(S)[k])])

---- \* signing ----
Sk(e, x) == e.keys[CHOOSE k \in 1..Len(e.keys) : e.keys[k].owner = x]
Modulus(k) == BNMul(k.p, k.q)
\* decryption, and the number the ciphertext was randomised with
Phi(k) == BNMul(BNSub(k.p, BNOne), BNSub(k.q, BNOne))
Rho(k, c) == LET N == Modulus(k) IN BNPowMod(BNMod(c, N), BNInvMod(N, Phi(k)), N)
Dec(k, c) == LET N == Modulus(k) N2 == BNMul(N, N) phi == Phi(k)
                 u == BNDiv(BNSub(BNPowMod(c, phi, N2), BNOne), N)
             IN ZSym(MulMod(u, BNInvMod(phi, N), N), N)
\* the number moved from around zero
Moved(z, bits) == ZAdd(z, ZOfNat(BNSub(BNPow2(bits - 1), BNOne)))

\* scalars are encrypted as numbers around zero
Own(e, x) == (CHOOSE o \in {e.input.old[k] : k \in 1..Len(e.input.old)} : o.owner = x).secret
SignDraws(e, C, ids) ==
  LET C1(x, at) == Msg(e, 1, x, 0, at).v
      one(x) == [k |-> Dec(Sk(e, x), C1(x, ".cap_k.ciphertext")), gamma |-> Dec(Sk(e, x), C1(x, ".cap_g.ciphertext")),
                 rho |-> Rho(Sk(e, x), C1(x, ".cap_k.ciphertext")), nu |-> Rho(Sk(e, x), C1(x, ".cap_g.ciphertext")),
                 y |-> Log(e, 1, x, ".cap_y"), a |-> Log(e, 1, x, ".cap_a1"), b |-> Log(e, 1, x, ".cap_b1"),
                 to |-> [z \in ids \ {x} |->
                   LET at(name) == Msg(e, 2, x, 0, name \o Pos(ids \ {x}, z) \o ".1.ciphertext").v
                       m == Modulus(Sk(e, z))
                       \* what hides the product in D: what D is randomised with, without what it has from K
                       rest(d, w) == MulMod(Rho(Sk(e, z), d), ZPowMod(Rho(Sk(e, z), C1(z, ".cap_k.ciphertext")), ZNeg(w), m), m)
                       g == Dec(Sk(e, x), C1(x, ".cap_g.ciphertext"))
                   IN [beta |-> Dec(Sk(e, x), at(".cap_fs.")), r |-> Rho(Sk(e, x), at(".cap_fs.")),
                       hbeta |-> Dec(Sk(e, x), at(".hat_cap_fs.")), hr |-> Rho(Sk(e, x), at(".hat_cap_fs.")),
                       \* what the receiver finds
                       alpha |-> Dec(Sk(e, z), at(".cap_ds.")), halpha |-> Dec(Sk(e, z), at(".hat_cap_ds.")),
                       s |-> rest(at(".cap_ds."), g), hs |-> rest(at(".hat_cap_ds."), ZSym(Own(e, x), C.q))]]]
  IN [x \in ids |-> one(x)]
SignSent(e, C, ids, d) ==
  LET q == C.q
      own(x) == Own(e, x)
      k(x) == ZMod(d[x].k, q)
      gamma(x) == ZMod(d[x].gamma, q)
      Gamma == Sums(C, ids, LAMBDA x : gamma(x))
      delta(x) == SAdd(C, SMul(C, k(x), gamma(x)), Sums(C, ids \ {x}, LAMBDA z : SAdd(C, ZMod(d[z].to[x].alpha, q), ZMod(d[x].to[z].beta, q))))
      chi(x) == SAdd(C, SMul(C, k(x), own(x)), Sums(C, ids \ {x}, LAMBDA z : SAdd(C, ZMod(d[z].to[x].halpha, q), ZMod(d[x].to[z].hbeta, q))))
      all == Sums(C, ids, delta)
      r == BNMod(EMulG(C, Gamma).x, q)
  IN /\ \A x \in ids :
          /\ d[x].k = ZSym(k(x), q) /\ d[x].gamma = ZSym(gamma(x), q)
          \* what is sent under a mask
          /\ IsG(Msg(e, 1, x, 0, ".cap_a2"), SAdd(C, SMul(C, d[x].a, d[x].y), k(x)))
          /\ IsG(Msg(e, 1, x, 0, ".cap_b2"), SAdd(C, SMul(C, d[x].b, d[x].y), gamma(x)))
          /\ IsG(Msg(e, 2, x, 0, ".cap_gamma"), gamma(x))
          /\ \A z \in ids \ {x} :
               /\ InPM2(d[x].to[z].beta, LP) /\ InPM2(d[x].to[z].hbeta, LP)
               /\ d[x].to[z].alpha = ZSub(ZMul(d[z].k, d[x].gamma), d[x].to[z].beta)
               /\ d[x].to[z].halpha = ZSub(ZMul(d[z].k, ZSym(own(x), q)), d[x].to[z].hbeta)
          /\ Is(Msg(e, 3, x, 0, ".delta"), delta(x))
          /\ IsG(Msg(e, 3, x, 0, ".cap_delta"), SMul(C, k(x), Gamma))
          /\ IsG(Msg(e, 3, x, 0, ".cap_s"), SMul(C, chi(x), Gamma))
          /\ Is(Msg(e, 4, x, 0, ".sigma"), SMul(C, SInv(C, all), SAdd(C, SMul(C, k(x), e.input.z), SMul(C, r, chi(x)))))
     /\ all = SMul(C, Sums(C, ids, k), Gamma)
SignFresh(e, C, ids, d) ==
  UNION {{Scal(C, "k", ZMod(d[x].k, C.q), x), Scal(C, "gamma", ZMod(d[x].gamma, C.q), x), Scal(C, "y", d[x].y, x), Scal(C, "a", d[x].a, x), Scal(C, "b", d[x].b, x),
          Fresh("rho", d[x].rho, Modulus(Sk(e, x)), x), Fresh("nu", d[x].nu, Modulus(Sk(e, x)), x)} : x \in ids} \cup
  UNION {UNION {LET t == d[x].to[z] IN
          {Fresh("beta", Moved(t.beta, LP).mag, BNPow2(LP), <<x, z>>), Fresh("hat_beta", Moved(t.hbeta, LP).mag, BNPow2(LP), <<x, z>>),
           Fresh("r", t.r, Modulus(Sk(e, x)), <<x, z>>), Fresh("hat_r", t.hr, Modulus(Sk(e, x)), <<x, z>>),
           Fresh("s", t.s, Modulus(Sk(e, z)), <<x, z>>), Fresh("hat_s", t.hs, Modulus(Sk(e, z)), <<x, z>>)} : z \in ids \ {x}} : x \in ids}

---- \* new keys ----
InitFresh(e, C, ids) ==
  UNION {{Scal(C, "x", Log(e, 2, x, ".cap_x"), x), Scal(C, "tau", Log(e, 2, x, ".cap_a"), x),
          Bits("rho", Msg(e, 2, x, 0, ".rho.byte_vec").v, x), Bits("u", Msg(e, 2, x, 0, ".u.byte_vec").v, x)} : x \in ids}
InitSent(e, C, ids) == \A x \in ids :
  LET me == (CHOOSE p \in {e.parties[k] : k \in 1..Len(e.parties)} : p.id = x).result IN IsG(Msg(e, 2, x, 0, ".cap_x"), me.secret)

---- \* auxiliary data ----
AuxFresh(e, ids) == UNION {{Bits("rid", Msg(e, 2, x, 0, ".rid.byte_vec").v, x), Bits("u", Msg(e, 2, x, 0, ".u.byte_vec").v, x)} : x \in ids}

---- \* changes of shares ----
At2(e, x, what, ids, z) == Log(e, 2, x, what \o Pos(ids, z) \o ".1")
Mask(e, C, ids, x, z) == SSub(C, Msg(e, 3, x, z, ".cap_c").v, At2(e, x, ".cap_xs.", ids, z))
RefreshFresh(e, C, ids) ==
  AuxFresh(e, ids) \cup
  UNION {UNION {{Scal(C, "change", At2(e, x, ".cap_xs.", ids, z), <<x, z>>), Scal(C, "tau", At2(e, x, ".cap_as.", ids, z), <<x, z>>),
                 Scal(C, "key", At2(e, x, ".cap_ys.", ids, z), <<x, z>>)} : z \in ids} : x \in ids} \cup
  UNION {{Scal(C, "mask", Mask(e, C, ids, x, z), <<x, z>>) : z \in ids \ {x}} : x \in ids}
RefreshSent(e, C, ids) == \A x \in ids :
  LET me == (CHOOSE p \in {e.parties[k] : k \in 1..Len(e.parties)} : p.id = x).result IN
  /\ Sums(C, ids, LAMBDA z : At2(e, x, ".cap_xs.", ids, z)) = BNZero
  /\ me.change = Sums(C, ids, LAMBDA z : At2(e, z, ".cap_xs.", ids, x))

---- \* shares for others ----
\* value of a polynomial
RECURSIVE Horner(_, _, _, _)
Horner(C, cs, k, x) == IF k > Len(cs) THEN BNZero ELSE SAdd(C, cs[k], SMul(C, x, Horner(C, cs, k + 1, x)))
Coefs(e, x) == [k \in 1..e.nt |-> Log(e, 1, x, ".public_polynomial." \o ToString(k - 1))]
ReshareFresh(e, C, olds) == UNION {{Scal(C, "coefficient", Coefs(e, x)[k], <<x, k>>) : k \in 2..e.nt} : x \in olds}
ReshareSent(e, C, olds, news) == \A x \in olds :
  LET old == CHOOSE o \in {e.input.old[k] : k \in 1..Len(e.input.old)} : o.owner = x
      shown(z) == (CHOOSE p \in {e.parties[k] : k \in 1..Len(e.parties)} : p.id = z).result.share
  IN /\ Coefs(e, x)[1] = old.secret
     /\ "missing" \in DOMAIN Msg(e, 1, x, 0, ".public_polynomial." \o ToString(e.nt))
     /\ Is(Msg(e, 1, x, 0, ".old_share_id"), old.own_id)
     /\ \A z \in news \ {x} : Is(Msg(e, 1, x, z, ".subshare"), Horner(C, Coefs(e, x), 1, shown(z).own_id))
     \* and only to them
     /\ \A k \in 1..Len(e.sent) : e.sent[k].t # 0 => e.sent[k].t \in news
=============================================================================
