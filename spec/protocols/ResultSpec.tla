----------------------------- MODULE ResultSpec -----------------------------
(* What the results of the protocols have to be, for the parties that have one: rs is a sequence of pairs
   (party, result), in is what the parties started with. *)
EXTENDS SharingSpec

PrimeBits(params) == IF params = "test" THEN 128 ELSE 1024
IdsOf(s) == {s[k] : k \in 1..Len(s)}
AllSame(rs, f(_)) == \A k \in 1..Len(rs) : f(rs[k][2]) = f(rs[1][2])
\* shares of one key among ids; every result is the share of its owner
KeyOk(C, rs, ids) ==
  /\ AllSame(rs, LAMBDA r : r.public) /\ AllSame(rs, LAMBDA r : r.vk)
  /\ \A k \in 1..Len(rs) : LET r == rs[k][2] IN
       /\ r.owner = rs[k][1]
       /\ KeySet(r.public) = ids /\ Len(r.public) = Cardinality(ids)
       /\ At(r.public, r.owner) = EMulG(C, r.secret) /\ r.secret # <<>> /\ BNLt(r.secret, C.q)
       /\ r.vk = ESumSeq(C, Vals(r.public)) /\ ~r.vk.inf
\* and if everybody's is known, they add up
KeyWhole(C, rs, ids) == Len(rs) = Cardinality(ids) => EMulG(C, SSumSeq(C, [k \in 1..Len(rs) |-> rs[k][2].secret])) = rs[1][2].vk
Different(rs) == Distinct([k \in 1..Len(rs) |-> rs[k][2].secret])

\* auxiliary data
AuxOk(params, rs, ids, aux(_)) ==
  /\ AllSame(rs, LAMBDA r : aux(r).public)
  /\ \A k \in 1..Len(rs) : LET r == aux(rs[k][2]) me == At(r.public, r.owner) IN
       /\ r.owner = rs[k][1]
       /\ KeySet(r.public) = ids /\ Len(r.public) = Cardinality(ids)
       /\ me.n = BNMul(r.p, r.q) /\ r.p # r.q
       /\ \A p \in {r.p, r.q} : BNBits(p) = PrimeBits(params) /\ p[1] % 4 = 3
  /\ LET t == aux(rs[1][2]).public
         ns == [k \in 1..Len(t) |-> t[k][2].n]
         rns == [k \in 1..Len(t) |-> t[k][2].rn]
     IN /\ Distinct(ns \o rns)
        /\ \A k \in 1..Len(t) : LET a == t[k][2] IN
             /\ \A m \in {a.n, a.rn} : BNOdd(m) /\ BNBits(m) \in {2 * PrimeBits(params), 2 * PrimeBits(params) - 1}
             /\ \A b \in {a.t, a.s} : BNLt(<<1>>, b) /\ BNLt(b, a.rn) /\ BNUnit(b, a.rn)
             /\ a.t # a.s

\* refresh: in.old the shares before, in.vk the key
RefreshOk(C, params, rs, ids, in) ==
  /\ AuxOk(params, rs, ids, LAMBDA r : r.aux)
  /\ AllSame(rs, LAMBDA r : r.public)
  /\ \A k \in 1..Len(rs) : LET r == rs[k][2] old == CHOOSE o \in {in.old[m] : m \in 1..Len(in.old)} : o.owner = r.owner IN
       /\ r.owner = rs[k][1] /\ r.aux.owner = r.owner
       /\ KeySet(r.public) = ids /\ Len(r.public) = Cardinality(ids)
       /\ ESumSeq(C, Vals(r.public)).inf
       /\ At(r.public, r.owner) = EMulG(C, r.change)
       /\ Cardinality(ids) > 1 => r.change # <<>>
       \* ... and when it is applied
       /\ r.updated = "ok"
       /\ r.new.owner = r.owner /\ r.new.secret = SAdd(C, old.secret, r.change)
       /\ KeySet(r.new.public) = ids
       /\ \A y \in ids : At(r.new.public, y) = EAdd(C, At(old.public, y), At(r.public, y))
       /\ r.new.vk = in.vk
  /\ Len(rs) = Cardinality(ids) => SSumSeq(C, [k \in 1..Len(rs) |-> rs[k][2].change]) = <<>>

\* signatures: in.vk the key, in.m the message
SignatureOk(C, rs, in) ==
  /\ AllSame(rs, LAMBDA r : r)
  /\ LET r == rs[1][2] z == BNMod(in.m, C.q) IN
     /\ in.z = z
     /\ ECDSAValid(C, in.vk, z, r.r, r.s) /\ LowS(C, r.s)
     \* the nonce, from the recovery identifier
     /\ LET x == IF r.id >= 2 THEN BNAdd(r.r, C.q) ELSE r.r
            y2 == AddMod(AddMod(MulMod(MulMod(x, x, C.p), x, C.p), MulMod(C.a, x, C.p), C.p), C.b, C.p)
            \* both fields have p = 3 modulo 4
            y0 == BNPowMod(y2, BNDiv(BNAdd(C.p, BNOne), <<4>>), C.p)
            y == IF BNOdd(y0) <=> r.id % 2 = 1 THEN y0 ELSE BNSub(C.p, y0)
        IN RecoveryFits(C, in.vk, z, r.r, r.s, r.id, Pt(x, y))

\* resharing: in.old threshold shares of in.vk, in.new the new holders, in.t the new threshold
Holder(C, h, ids, t, vk) ==
  /\ h.threshold = t /\ h.vk = vk
  /\ KeySet(h.share_ids) = ids /\ Len(h.share_ids) = Cardinality(ids)
  /\ KeySet(h.public) = ids /\ Len(h.public) = Cardinality(ids)
  /\ Distinct(Vals(h.share_ids)) /\ \A k \in 1..Len(h.share_ids) : h.share_ids[k][2] # <<>>
  /\ h.own_id = At(h.share_ids, h.owner)
  /\ At(h.public, h.owner) = EMulG(C, h.secret)
ReshareOk(C, rs, in) ==
  LET ids == IdsOf(in.new)
      hs == SelectSeq(rs, LAMBDA r : r[1] \in ids)
      h(k) == hs[k][2].share
  IN /\ \A k \in 1..Len(rs) : rs[k][2].some <=> rs[k][1] \in ids
     /\ \A k \in 1..Len(hs) : h(k).owner = hs[k][1] /\ Holder(C, h(k), ids, in.t, in.vk)
     /\ \A k \in 1..Len(hs) : h(k).share_ids = h(1).share_ids /\ h(k).public = h(1).public
     \* the public shares are those of a sharing of the key: every quorum's join to it, smaller ones' do not
     /\ hs # <<>> => LET o == InOrder(ids)
                         P(S) == LET q == InOrder(S) IN JoinPt(C, [k \in 1..Len(q) |-> At(h(1).share_ids, q[k])], [k \in 1..Len(q) |-> At(h(1).public, q[k])])
                     IN \A S \in SUBSET ids : (Cardinality(S) = in.t => P(S) = in.vk) /\ (Cardinality(S) = in.t - 1 => P(S) # in.vk)
     /\ in.t > 1 => \A k, m \in 1..Len(hs) : k # m => h(k).secret # h(m).secret
     \* nobody keeps a share it had
     /\ \A k \in 1..Len(hs) : \A m \in 1..Len(in.old) : in.t > 1 => h(k).secret # in.old[m].secret
InputOk(C, in) == \A k \in 1..Len(in.old) : in.old[k].vk = in.vk
=============================================================================
