---------------------------- MODULE Trace_Sharing ----------------------------
EXTENDS SharingSpec, TraceCheck
Cv(e) == CurveOf(e.params)
Ok(r, v) == ~r.panic /\ r.some /\ r.r = v
\* a threshold share h of one of the holders ids: what has to hold between its parts
ShareOk(Cu, e, h, ids) ==
  /\ KeySet(h.share_ids) = {ids[k] : k \in 1..Len(ids)} /\ Len(h.share_ids) = Len(ids)
  /\ KeySet(h.public) = KeySet(h.share_ids) /\ Len(h.public) = Len(ids)
  /\ Distinct(Vals(h.share_ids)) /\ \A k \in 1..Len(ids) : h.share_ids[k][2] # <<>>
  /\ h.own_id = At(h.share_ids, h.owner)
  /\ At(h.public, h.owner) = EMulG(Cu, h.secret)
\* the shares hs (one per holder) are a sharing of the secret s with threshold t
SharingOk(Cu, e, hs, ids, s, t) ==
  /\ Len(hs) = Len(ids) /\ \A k \in 1..Len(hs) : hs[k].owner = ids[k] /\ hs[k].threshold = t /\ ShareOk(Cu, e, hs[k], ids)
  /\ \A k \in 1..Len(hs) : hs[k].share_ids = hs[1].share_ids /\ hs[k].public = hs[1].public
  /\ LET x == [k \in 1..Len(ids) |-> At(hs[1].share_ids, ids[k])]
         J(S) == LET q == SetToSeq(S) IN Join(Cu, [k \in 1..Len(q) |-> x[q[k]]], [k \in 1..Len(q) |-> hs[q[k]].secret])
     IN /\ \A S \in SUBSET (1..Len(ids)) : (Cardinality(S) >= t => J(S) = s) /\ (Cardinality(S) = t - 1 => J(S) # s)
        \* the values given out are not related by being equal
        /\ t > 1 => Distinct([k \in 1..Len(hs) |-> hs[k].secret])
  /\ \A k \in 1..Len(hs) : hs[k].vk = EMulG(Cu, s)
\* an additive share c made by its owner for the parties of c.ids
ConvOk(Cu, e, hs, ids, t, c) ==
  LET S == {c.ids[k] : k \in 1..Len(c.ids)}
      good == c.owner \in S /\ Cardinality(S) >= t /\ \A y \in S : y \in {ids[k] : k \in 1..Len(ids)}
  IN IF ~good THEN c.res = "err"
     ELSE LET me == CHOOSE k \in 1..Len(ids) : ids[k] = c.owner
              x == [k \in 1..Len(c.ids) |-> At(hs[1].share_ids, c.ids[k])]
              w(y) == Lagrange(Cu, x, At(hs[1].share_ids, y))
          IN /\ c.res = "ok" /\ c.of = c.owner
             /\ c.secret = SMul(Cu, hs[me].secret, w(c.owner))
             /\ KeySet(c.public) = S /\ Len(c.public) = Cardinality(S)
             /\ \A k \in 1..Len(c.public) : c.public[k][2] = EMul(Cu, At(hs[1].public, c.public[k][1]), w(c.public[k][1]))
             /\ c.vk = hs[1].vk
Places(e) == [k \in 1..Len(e.shares) |-> e.shares[k][1]]
Good(j) == LET e == Trace[j] Cu == Cv(e) IN
  CASE e.op = "pub_eval" -> Ok(e.res, EMulG(Cu, PolyEval(Cu, e.coeffs, e.x)))
    [] e.op = "coeff" -> Ok(e.res, Lagrange(Cu, e.places, e.x))
    [] e.op = "split" ->
         /\ Len(e.shares) = e.n /\ Distinct(Places(e)) /\ \A k \in 1..e.n : e.shares[k][1] = BNOfInt(k)
         /\ \A k \in 1..Len(e.joins) : LET s == e.joins[k].ids
                                            v == [m \in 1..Len(s) |-> At(e.shares, s[m])]
                                            z == Join(Cu, s, v)
                                        IN /\ e.joins[k].scalar = z /\ e.joins[k].point = EMulG(Cu, z)
                                           /\ Len(s) >= e.t => z = e.secret
                                           /\ Len(s) = e.t - 1 => z # e.secret
         /\ Len(e.joins) = 2 ^ e.n - 1
    [] e.op = "poly" ->
         /\ Len(e.public) = e.t /\ Distinct(e.public) /\ e.public[1] = EMulG(Cu, e.secret) /\ e.coeff0 = e.public[1]
         /\ \A k \in 2..e.t : ~e.public[k].inf
         /\ Len(e.shares) > 0
         /\ \A k \in 1..Len(e.shares) : EMulG(Cu, e.shares[k][2]) = PolyEvalPt(Cu, e.public, e.shares[k][1]) /\ e.shares[k][3] = EMulG(Cu, e.shares[k][2])
    [] e.op = "central" ->
         IF e.t = 0 \/ e.t > e.n THEN e.res = "err"
         ELSE LET s == IF e.key = "given" THEN e.secret
                       ELSE LET q == [k \in 1..e.n |-> e.holders[k].own_id] IN Join(Cu, q, [k \in 1..e.n |-> e.holders[k].secret])
              IN /\ e.res = "ok" /\ s # <<>> /\ SharingOk(Cu, e, e.holders, e.ids, s, e.t)
                 /\ Len(e.convs) > 0 /\ \A k \in 1..Len(e.convs) : ConvOk(Cu, e, e.holders, e.ids, e.t, e.convs[k])
                 /\ e.fresh
    [] e.op = "from" -> LET sec == [k \in 1..e.n |-> e.additive[k].secret] IN
         /\ SSumSeq(Cu, sec) = e.secret
         /\ \A k \in 1..e.n : e.additive[k].owner = e.ids[k] /\ KeySet(e.additive[k].public) = {e.ids[m] : m \in 1..e.n}
                              /\ e.additive[k].vk = EMulG(Cu, e.secret)
                              /\ \A m \in 1..e.n : At(e.additive[k].public, e.ids[m]) = EMulG(Cu, sec[m])
         /\ SharingOk(Cu, e, e.holders, e.ids, e.secret, e.n)
         /\ \A k \in 1..e.n : e.back[k] = e.additive[k]
    [] e.op = "subset" -> \A k \in 1..Len(e.subs) : LET u == e.subs[k]
                                                        S == {u.ids[m] : m \in 1..Len(u.ids)}
                                                        known == \A y \in S : y \in {e.ids[m] : m \in 1..e.n}
                                                    IN /\ u.pub = IF known THEN "ok" ELSE "err"
                                                       /\ u.aux = IF known /\ u.owner \in S THEN "ok" ELSE "err"
                                                       /\ (u.pub = "ok" => u.pub_same /\ {u.pub_ids[m] : m \in 1..Len(u.pub_ids)} = S)
                                                       /\ (u.aux = "ok" => u.aux_same /\ {u.aux_ids[m] : m \in 1..Len(u.aux_ids)} = S)
    [] e.op = "update" ->
         LET zero == SSumSeq(Cu, [k \in 1..e.n |-> SAdd(Cu, e.old[k][2], e.change[k][2])]) = <<>> IN
         IF e.key \in {"owner", "missing", "extra", "renamed"} \/ zero THEN e.res = "err"
         ELSE /\ e.res = "ok" /\ e.new.owner = e.ids[e.t]
              /\ e.new.secret = SAdd(Cu, At(e.old, e.ids[e.t]), At(e.change, e.ids[e.t]))
              /\ KeySet(e.new.public) = KeySet(e.old) /\ Len(e.new.public) = e.n
              /\ \A k \in 1..e.n : At(e.new.public, e.ids[k]) = EMulG(Cu, SAdd(Cu, At(e.old, e.ids[k]), At(e.change, e.ids[k])))
              /\ e.new.vk = EMulG(Cu, SSumSeq(Cu, [k \in 1..e.n |-> SAdd(Cu, e.old[k][2], e.change[k][2])]))
Judge == JudgeWith(Good(i))
Kind(e) == IF e.op \in {"central", "update"} THEN e.op \o ":" \o e.res ELSE e.op
Accepted == AcceptedWith({Kind(Trace[k]) : k \in 1..Len(Trace)})
=============================================================================
