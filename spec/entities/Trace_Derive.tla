---------------------------- MODULE Trace_Derive ----------------------------
EXTENDS DeriveSpec, TraceCheck
Good(j) == LET e == Trace[j] Cu == CurveOf(e.params)
               X == EMulG(Cu, e.secret)
               d == Derived(e.params, Cu, X, e.path)
  IN IF d.bad THEN /\ e.public_res = "err"
                   /\ Len(e.res) = e.n /\ \A k \in 1..e.n : e.res[k] = "err" /\ e.vk_res[k] = "err"
     ELSE LET r == SAdd(Cu, e.secret, d.sum)
              x == [k \in 1..e.n |-> e.parents[k].own_id]
          IN /\ d.pk = EMulG(Cu, r)
             /\ e.public_res = "ok" /\ e.public = d.pk
             /\ Len(e.res) = e.n /\ \A k \in 1..e.n : e.res[k] = "ok" /\ e.vk_res[k] = "ok" /\ e.vks[k] = d.pk
             /\ \A k \in 1..e.n : LET h == e.holders[k] p == e.parents[k] IN
                  /\ h.owner = p.owner /\ h.threshold = p.threshold /\ h.share_ids = p.share_ids /\ h.own_id = p.own_id
                  /\ h.secret = SAdd(Cu, p.secret, d.sum)
                  /\ Len(h.public) = Len(p.public)
                  /\ \A m \in 1..Len(h.public) : h.public[m][1] = p.public[m][1] /\ h.public[m][2] = EAdd(Cu, p.public[m][2], EMulG(Cu, d.sum))
                  /\ h.vk = d.pk
             \* every quorum of derived shares has the private key of the derived key
             /\ Len(e.convs) > 0
             /\ \A c \in 1..Len(e.convs) : LET v == e.convs[c] IN
                  /\ v.res = "ok" /\ SSumSeq(Cu, v.secrets) = r /\ v.vk = d.pk
Judge == JudgeWith(Good(i))
Kind(e) == "derive:" \o e.public_res
Accepted == AcceptedWith({Kind(Trace[k]) : k \in 1..Len(Trace)})
=============================================================================
