------------------------------ MODULE LifeSpec ------------------------------
(* The life of one key: it is generated (or dealt), its shares are refreshed, converted, reshared among
   other holders, derived from, stored, and used to sign, in any order.
   The state is the form of the sharing: kind "none", "add" (additive) or "thr" (threshold t), the holders
   ids, the parties aux with auxiliary data, and the form before the last change of the secrets (prev).
   An operation is a record [do, q, new, t, who, path]: q a sequence of parties, new another.
   Form and Enabled say what is possible and which form comes out, Moved how the secrets
   change; in any case they remain a sharing of the key (IsKey), which only derivation changes. *)
EXTENDS SharingSpec

Ids(q) == {q[k] : k \in 1..Len(q)}
Nothing == [kind |-> "none", ids |-> {}, t |-> 0, aux |-> {}, prev |-> [kind |-> "none", ids |-> {}, t |-> 0]]
Bare(f) == [kind |-> f.kind, ids |-> f.ids, t |-> f.t]
\* q can use the shares of f together
Can(f, q) == CASE f.kind = "add" -> q = f.ids [] f.kind = "thr" -> q \subseteq f.ids /\ Cardinality(q) >= f.t [] OTHER -> FALSE
\* ---- what can be done
Enabled(f, o) == LET q == Ids(o.q) IN
  CASE o.do = "init" -> f.kind = "none" /\ Cardinality(q) >= 2
    [] o.do = "deal" -> f.kind = "none" /\ o.t \in 1..Cardinality(q)
    [] o.do = "refresh" -> f.kind = "add" /\ q = f.ids
    [] o.do = "auxgen" -> Cardinality(q) >= 2 /\ f.kind # "none"
    [] o.do = "sign" -> Cardinality(q) >= 2 /\ Can(f, q) /\ q \subseteq f.aux
    [] o.do = "tothr" -> f.kind = "add"
    [] o.do = "toadd" -> f.kind = "thr" /\ Can(f, q)
    [] o.do = "reshare" -> f.kind = "thr" /\ Can(f, q) /\ o.t \in 1..Len(o.new)
    [] o.do = "derive" -> f.kind = "thr"
    [] o.do = "store" -> f.kind # "none"
    \* attempts that are refused or lead nowhere
    [] o.do = "few" -> f.kind = "thr" /\ ~Can(f, q)
    [] o.do = "hard" -> f.kind = "thr"
    [] o.do = "stale" -> Cardinality(q) >= 2 /\ Can(f, q) /\ Can(f.prev, q) /\ q \subseteq f.aux /\ o.who \in q
    [] OTHER -> FALSE
\* ---- the form after it
Form(f, o) == LET q == Ids(o.q) IN
  CASE o.do = "init" -> [f EXCEPT !.kind = "add", !.ids = q, !.t = Cardinality(q)]
    [] o.do = "deal" -> [f EXCEPT !.kind = "thr", !.ids = q, !.t = o.t]
    [] o.do = "refresh" -> [f EXCEPT !.aux = f.ids, !.prev = Bare(f)]
    [] o.do = "auxgen" -> [f EXCEPT !.aux = q]
    [] o.do = "tothr" -> [f EXCEPT !.kind = "thr", !.t = Cardinality(f.ids)]
    [] o.do = "toadd" -> [f EXCEPT !.kind = "add", !.ids = q, !.t = Cardinality(q)]
    [] o.do = "reshare" -> [f EXCEPT !.ids = Ids(o.new), !.t = o.t, !.prev = Bare(f)]
    [] o.do = "derive" -> [f EXCEPT !.prev = Bare(f)]
    [] OTHER -> f

\* ---- the secrets: pairs at (places of a threshold sharing) and sh
On(m, q) == [k \in 1..Len(q) |-> At(m, q[k])]
Joined(C, f, at, sh, q) == IF f.kind = "add" THEN SSumSeq(C, On(sh, q)) ELSE Join(C, On(at, q), On(sh, q))
Quorums(f) == {S \in SUBSET f.ids : Can(f, S)}
IsKey(C, f, at, sh, key) == \A S \in Quorums(f) : Joined(C, f, at, sh, InOrder(S)) = key
\* the parts of the key that the holders q of a threshold sharing have
Parts(C, at, sh, q) == [k \in 1..Len(q) |-> SMul(C, At(sh, q[k]), Lagrange(C, On(at, q), At(at, q[k])))]
Shaped(f, at, sh) ==
  /\ KeySet(sh) = f.ids /\ Len(sh) = Cardinality(f.ids)
  /\ f.kind = "thr" => KeySet(at) = f.ids /\ Len(at) = Cardinality(f.ids) /\ Distinct(Vals(at)) /\ \A k \in 1..Len(at) : at[k][2] # <<>>
  /\ f.kind = "add" => at = <<>>
Fresh == {"init", "deal", "refresh", "reshare"}
Moved(C, f, at, sh, o, at2, sh2, shift) ==
  CASE o.do \in Fresh -> TRUE
    [] o.do = "derive" -> at2 = at /\ \A k \in f.ids : At(sh2, k) = SAdd(C, At(sh, k), shift)
    [] o.do = "toadd" -> LET q == InOrder(Ids(o.q)) IN On(sh2, q) = Parts(C, at, sh, q)
    [] o.do = "tothr" -> LET q == InOrder(f.ids) IN Parts(C, at2, sh2, q) = On(sh, q)
    [] OTHER -> at2 = at /\ sh2 = sh
=============================================================================
