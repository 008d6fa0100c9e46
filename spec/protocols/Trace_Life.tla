----------------------------- MODULE Trace_Life -----------------------------
(* Judges histories of a key run with the real code: every step is one of LifeSpec, and the shares of all holders after it
   are shares of the key, consistent with each other and with their public parts. *)
EXTENDS LifeSpec, ResultSpec, DeriveSpec, TraceCheck
Cu(e) == CurveOf(e.params)
None == [kind |-> "none", shares |-> <<>>, aux |-> <<>>]
Before(j) == IF Trace[j].step = 1 THEN None ELSE Trace[j - 1].after
\* the form a recorded state has; the form before the last change of the secrets follows from the history
FormOf(s) == [Nothing EXCEPT !.kind = s.kind, !.ids = {s.shares[k].owner : k \in 1..Len(s.shares)}, !.aux = KeySet(s.aux),
              !.t = IF s.kind = "thr" THEN s.shares[1].threshold ELSE Len(s.shares)]
Secrets(s) == [k \in 1..Len(s.shares) |-> <<s.shares[k].owner, s.shares[k].secret>>]
PlacesOf(s) == IF s.kind = "thr" THEN s.shares[1].share_ids ELSE <<>>
Vk(s) == s.shares[1].vk
\* all parts of a state fit together
StateOk(C, s) ==
  s.kind = "none" \/
  LET f == FormOf(s) IN
  /\ s.kind \in {"add", "thr"} /\ Shaped(f, PlacesOf(s), Secrets(s))
  /\ \A k \in 1..Len(s.shares) : LET h == s.shares[k] IN
       /\ KeySet(h.public) = f.ids /\ Len(h.public) = Cardinality(f.ids)
       /\ h.public = s.shares[1].public /\ h.vk = Vk(s)
       /\ At(h.public, h.owner) = EMulG(C, h.secret)
       /\ s.kind = "thr" => h.threshold = f.t /\ h.share_ids = PlacesOf(s) /\ h.own_id = At(PlacesOf(s), h.owner)
  /\ LET q == InOrder(CHOOSE S \in Quorums(f) : TRUE) key == Joined(C, f, PlacesOf(s), Secrets(s), q) IN
       /\ EMulG(C, key) = Vk(s) /\ key # <<>>
       /\ IsKey(C, f, PlacesOf(s), Secrets(s), key)
\* pairs of the parties and the results they have
Rs(e) == LET q == SelectSeq(e.parties, LAMBDA x : x.class = "result") IN [k \in 1..Len(q) |-> <<q[k].id, q[k].result>>]
Took(e) == InOrder(Ids(e.o.q) \cup (IF e.o.do = "reshare" THEN Ids(e.o.new) ELSE {}))
AllDone(e) == Took(e) = [k \in 1..Len(e.parties) |-> e.parties[k].id] /\ \A k \in 1..Len(e.parties) : e.parties[k].class = "result" /\ e.parties[k].blamed = <<>>
Bare2(s) == [k \in 1..Len(s.shares) |-> <<s.shares[k].owner, s.shares[k]>>]
Steps(path) == [k \in 1..Len(path) |-> [i |-> BNOfInt(path[k]), hard |-> FALSE]]

StepOk(j) ==
  LET e == Trace[j] C == Cu(e) o == e.o s == Before(j) n == e.after f == FormOf(s) g == FormOf(n)
      d == Derived(e.params, C, Vk(s), Steps(o.path)) q == Ids(o.q)
  IN
  /\ o.do # "stale" => Enabled(f, o)
  /\ LET w == Form(f, o) IN <<w.kind, w.ids, w.aux>> = <<g.kind, g.ids, g.aux>> /\ (g.kind = "thr" => w.t = g.t)
  /\ StateOk(C, n)
  /\ f.kind # "none" => Moved(C, f, PlacesOf(s), Secrets(s), o, PlacesOf(n), Secrets(n), IF o.do = "derive" THEN d.sum ELSE BNZero)
  \* whose key it is
  /\ CASE o.do \in {"init", "deal"} -> TRUE
       [] o.do = "derive" -> ~d.bad /\ Vk(n) = d.pk
       [] OTHER -> Vk(n) = Vk(s)
  \* everybody's auxiliary data are about the same parties, and changed only when they should
  /\ \A k \in 1..Len(n.aux) : IdsOf(n.aux[k][2]) = KeySet(n.aux)
  /\ o.do \in {"auxgen", "auxdeal", "refresh"} <=> ~e.aux_same
  \* sharing the key anew leaves nobody a share that it had
  /\ (o.do = "refresh" \/ (o.do = "reshare" /\ o.t > 1)) => \A h \in f.ids \cap g.ids : At(Secrets(n), h) # At(Secrets(s), h)
  \* the results of the sessions
  /\ CASE o.do = "init" -> AllDone(e) /\ KeyOk(C, Rs(e), q) /\ KeyWhole(C, Rs(e), q) /\ Different(Rs(e)) /\ Rs(e) = Bare2(n)
       [] o.do = "auxgen" -> AllDone(e) /\ AuxOk(e.params, Rs(e), q, LAMBDA r : r)
       [] o.do = "refresh" -> AllDone(e) /\ RefreshOk(C, e.params, Rs(e), q, e.input) /\ \A k \in 1..Len(Rs(e)) : Rs(e)[k][2].new = n.shares[k]
       [] o.do = "sign" -> AllDone(e) /\ e.input.vk = Vk(s) /\ SignatureOk(C, Rs(e), e.input)
       \* a share from before: a signature only if it is the same after all
       [] o.do = "stale" -> /\ Took(e) = [k \in 1..Len(e.parties) |-> e.parties[k].id]
                            /\ Rs(e) # <<>> => e.fresh /\ SignatureOk(C, Rs(e), [e.input EXCEPT !.vk = Vk(s)])
                            /\ \A k \in 1..Len(e.parties) : LET p == e.parties[k] IN
                                 /\ p.class \in {"result", "stopped"}
                                 /\ p.id # o.who => IdsOf(p.blamed) \subseteq {o.who}
       [] o.do = "reshare" -> AllDone(e) /\ ReshareOk(C, Rs(e), e.input)
       [] o.do \in {"few", "hard"} -> e.said # <<>> /\ \A k \in 1..Len(e.said) : e.said[k] = "err"
       [] OTHER -> TRUE

Good(j) == LET e == Trace[j] IN e.op = "life" /\ e.res = "ok" /\ (e.step > 1 => Trace[j - 1].step = e.step - 1) /\ StepOk(j)
Judge == JudgeWith(Good(i))
Accepted == AcceptedWith({Trace[k].o.do : k \in 1..Len(Trace)})
=============================================================================
