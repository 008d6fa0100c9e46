---------------------------- MODULE Trace_Session ----------------------------
(* Judges recorded sessions of the real protocols (see SessionSpec and ResultSpec).
   What may be expected of a session with a deviator:
     - every honest party ends with the result it would have had without the deviation, or without one;
     - nobody but the deviator is blamed, and the blame can be proved to others;
     - a party that neither has a result nor blames anyone waits for the deviator, or for a party that stopped;
     - nobody panics, and nobody gives up with a local error (except where no one can be blamed: After). *)
EXTENDS SessionSpec, ResultSpec, TraceCheck
\* whether it matters that blame can be proved (that a claim can be checked without a panic always does)
CONSTANT Proofs
Cu(e) == CurveOf(e.params)
Conf(e) == [proto |-> e.proto, ids |-> IdsOf(e.ids), quorum |-> IdsOf(e.quorum), new |-> IdsOf(e.new)]
Members(c) == Everybody(c)
Has(r, f) == f \in DOMAIN r

RECURSIVE FoldEv(_, _, _, _, _)
FoldEv(c, a, evs, k, dev) ==
  IF k > Len(evs) \/ ~a.ok THEN a
  ELSE FoldEv(c, [s |-> Step(c, a.s, evs[k]), ok |-> Can(c, a.s, evs[k], dev)], evs, k + 1, dev)
\* keeps a.s when a step is impossible
\* who deviates
Devs(e) == (IF e.dev = 0 THEN {} ELSE {e.dev}) \cup (IF Has(e, "early") THEN {e.early.dev} ELSE {})
Folded(e) == FoldEv(Conf(e), [s |-> Start(Conf(e)), ok |-> TRUE], e.events, 1, Devs(e))
Party(e, p) == e.parties[CHOOSE k \in 1..Len(e.parties) : e.parties[k].id = p]
\* pairs of honest parties and their results
Results(e, ps, dev) == LET q == SelectSeq(ps, LAMBDA x : x.class = "result" /\ x.id \notin dev) IN [k \in 1..Len(q) |-> <<q[k].id, q[k].result>>]

ResultsOk(e, rs) ==
  rs = <<>> \/
  LET C == Cu(e) ids == IdsOf(e.ids) in == e.input IN
  CASE e.proto = "keyinit" -> KeyOk(C, rs, ids) /\ KeyWhole(C, rs, ids) /\ (Len(rs) > 1 => Different(rs))
    [] e.proto = "auxgen" -> AuxOk(e.params, rs, ids, LAMBDA r : r)
    [] e.proto = "refresh" -> InputOk(C, in) /\ RefreshOk(C, e.params, rs, ids, in)
    [] e.proto = "signing" -> InputOk(C, in) /\ SignatureOk(C, rs, in)
    [] e.proto = "resharing" -> InputOk(C, in) /\ ReshareOk(C, rs, in)

Structure(e, a) ==
  LET c == Conf(e) IN
  /\ a.ok
  /\ Len(e.parties) = Cardinality(Members(c)) /\ {e.parties[k].id : k \in 1..Len(e.parties)} = Members(c)
  /\ Quiet(c, a.s)
  /\ \A p \in Members(c) : LET x == a.s[p] y == Party(e, p) IN
       p \notin Devs(e) =>
         /\ y.class = Class(c, p, x) /\ y.last = x.round
         /\ y.class = "stopped" => IdsOf(y.missing) = Missing(c, p, x)
         /\ {b.who : b \in {y.blamed[k] : k \in {k \in 1..Len(y.blamed) : y.blamed[k].kind # "equivocation"}}} = x.bad

RunOk(e) ==
  LET a == Folded(e) c == Conf(e) rs == Results(e, e.parties, {}) IN
  /\ e.dev = 0 /\ Structure(e, a)
  /\ \A p \in Members(c) : Party(e, p).class = "result" /\ Party(e, p).blamed = <<>>
  /\ ResultsOk(e, rs)
  \* the order of delivery does not matter
  /\ rs = Results(e, e.fifo, {})
  /\ e.order = "script" =>
       LET w == Whole(c, e.script) IN
       /\ w.net.queue = {}
       /\ \A p \in Members(c) : SelectSeq(e.events, LAMBDA v : v.p = p) = w.evs[p]

Proof(p) == IF Proofs THEN p = "yes" ELSE p # "panic"
\* blame of dev by an honest party
BlameOk(e, b) ==
  /\ b.who \in Devs(e)
  /\ CASE b.kind = "equivocation" -> TRUE
       [] b.kind \in {"part", "protocol"} -> Proof(b.proof)
       [] b.kind = "unprovable" -> e.proto = "resharing"
       [] OTHER -> FALSE
RECURSIVE Why(_, _, _, _)
\* whether waiting for ps leads to the deviator or to somebody who stopped
Why(c, s, ps, dev) ==
  \/ dev \cap ps # {}
  \/ \E p \in ps : s[p].done # "" \/ Stops(c, p, s[p])
  \/ LET more == ps \cup UNION {Waits(c, s, p) : p \in ps} IN more # ps /\ Why(c, s, more, dev)
\* altered so that everybody who gets it has to refuse: whole messages from elsewhere
Elsewhere == {"session", "epoch", "sender", "recipient"}
Receivers(e) == LET c == Conf(e) t == {p \in Members(c) : e.dev \in From(c, p)} IN IF e.to = 0 THEN t ELSE t \cap {e.to}
\* what may be expected of honest parties whoever deviates
OthersOk(e) ==
  LET a == Folded(e) c == Conf(e) honest == Members(c) \ Devs(e) rs == Results(e, e.parties, Devs(e)) IN
  /\ Devs(e) # {} /\ Devs(e) \subseteq Members(c) /\ Structure(e, a)
  /\ \A p \in honest : LET y == Party(e, p) IN
       /\ y.class \in {"result", "stopped", "local"}
       /\ \A k \in 1..Len(y.blamed) : BlameOk(e, y.blamed[k])
       /\ y.class = "result" => y.blamed = <<>>
       /\ y.class = "stopped" => (y.blamed # <<>> \/ Why(c, a.s, Waits(c, a.s, p), Devs(e)))
  /\ ResultsOk(e, rs)
Ends(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Begins(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
\* alterations of what was committed to, with the commitment made anew, that leave its meaning as it was: fields and bytes nobody reads, the order
\* of maps, the room left for a number, the number that only hides the rest, and the key under which one would send to oneself
Idle(e) ==
  \/ e.how \in {"more", "reverse", "longer", "longer0"}
  \/ Begins(e.place, ".u.") \/ Ends(e.place, ".bound")
  \/ e.proto = "refresh" /\ Begins(e.place, ".cap_ys." \o ToString(Cardinality({x \in IdsOf(e.ids) : x < e.dev})) \o ".")
DevOk(e) ==
  LET c == Conf(e) rs == Results(e, e.parties, Devs(e)) IN
  /\ OthersOk(e)
  \* nobody is led to another result
  /\ Len(e.ref) = Cardinality(Members(c))
  /\ \A k \in 1..Len(rs) : rs[k][2] = At(e.ref, rs[k][1])
  /\ Has(e, "how") /\ Has(e, "place") /\ e.op = "tamper" /\ e.how \in Elsewhere /\ e.place = "whole" /\ e.proto # "resharing" =>
       \* for one recipient it is the right one
       Cardinality({p \in Receivers(e) : Party(e, p).class = "result"}) <= (IF e.how = "recipient" /\ e.to = 0 THEN 1 ELSE 0)
  \* a commitment that leaves something open
  /\ ~(Has(e, "how") /\ e.how = "unbound")
  \* what a fitting commitment does not make right
  /\ e.op = "commit" /\ rs # <<>> => Idle(e)
  \* with no inputs to differ in, another epoch is the same one
  /\ e.op = "foreign" /\ e.what = "session" /\ e.proto # "resharing" => rs = <<>>
  /\ e.op = "foreign" /\ e.what = "epoch" /\ e.proto \in {"signing", "resharing"} => \A k \in 1..Len(rs) : e.proto = "resharing" /\ ~rs[k][2].some
\* made up messages: those with nothing wrong are accepted (and may lead to another, proper result), others by nobody who gets them
ForgeOk(e) ==
  LET rs == Results(e, e.parties, Devs(e)) got == {rs[k][1] : k \in 1..Len(rs)} IN
  /\ OthersOk(e)
  /\ IF e.what = "valid" THEN \A p \in Members(Conf(e)) \ Devs(e) : Party(e, p).class = "result"
     ELSE \A p \in Members(Conf(e)) \ Devs(e) : e.dev \in From(Conf(e), p) => p \notin got
----------------------------------------------------------------------------
(* One altered message and its receiver *)
Follows(j) == j < Len(Trace) /\ Trace[j + 1].op = "tamper" /\ Has(Trace[j + 1], "follow")
                /\ Trace[j + 1].place = Trace[j].place /\ Trace[j + 1].how = Trace[j].how /\ Trace[j + 1].part = Trace[j].part
\* what a message may say differently without being refused by the one who gets it
Slack(e) ==
  \* without meaning: fields and bytes nobody reads, the order of maps, the room left for a number
  \/ e.how \in {"more", "reverse", "longer", "longer0"}
  \/ Ends(e.place, ".bound")
  \* checked when it is opened
  \/ e.round = 1 /\ e.part = "echo" /\ e.proto \in {"keyinit", "auxgen", "refresh"}
  \* not known to fit before everybody's are together
  \/ e.proto = "signing" /\ e.round = 3 /\ (e.part = "echo" \/ e.place = ".cap_s")
  \* only seen to be wrong with those of others
  \/ e.proto = "resharing" /\ e.place = ".old_share_id"
  \* a claim about the receiver itself, who knows better
  \/ e.proto = "signing" /\ e.round > 4 /\
       LET me == Cardinality({x \in IdsOf(e.ids) \ {e.dev} : x < e.to}) IN
       Begins(e.place, ".psis." \o ToString(me) \o ".") \/ Begins(e.place, ".hat_psis." \o ToString(me) \o ".")
ProbeOk(j) == LET e == Trace[j] IN
  CASE e.verdict \in {"part", "protocol"} -> Proof(e.proof)
    [] e.verdict = "unprovable" -> e.proto = "resharing"
    \* accepted: what becomes of it is the next event; what was committed to is checked when it is opened
    [] e.verdict = "ok" -> /\ Follows(j) \/ Has(e, "early")
                           /\ Slack(e)
                           /\ e.round = 2 /\ e.proto \in {"keyinit", "auxgen", "refresh"} => LET y == Party(Trace[j + 1], e.to) IN y.class = "result" \/ (e.part = "echo" /\ y.last = 2)
    [] OTHER -> FALSE
----------------------------------------------------------------------------
StartOk(e) == e.res = IF e.case \in {"ok", "data ok", "ok both", "ok old", "ok new"} THEN "ok" ELSE "err"
----------------------------------------------------------------------------
\* claims about parties that did as they should
FrameOk(e) == e.guilty # e.dev => e.proof \notin {"yes", "panic"}
----------------------------------------------------------------------------
Good(j) == LET e == Trace[j] IN
  CASE e.op = "run" -> RunOk(e)
    [] e.op \in {"tamper", "commit", "misread", "foreign"} -> DevOk(e)
    [] e.op = "forge" -> ForgeOk(e)
    [] e.op = "probe" -> ProbeOk(j)
    [] e.op = "start" -> StartOk(e)
    [] e.op = "frame" -> FrameOk(e)
Judge == JudgeWith(Good(i))
Kind(e) == e.op \o ":" \o e.proto
Accepted == AcceptedWith({Kind(Trace[k]) : k \in 1..Len(Trace)})
=============================================================================
