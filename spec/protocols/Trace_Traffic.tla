---------------------------- MODULE Trace_Traffic ----------------------------
(* Judges what the parties of honest sessions sent: every message is what the specification says it is, given what its sender drew; and what
   they drew, in all sessions together, repeats nothing and uses the whole of its range. *)
EXTENDS TrafficSpec, Curves, TraceCheck
C == Tiny32
IdsOf(s) == {s[k] : k \in 1..Len(s)}
Whole(e) == \A k \in 1..Len(e.parties) : e.parties[k].class = "result"
FreshOf(e) == LET ids == IdsOf(e.ids) IN
  CASE e.proto = "signing" -> SignFresh(e, C, ids, SignDraws(e, C, ids))
    [] e.proto = "keyinit" -> InitFresh(e, C, ids)
    [] e.proto = "auxgen" -> AuxFresh(e, ids)
    [] e.proto = "refresh" -> RefreshFresh(e, C, ids)
    [] e.proto = "resharing" -> ReshareFresh(e, C, IdsOf(e.quorum))
Good(e) == LET ids == IdsOf(e.ids) fresh == FreshOf(e) IN
  /\ Whole(e)
  /\ \A k \in 1..Len(e.sent) : "f" \in DOMAIN e.sent[k]
  \* within their ranges, and nothing that hides nothing
  /\ \A x \in fresh : BNLt(x.v, x.n) /\ (x.name \notin {"rho", "u", "rid", "mask"} => x.v # BNZero)
  /\ CASE e.proto = "signing" -> SignSent(e, C, ids, SignDraws(e, C, ids))
       [] e.proto = "keyinit" -> InitSent(e, C, ids)
       [] e.proto = "auxgen" -> TRUE
       [] e.proto = "refresh" -> RefreshSent(e, C, ids)
       [] e.proto = "resharing" -> ReshareSent(e, C, IdsOf(e.quorum), IdsOf(e.new))
Judge == JudgeWith(Good(Trace[i]))

---- \* all together ----
Draws == UNION {{[at |-> k, x |-> x] : x \in FreshOf(Trace[k])} : k \in {k \in 1..Len(Trace) : Whole(Trace[k])}}
Names(ds) == {<<Trace[d.at].proto, d.x.name>> : d \in ds}
Small(x) == BNBits(x.n) < 64
\* chance repeats few small ones, and no large ones
Repeats(ds) == Cardinality(ds) - Cardinality({d.x.v : d \in ds})
\* every quarter of the range occurs; of 90 draws, none is in some quarter with a chance of 10^-10.6
Enough == 90
Quarter(x) == BNToInt(BNDiv(BNShl(x.v, 2), x.n))
Quarters(ds) == {Quarter(d.x) : d \in ds} = 0..3
BitStrings == {"rho", "u", "rid"}
BothWays(ds) == \A b \in 0..(Kappa - 1) : \A y \in {TRUE, FALSE} : \E d \in ds : (BNBit(d.x.v, b) = 1) = y
Said(name, ok) == ok \/ (PrintT(<<"BAD", CHOOSE k \in 1..Len(Trace) : Trace[k].proto = name[1]>>) /\ PrintT(<<"WHAT", name>>) /\ FALSE)
\* numbers of more than 200 bits in messages, of all sessions
BigSent == {<<k, m>> \in UNION {{k} \X (1..Len(Trace[k].sent)) : k \in 1..Len(Trace)} : "log" \notin DOMAIN Trace[k].sent[m] /\ Len(Trace[k].sent[m].v) >= 14}
BigProof == {<<k, m>> \in UNION {{k} \X (1..Len(Trace[k].proofs)) : k \in 1..Len(Trace)} : Len(Trace[k].proofs[m]) >= 14}
BigOnce == Cardinality(BigSent) + Cardinality(BigProof) = Cardinality({Trace[b[1]].sent[b[2]].v : b \in BigSent} \cup {Trace[b[1]].proofs[b[2]] : b \in BigProof})
Reached ==
  LET ds == Draws
      \* draws by name
      of == [n \in Names(ds) |-> {d \in ds : <<Trace[d.at].proto, d.x.name>> = n}]
      small == {d \in ds : Small(d.x)}
  IN /\ \A n \in DOMAIN of : LET mine == of[n] IN
          /\ Said(n, Cardinality(mine) >= Enough)
          /\ Said(n, Repeats(mine) <= (IF \A d \in mine : Small(d.x) THEN 2 ELSE 0))
          /\ Said(n, Quarters(mine))
          /\ n[2] \in BitStrings /\ (\A d \in mine : Small(d.x)) => Said(n, BothWays(mine))
     /\ Said(<<"signing", "all, small">>, Repeats(small) <= 2)
     /\ Said(<<"signing", "all, large">>, Repeats(ds \ small) = 0)
     /\ Said(<<"refresh", "numbers in messages">>, BigOnce)
Accepted == AcceptedWith({Trace[k].proto : k \in 1..Len(Trace)}) /\ Reached
=============================================================================
