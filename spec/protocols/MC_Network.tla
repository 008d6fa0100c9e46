----------------------------- MODULE MC_Network -----------------------------
(* Honest sessions under every order of delivery: everybody ends with a result, nobody ever receives a
   message of a round it is not in, messages are at most one round ahead, and what can be seen from
   outside are steps of the session specification. *)
EXTENDS SessionSpec
CONSTANTS Proto, N, Quorum, New
C == [proto |-> Proto, ids |-> 1..N, quorum |-> Quorum, new |-> New]
VARIABLES net, s, ok
vars == <<net, s, ok>>
RECURSIVE Fold(_, _)
\* [s, ok]
Fold(a, evs) == IF evs = <<>> THEN a
                ELSE Fold([s |-> Step(C, a.s, Head(evs)), ok |-> a.ok /\ Can(C, a.s, Head(evs), {})], Tail(evs))
RECURSIVE FoldAll(_, _, _)
FoldAll(a, evs, ps) == IF ps = {} THEN a ELSE LET p == CHOOSE p \in ps : \A q \in ps : p <= q IN FoldAll(Fold(a, evs[p]), evs, ps \ {p})
Init == LET b == NStart(C)
            a == FoldAll([s |-> Start(C), ok |-> TRUE], b.evs, Everybody(C))
        IN net = b.net /\ s = a.s /\ ok = a.ok
Next == \E m \in net.queue : LET d == Deliver(C, net, m)
                                 a == Fold([s |-> s, ok |-> ok], d.evs)
                             IN net' = d.net /\ s' = a.s /\ ok' = a.ok
Seen == ok
Same == \A p \in Everybody(C) : LET x == net.st[p] y == s[p] IN
          /\ x.round = y.round /\ (x.done <=> y.done = "result")
          /\ ~x.done => x.got = y.got
Ahead == \A p \in Everybody(C) : \A k \in 1..Len(net.st[p].inbox) : net.st[p].inbox[k][1] = net.st[p].round + 1
Ends == net.queue = {} => /\ \A p \in Everybody(C) : net.st[p].done
                          /\ Quiet(C, s)
\* nobody is done before everybody has spoken in the last round (resharing: parties that only give may leave at once)
Together == Proto # "resharing" => \A p, q \in Everybody(C) : net.st[p].done => net.st[q].round >= net.st[p].round
=============================================================================
