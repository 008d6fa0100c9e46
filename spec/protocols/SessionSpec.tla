----------------------------- MODULE SessionSpec -----------------------------
(* The protocols as message-passing systems: who sends what to whom in which round, when a party may go
   on, and what it does then.  The contents of messages are left out here; MC_Session puts them back in
   an abstract form, and the protocol-specific specifications say what the results mean.

   A configuration c is [proto, ids, quorum, new]: quorum and new matter for resharing only (the old
   holders that take part, the new holders). *)
EXTENDS Integers, Sequences, FiniteSets

Protos == {"keyinit", "auxgen", "refresh", "signing", "resharing"}

\* Parts of the messages of a round: E echo broadcast, N normal broadcast, D direct message
Parts(proto, r) ==
  CASE proto = "keyinit" -> <<{"E"}, {"E", "N"}, {"N"}>>[r]
    [] proto = "auxgen" -> <<{"E"}, {"E", "N"}, {"N", "D"}>>[r]
    [] proto = "refresh" -> <<{"E"}, {"E", "N"}, {"E", "N", "D"}>>[r]
    [] proto = "signing" -> <<{"E", "D"}, {"E", "N"}, {"E", "N"}, {"N"}, {"E"}, {"E"}>>[r]
    [] proto = "resharing" -> <<{"E", "D"}>>[r]
\* what may follow a round: the number of a round, 0 for a result, -1 for giving up
After(proto, r, honest) ==
  CASE proto \in {"keyinit", "auxgen", "refresh"} -> IF r < 3 THEN {r + 1} ELSE {0}
    \* rounds 5 and 6 establish who is to blame for inconsistent shares
    [] proto = "signing" -> <<{2}, {3}, IF honest THEN {4} ELSE {4, 5, 6}, {0}, {-1}, {-1}>>[r]
    \* the new shares have to add up to the old key; nobody can be blamed if they do not
    [] proto = "resharing" -> IF honest THEN {0} ELSE {0, -1}
RoundNames == <<"round 1", "round 2", "round 3", "round 4", "round 5", "round 6">>
WhatOf(n) == IF n = 0 THEN "result" ELSE IF n = -1 THEN "local error" ELSE RoundNames[n]
RoundOf(w) == CHOOSE n \in -1..6 : WhatOf(n) = w
\* rounds that come after each other for everybody; what comes later are branches
Straight == 3

Everybody(c) == IF c.proto = "resharing" THEN c.quorum \cup c.new ELSE c.ids
To(c, p) == IF c.proto = "resharing" THEN (IF p \in c.quorum THEN c.new \ {p} ELSE {}) ELSE c.ids \ {p}
From(c, p) == IF c.proto = "resharing" THEN (IF p \in c.new THEN c.quorum \ {p} ELSE {}) ELSE c.ids \ {p}
\* who it compares echo broadcasts with
Peers(c, p) == IF c.proto = "resharing" THEN (IF p \in c.new THEN c.new \ {p} ELSE {}) ELSE c.ids \ {p}
Compares(c, p, r) == "E" \in Parts(c.proto, r) /\ (c.proto = "resharing" => p \in c.new)

----------------------------------------------------------------------------
(* Honest sessions as a network.  The state of a party is
     [round, inbox, got, echos, sent, done]
   inbox  delivered messages that are not for the current round, or not looked at yet, in order of arrival
   got    whose messages of this round were received; echos: whose lists of received broadcasts
   sent   its own list has been sent
   Messages are <<round, from, to, isEcho>>. *)
NFresh(r, inbox) == [round |-> r, inbox |-> inbox, got |-> {}, echos |-> {}, sent |-> FALSE, done |-> FALSE]
Sends(c, p, r) == {<<r, p, y, FALSE>> : y \in To(c, p)}
Lists(c, p, r) == {<<r, p, y, TRUE>> : y \in Peers(c, p)}
Ev(ev, p, r, f, w) == [ev |-> ev, p |-> p, round |-> r, from |-> f, what |-> w]
\* everything p can do by itself: [x, out, evs]
RECURSIVE Alone(_, _, _, _, _)
Alone(c, p, x, out, evs) ==
  LET now == {k \in 1..Len(x.inbox) : x.inbox[k][1] = x.round}
      stay == [x |-> x, out |-> out, evs |-> evs]
  IN IF x.done THEN stay
     ELSE IF now # {} THEN
       LET k == CHOOSE k \in now : \A m \in now : k <= m
           m == x.inbox[k]
           y == [x EXCEPT !.inbox = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
       IN IF m[4] THEN Alone(c, p, [y EXCEPT !.echos = @ \cup {m[2]}], out, evs)
          ELSE Alone(c, p, [y EXCEPT !.got = @ \cup {m[2]}], out, Append(evs, Ev("recv", p, x.round, m[2], "ok")))
     ELSE IF x.got # From(c, p) THEN stay
     ELSE IF Compares(c, p, x.round) /\ ~x.sent THEN Alone(c, p, [x EXCEPT !.sent = TRUE], out \cup Lists(c, p, x.round), evs)
     ELSE IF Compares(c, p, x.round) /\ x.echos # Peers(c, p) THEN stay
     ELSE LET n == CHOOSE n \in After(c.proto, x.round, TRUE) : TRUE
              e == (IF Compares(c, p, x.round) THEN <<Ev("echo", p, x.round, 0, "ok")>> ELSE <<>>) \o <<Ev("fin", p, x.round, 0, WhatOf(n))>>
          IN IF n = 0 THEN [x |-> [x EXCEPT !.done = TRUE, !.inbox = <<>>], out |-> out, evs |-> evs \o e]
             ELSE Alone(c, p, NFresh(n, x.inbox), out \cup Sends(c, p, n), evs \o e)
\* A network is [st, queue]; delivering m leads to another one and to events
Deliver(c, n, m) ==
  LET p == m[3]
      a == Alone(c, p, [n.st[p] EXCEPT !.inbox = IF n.st[p].done THEN <<>> ELSE Append(@, m)], {}, <<>>)
  IN [net |-> [st |-> [n.st EXCEPT ![p] = a.x], queue |-> (n.queue \ {m}) \cup a.out], evs |-> a.evs]
NStart(c) ==
  LET a == [p \in Everybody(c) |-> Alone(c, p, NFresh(1, <<>>), Sends(c, p, 1), <<Ev("start", p, 0, 0, "ok")>>)]
  IN [net |-> [st |-> [p \in Everybody(c) |-> a[p].x], queue |-> UNION {a[p].out : p \in Everybody(c)}],
      evs |-> [p \in Everybody(c) |-> a[p].evs]]
\* the events at every party when messages are delivered in this order
RECURSIVE Play(_, _, _, _)
Play(c, n, evs, script) ==
  IF script = <<>> THEN [net |-> n, evs |-> evs]
  ELSE LET d == Deliver(c, n, Head(script)) IN Play(c, d.net, [evs EXCEPT ![Head(script)[3]] = @ \o d.evs], Tail(script))
Whole(c, script) == LET s == NStart(c) IN Play(c, s.net, s.evs, script)

----------------------------------------------------------------------------
(* Sessions as seen from outside, with any verdicts.  A session is a function from parties to
     [round, got, bad, checked, done]      done: "" | "result" | "stopped" | "local" | "panic"
   An event is [ev, p, round, from, what].  Can tells whether it is possible, Step what it leads to.
   dev is the set of parties that may deviate. *)
Fresh(r) == [round |-> r, got |-> {}, bad |-> {}, checked |-> FALSE, done |-> ""]
Start(c) == [p \in Everybody(c) |-> Fresh(1)]
Complete(c, p, x) == x.got \cup x.bad = From(c, p)
\* has a party in state x sent its messages of round r; and its list of received broadcasts
Sent(x, r) == IF r <= Straight THEN x.round >= r ELSE x.round = r
SentList(c, p, x, r) == \/ r <= Straight /\ x.round > r
                        \/ x.round = r /\ Complete(c, p, x) /\ x.bad = {}
Can(c, s, e, dev) ==
  e.p \in Everybody(c) /\
  IF e.ev = "start" THEN e.what = "ok" /\ s[e.p] = Fresh(1)
  ELSE LET x == s[e.p] IN
  x.done = "" /\ e.round = x.round /\
  CASE e.ev = "recv" -> /\ e.from \in From(c, e.p) \ (x.got \cup x.bad)
                        /\ Sent(s[e.from], e.round)
                        /\ dev = {} => e.what = "ok"
    [] e.ev = "echo" -> /\ Compares(c, e.p, x.round) /\ Complete(c, e.p, x) /\ x.bad = {} /\ ~x.checked
                        /\ \A y \in Peers(c, e.p) : y \in dev \/ SentList(c, y, s[y], x.round)
                        /\ dev = {} => e.what = "ok"
    [] e.ev = "fin" -> /\ Complete(c, e.p, x) /\ x.bad = {} /\ (Compares(c, e.p, x.round) => x.checked)
                       /\ e.p \in dev \/ \E n \in After(c.proto, x.round, dev = {}) : e.what = WhatOf(n)
    [] OTHER -> FALSE
Step(c, s, e) ==
  LET x == s[e.p]
      y == CASE e.ev = "start" -> x
             [] e.ev = "recv" -> IF e.what = "ok" THEN [x EXCEPT !.got = @ \cup {e.from}]
                                 ELSE [x EXCEPT !.bad = @ \cup {e.from}, !.done = IF e.what \in {"local", "panic"} THEN e.what ELSE ""]
             [] e.ev = "echo" -> IF e.what = "ok" THEN [x EXCEPT !.checked = TRUE] ELSE [x EXCEPT !.done = "stopped"]
             [] e.ev = "fin" -> CASE e.what = "result" -> [x EXCEPT !.done = "result"]
                                  [] e.what = "local error" -> [x EXCEPT !.done = "local"]
                                  [] e.what = "panic" -> [x EXCEPT !.done = "panic"]
                                  [] OTHER -> Fresh(RoundOf(e.what))
  IN [s EXCEPT ![e.p] = y]
\* a party that refused a message stops when it has heard from everybody
Stops(c, p, x) == x.done = "" /\ x.bad # {} /\ Complete(c, p, x)
Class(c, p, x) == IF x.done = "" THEN "stopped" ELSE x.done
Missing(c, p, x) == IF x.done # "" THEN {} ELSE From(c, p) \ (x.got \cup x.bad)
\* whom p waits for when nothing more arrives: none if it could go on or has ended
Waits(c, s, p) ==
  LET x == s[p] IN
  IF x.done # "" \/ Stops(c, p, x) THEN {}
  ELSE IF ~Complete(c, p, x) THEN Missing(c, p, x)
  ELSE IF Compares(c, p, x.round) /\ ~x.checked THEN {y \in Peers(c, p) : ~SentList(c, y, s[y], x.round)}
  ELSE {}
\* nothing is left to do
Quiet(c, s) == \A p \in Everybody(c) :
  LET x == s[p] IN
  \/ x.done # "" \/ Stops(c, p, x)
  \/ ~Complete(c, p, x) /\ \A y \in Missing(c, p, x) : ~Sent(s[y], x.round)
  \/ Complete(c, p, x) /\ Waits(c, s, p) # {}
=============================================================================
