---------------------------- MODULE Plan_Session ----------------------------
(* Sessions to run with the real code.  Part:
     "honest"   nobody deviates: every kind of delivery order, formats, numbers of parties
     "deviate"  one party deviates: every round, each recipient or all, every kind of deviation
     "forge"    one party deviates with messages that fit together
     "probe"    every alteration of every message, put to its receiver
     "replay"   messages from elsewhere; sessions with a party that is in another session or epoch; wrong inputs
     "frame"    claims against parties that did as they should *)
EXTENDS SessionSpec, Curves, PlanKit, Randomization, FiniteSetsExt
CONSTANTS Part, Protos1, Deep

\* ---- delivery orders -------------------------------------------------------------------------
\* all orders there are
RECURSIVE AllScripts(_, _)
AllScripts(c, net) == IF net.queue = {} THEN {<<>>}
                      ELSE UNION {{<<m>> \o s : s \in AllScripts(c, Deliver(c, net, m).net)} : m \in net.queue}
\* random ones that prefer some messages
Pref(name, k, m) == CASE name = "any" -> TRUE
                      [] name = "slow" -> m[2] # k        \* what k sends arrives last
                      [] name = "deaf" -> m[3] # k        \* k hears everything last
                      [] name = "fast" -> m[2] = k
                      [] name = "lists" -> m[4]           \* comparisons of broadcasts first
                      [] name = "messages" -> ~m[4]
                      [] name = "pair" -> {m[2], m[3]} = {1, k}
RECURSIVE Walk(_, _, _, _)
Walk(c, net, name, k) ==
  IF net.queue = {} THEN <<>>
  ELSE LET good == {m \in net.queue : Pref(name, k, m)}
           from == IF good = {} THEN net.queue ELSE good
       IN CHOOSE s \in {<<m>> \o Walk(c, Deliver(c, net, m).net, name, k) : m \in {RandomElement(from)}} : TRUE
Enough(s, n) == IF Cardinality(s) <= n THEN s ELSE RandomSubset(n, s)

\* ---- cases -----------------------------------------------------------------------------------
InOrder(s) == SetToSortSeq(s, LAMBDA a, b : a < b)

Cfg(proto, ids, quorum, new) == [proto |-> proto, ids |-> ids, quorum |-> quorum, new |-> new]
Case(op, c, params, session, order, k, script, format, t, m, nt) ==
  [op |-> op, proto |-> c.proto, ids |-> InOrder(c.ids), quorum |-> InOrder(c.quorum), new |-> InOrder(c.new), params |-> params, session |-> session,
   order |-> order, k |-> k, script |-> script, format |-> format, t |-> t, m |-> m, nt |-> nt]
\* configurations for resharing: [old ids, old threshold, quorum, new, new threshold]
Reshare == {[i |-> {1, 2}, t |-> 2, q |-> {1, 2}, n |-> {1, 2}, nt |-> 2], [i |-> {1, 2, 3}, t |-> 2, q |-> {1, 2, 3}, n |-> {1, 2, 3}, nt |-> 2],
            [i |-> {1, 2, 3}, t |-> 2, q |-> {1, 3}, n |-> {2, 3, 4}, nt |-> 3], [i |-> {1, 2}, t |-> 2, q |-> {1, 2}, n |-> {3, 4}, nt |-> 1],
            [i |-> {1, 2, 3}, t |-> 1, q |-> {2}, n |-> {2, 5}, nt |-> 2], [i |-> {4, 5, 6}, t |-> 3, q |-> {4, 5, 6}, n |-> {1, 2, 3, 4}, nt |-> 2],
            [i |-> {1, 2, 3, 4}, t |-> 2, q |-> {1, 2, 4}, n |-> {4, 7}, nt |-> 2]}
Reshares == IF Deep THEN Reshare \cup {[i |-> 1..4, t |-> t, q |-> q, n |-> n, nt |-> nt] : t \in {2}, q \in {{1, 2}, {2, 3, 4}}, n \in {{1, 2}, {4, 5, 6}, 1..4}, nt \in 1..2} ELSE Reshare
Cs(proto) == IF proto = "resharing" THEN {[c |-> Cfg(proto, x.i, x.q, x.n), t |-> x.t, nt |-> x.nt] : x \in Reshares}
             ELSE {[c |-> Cfg(proto, ids, {}, {}), t |-> 0, nt |-> 0] : ids \in (IF proto \in {"auxgen", "refresh"} /\ ~Deep THEN {1..2, 1..3} ELSE {1..2, 1..3, 1..4})}
Small(x) == Cardinality(Everybody(x.c)) = 2
Ps(proto) == IF proto \in {"keyinit", "resharing"} THEN {"test", "p112"} ELSE {"test"}
One == <<1>>
Base(op, x, params, session, order, k, script, format) == Case(op, x.c, params, session, order, k, script, format, x.t, One, x.nt)
Scripts(x) == LET all == AllScripts(x.c, NStart(x.c).net) IN IF Small(x) THEN (IF Deep THEN all ELSE Enough(all, 12)) ELSE
  {Walk(x.c, NStart(x.c).net, name, k) : name \in {"slow", "deaf", "fast", "pair"}, k \in Everybody(x.c)} \cup
  {Walk(x.c, NStart(x.c).net, name, k) : name \in {"any", "lists", "messages"}, k \in 1..(IF Deep THEN 20 ELSE 3)}
\* messages to sign: around the ends of the scalars and of the bytes
Messages(C, bytes) == LET z == BNMul(C.q, BNTwo) top == BNSub(BNShl(BNOne, 8 * bytes), BNOne) IN
  {BNZero, BNOne, BNSub(C.q, BNOne), C.q, BNAdd(C.q, BNOne), z, top, BNSub(top, C.q)}
Honest ==
  UNION {UNION {
    {Base("run", x, p, 1, o, 0, <<>>, f) : o \in {"fifo", "lifo"}, f \in {"bin", "hr"}} \cup
    {Base("run", x, p, s, "random", s, <<>>, "bin") : s \in 2..(IF Deep THEN 40 ELSE 6)}
    : p \in Ps(x.c.proto)} \cup
    {Base("run", x, "test", 1, "script", 0, s, "bin") : s \in Scripts(x)} : x \in UNION {Cs(proto) : proto \in Protos1}}
\* party names that are not 1, 2, ...
OddNames == UNION {IF proto = "resharing"
                   THEN {Case("run", Cfg(proto, {0, 7, 2147483647}, {7, 2147483647}, {0, 5, 2147483647}), "test", 1, "random", 3, <<>>, "bin", 2, One, 2)}
                   ELSE {Case("run", Cfg(proto, {0, 7, 2147483647}, {}, {}), "test", 1, "random", 3, <<>>, "bin", 0, One, 0)} : proto \in Protos1}
\* signing: messages, shares that come from threshold sharings
Signs == IF "signing" \notin Protos1 THEN {} ELSE
  {Case("run", Cfg("signing", ids, {}, {}), "test", 1, "fifo", 0, <<>>, "bin", t, m, 0) : ids \in {1..2}, t \in {0, 2}, m \in Messages(Tiny32, 24)} \cup
  {Case("run", Cfg("signing", 1..3, {}, {}), "test", s, "random", s, <<>>, "hr", t, One, 0) : t \in 1..3, s \in 1..(IF Deep THEN 12 ELSE 2)} \cup
  {Case("run", Cfg("signing", 1..2, {}, {}), "test", s, "random", s, <<>>, "bin", 0, BNOfInt(s), 0) : s \in 1..(IF Deep THEN 300 ELSE 30)}

\* ---- deviations ------------------------------------------------------------------------------
Rounds(proto) == CASE proto = "signing" -> 4 [] proto = "resharing" -> 1 [] OTHER -> 3
Dv(proto) == IF proto = "resharing" THEN {[c |-> Cfg(proto, 1..3, 1..3, 1..3), t |-> 2, nt |-> 2], [c |-> Cfg(proto, 1..3, {1, 2}, {3, 4}), t |-> 2, nt |-> 2]}
             ELSE {[c |-> Cfg(proto, 1..3, {}, {}), t |-> 0, nt |-> 0]} \cup (IF Deep THEN {[c |-> Cfg(proto, 1..2, {}, {}), t |-> 0, nt |-> 0]} ELSE {})
Dvs == UNION {Dv(proto) : proto \in Protos1}
Ch == 8
Greatest(s) == CHOOSE p \in s : \A q \in s : p >= q
\* who deviates, and towards whom (0 for everybody)
Devs(x) == LET d == {p \in Everybody(x.c) : To(x.c, p) # {}} IN IF Deep THEN d ELSE {2} \cap d
Tos(x, d) == IF Deep THEN To(x.c, d) ELSE {Greatest(To(x.c, d))}
Alter(op, x, r, d, to, budget, k) ==
  Base(op, x, "test", 1, IF k % 3 = 0 THEN "fifo" ELSE "random", k, <<>>, IF k % 5 = 4 THEN "hr" ELSE "bin") @@
  [round |-> r, dev |-> d, to |-> to, budget |-> budget, chunk |-> k, chunks |-> Ch]
Many == IF Deep THEN 3000 ELSE 120
Tampers(x, d) == {Alter("tamper", x, r, d, to, Many, k) : r \in 1..Rounds(x.c.proto), to \in {0} \cup Tos(x, d), k \in 0..(Ch - 1)}
Commits(x, d) == IF x.c.proto \in {"keyinit", "auxgen", "refresh"} THEN {Alter("commit", x, 2, d, 0, 3 * Many, k) : k \in 0..(Ch - 1)} ELSE {}
Misreads(x, d) == IF x.c.proto = "resharing" THEN {} ELSE {Alter("misread", x, r, d, 0, Many, k) : r \in 1..Rounds(x.c.proto), k \in 0..(Ch - 1)}
\* messages made up by one party so that they fit together; Blum primes for moduli just too small, and much too small
Primes == <<[p |-> <<26787, 28713, 17409, 29331, 23181, 25580, 20047, 6037, 76>>, q |-> <<29639, 1718, 27776, 22902, 10795, 28531, 13133, 1993, 77>>],
            [p |-> <<21411, 6179, 7755, 9428, 8>>, q |-> <<7599, 16044, 14863, 21821, 8>>]>>
ASSUME BNBits(BNMul(Primes[1].p, Primes[1].q)) = 256 - 3 /\ BNBits(BNMul(Primes[2].p, Primes[2].q)) = 127
Whats(proto) == CASE proto \in {"auxgen", "refresh"} -> {"valid", "rp", "paillier"} \cup (IF proto = "refresh" THEN {"sum", "extra"} ELSE {})
                  [] proto = "resharing" -> {"valid", "constant", "degree"}
                  [] OTHER -> {}
Forges(x, d) == {Base("forge", x, "test", 1, o, k, <<>>, f) @@ [dev |-> d, what |-> w] @@ Primes[k]
                 : w \in Whats(x.c.proto), k \in 1..2, o \in {"fifo"} \cup (IF Deep THEN {"random"} ELSE {}), f \in {"bin", "hr"}}
Deviate == UNION {UNION {Tampers(x, d) \cup Commits(x, d) \cup Misreads(x, d) : d \in Devs(x)} : x \in Dvs}
Forge == UNION {UNION {Forges(x, d) : d \in Devs(x)} : x \in Dvs}
Probe == UNION {UNION {{Alter("probe", x, r, d, to, 100000, k) : r \in 1..Rounds(x.c.proto), to \in Tos(x, d), k \in 0..(Ch - 1)} : d \in Devs(x)} : x \in Dvs}
\* signing with shares that do not fit leads to rounds that establish who is to blame; there somebody else deviates
Late == {[r |-> 5, p |-> ".delta"], [r |-> 6, p |-> ".cap_s"]}
Lates(op, budget) == IF "signing" \notin Protos1 THEN {} ELSE
  UNION {UNION {UNION {{Alter(op, x, l.r, d, to, budget, k) @@ [early |-> [dev |-> b, round |-> 3, place |-> l.p]]
                        : k \in (IF op = "tamper" /\ ~Deep THEN 0..1 ELSE 0..(Ch - 1)), l \in Late,
                          to \in {Greatest(Everybody(x.c) \ {d, b})} \cup (IF op = "tamper" THEN {0} ELSE {})}
                       : b \in (IF Deep THEN Everybody(x.c) \ {d} ELSE {1})}
                : d \in Devs(x)} : x \in {x \in Dvs : x.c.proto = "signing" /\ Cardinality(x.c.ids) > 2}}

\* ---- replays and wrong inputs ----------------------------------------------------------------
Elsewhere == [only |-> <<"session", "epoch", "sender", "recipient">>]
Replay == UNION {UNION {
    {Elsewhere @@ Alter("probe", x, r, d, to, 100000, 0) @@ [chunk |-> 0] : r \in 1..Rounds(x.c.proto), to \in Tos(x, d)} \cup
    {Elsewhere @@ Alter("tamper", x, r, d, to, 40, k) : r \in 1..Rounds(x.c.proto), to \in {0} \cup Tos(x, d), k \in 0..(Ch - 1)} \cup
    {Base("foreign", x, "test", 1, o, k, <<>>, f) @@ [dev |-> d, what |-> w] : o \in {"fifo", "random"}, k \in {1}, f \in {"bin", "hr"}, w \in {"session", "epoch"}}
    : d \in Devs(x)} : x \in Dvs} \cup
  {Base("start", [c |-> Cfg(proto, 1..3, {}, {}), t |-> 0, nt |-> 0], p, 1, "fifo", 0, <<>>, "bin") : proto \in Protos1, p \in {"test"}}

\* ---- claims ----------------------------------------------------------------------------------
FrameCase(x, what) == Base("frame", x, "test", 1, "fifo", 0, <<>>, "bin") @@ [what |-> what]
Frame == {FrameCase(x, "honest") : x \in Dvs} \cup
  (IF "signing" \in Protos1 THEN {FrameCase(CHOOSE x \in Dv("signing") : TRUE, "tamper") @@ [dev |-> 2, round |-> 3, to |-> 0, place |-> p, how |-> "session"] : p \in {".delta", ".cap_s"}}
   ELSE {})

ASSUME WritePlan(CASE Part = "honest" -> <<Honest, OddNames, Signs>>
                   [] Part = "forge" -> <<Forge>>
                   [] Part = "deviate" -> <<Deviate, Lates("tamper", IF Deep THEN 400 ELSE 60)>>
                   [] Part = "probe" -> <<Probe, Lates("probe", IF Deep THEN 20000 ELSE 1500)>>
                   [] Part = "replay" -> <<Replay>>
                   [] Part = "frame" -> <<Frame>>)
=============================================================================
