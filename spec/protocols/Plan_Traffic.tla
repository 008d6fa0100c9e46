---------------------------- MODULE Plan_Traffic ----------------------------
(* Honest sessions whose messages are all taken apart: the same parties with the same inputs again and again, and other numbers of parties. *)
EXTENDS PlanKit, Integers
CONSTANTS Deep
InOrder(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
F == IF Deep THEN 4 ELSE 1
Case(proto, ids, quorum, new, session, t, nt) ==
  [op |-> "traffic", proto |-> proto, ids |-> InOrder(ids), quorum |-> InOrder(quorum), new |-> InOrder(new), params |-> "test", session |-> session,
   order |-> "fifo", k |-> 0, script |-> <<>>, format |-> "bin", t |-> t, m |-> <<session>>, nt |-> nt]
\* the randomness depends on the number of the session, so these must all be different
Ss(k, n) == {1000 * k + x : x \in 1..n}
Plain(proto, ids, t, ss) == {Case(proto, ids, {}, {}, s, t, 0) : s \in ss}
Keys == Plain("keyinit", 1..3, 0, Ss(1, 30 * F)) \cup Plain("keyinit", 1..5, 0, Ss(2, 3)) \cup Plain("keyinit", {0, 7, 2147483647}, 0, Ss(3, 2))
Aux == Plain("auxgen", 1..3, 0, Ss(4, 17 * F)) \cup Plain("auxgen", 1..2, 0, Ss(5, 20))
Refresh == Plain("refresh", 1..3, 0, Ss(6, 19 * F)) \cup Plain("refresh", 1..2, 0, Ss(7, 10)) \cup Plain("refresh", 1..4, 0, Ss(8, 2)) \cup Plain("refresh", {0, 7, 2147483647}, 0, Ss(9, 2))
Sign == Plain("signing", 1..3, 0, Ss(10, 20 * F)) \cup Plain("signing", 1..2, 0, Ss(11, 12)) \cup Plain("signing", 1..4, 0, Ss(12, 4)) \cup
        Plain("signing", {0, 7, 2147483647}, 2, Ss(13, 2)) \cup Plain("signing", 1..3, 2, Ss(14, 2))
Reshare == {Case("resharing", 1..3, {1, 2, 3}, {2, 3, 4}, s, 2, 3) : s \in Ss(15, 20 * F)} \cup {Case("resharing", 1..4, {1, 4}, {1, 2, 3, 4}, s, 2, 4) : s \in Ss(16, 4)} \cup
           {Case("resharing", 1..3, {1, 2}, {4, 5}, s, 2, 2) : s \in Ss(17, 4)} \cup {Case("resharing", 1..3, {1, 3}, {1, 3}, s, 2, 1) : s \in Ss(18, 2)}
ASSUME WritePlan(<<Keys, Aux, Refresh, Sign, Reshare>>)
=============================================================================
