------------------------------- MODULE Trace_Zk -------------------------------
(* A verifier must answer exactly the conjunction of its conditions, without panicking. *)
EXTENDS ZkSpec, TraceCheck
Judge == JudgeWith(LET c == Trace[i] IN ~c.panic /\ (c.accept <=> Accepts(c)))
\* the cases in which exactly one condition fails must occur for each condition
Kind(c) == LET k == Fails(c) IN IF k = {} THEN c.op \o ":ok" ELSE IF Cardinality(k) = 1 THEN c.op \o ":" \o (CHOOSE x \in k : TRUE) ELSE c.op \o ":several"
Accepted == AcceptedWith({Kind(Trace[k]) : k \in 1..Len(Trace)})
=============================================================================
