----------------------------- MODULE TraceCheck -----------------------------
(* Checking a recorded trace whose events are judged one by one: the state is the number of the
   event being judged, and the trace is cut into chunks so that TLC's workers share it.
   The module that extends this one defines Judge and Accepted with the operators below.
   Required lists the kinds of event that must occur, so that an empty or truncated trace is not
   taken for a good one. *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANT Required

Trace == ndJsonDeserialize("trace.ndjson")
Chunk == IF Len(Trace) > 400 THEN 50 ELSE 5

VARIABLE i
TInit == i \in {1 + k * Chunk : k \in 0..((Len(Trace) - 1) \div Chunk)}
TNext == i % Chunk # 0 /\ i < Len(Trace) /\ i' = i + 1
JudgeWith(ok) == ok \/ (PrintT(<<"BAD", i>>) /\ FALSE)

Complete(kinds) == LET missing == Required \ kinds IN missing = {} \/ (PrintT(<<"MISSING", missing>>) /\ FALSE)
AllJudged == TLCGet("stats").distinct = Len(Trace) \/ (PrintT(<<"NOTALL", TLCGet("stats").distinct, Len(Trace)>>) /\ FALSE)
AcceptedWith(kinds) == Complete(kinds) /\ AllJudged
=============================================================================
