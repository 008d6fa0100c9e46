------------------------------ MODULE PlanKit ------------------------------
(* Writing the cases a specification enumerates to plan.ndjson, one per line. *)
EXTENDS TLC, Json, SequencesExt
\* parts: a sequence of sets of cases
WritePlan(parts) == LET s == FlattenSeq([k \in 1..Len(parts) |-> SetToSeq(parts[k])])
                    IN ndJsonSerialize("plan.ndjson", s) /\ PrintT(<<"PLAN", Len(s)>>)
=============================================================================
