----------------------------- MODULE Trace_Signed -----------------------------
EXTENDS SignedSpec, TraceCheck
Judge == JudgeWith(Allowed(Trace[i], Trace[i].res))
Accepted == AcceptedWith({Trace[k].op : k \in 1..Len(Trace)})
=============================================================================
