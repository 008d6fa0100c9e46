----------------------------- MODULE Trace_Curve -----------------------------
EXTENDS CurveSpec, TraceCheck
EventOK(e) == CASE e.op = "xred" -> TRUE
                [] e.op = "sig" -> SigOK(CurveOf(e.params), e, e.res)
                [] OTHER -> Allowed(e)
Judge == JudgeWith(EventOK(Trace[i]))
Accepted == AcceptedWith({Trace[k].op : k \in 1..Len(Trace)})
=============================================================================
