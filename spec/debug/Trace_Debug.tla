------------------------------ MODULE Trace_Debug ------------------------------
(* Noninterference of debug output.  An event with op "pair" shows two objects of the same kind
   that differ in their secrets only (texts a, b); leaks is the number of pieces of a secret
   found in a.  An event with op "control" shows the secrets themselves, unprotected: there the
   search has to find them and the texts have to differ. *)
EXTENDS TraceCheck

Good(j) == LET e == Trace[j] IN
  CASE e.op = "pair" -> e.a = e.b /\ e.leaks = 0 /\ e.secrets > 0 /\ e.differ
    [] e.op = "control" -> e.a # e.b /\ e.leaks > 0
Judge == JudgeWith(Good(i))
Accepted == AcceptedWith({Trace[k].kind : k \in 1..Len(Trace)} \cup {Trace[k].op : k \in 1..Len(Trace)})
===============================================================================
