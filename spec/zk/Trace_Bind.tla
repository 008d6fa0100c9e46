------------------------------ MODULE Trace_Bind ------------------------------
(* The challenge as a function of the whole transcript.
   The hash is taken for a function chosen at random, so a challenge is bound to a component
   exactly if another component leads to another question to the hash.  An event has
     kind, comp     the proof and the component that is another one than in the accepted proof
     det            the questions the verdict on the accepted proof depends on
     asked          the questions asked for this proof
     prefix         what all transcripts of the kind begin with, whatever is in them           *)
EXTENDS TraceCheck
Range(s) == {s[k] : k \in 1..Len(s)}
Apart(a, b) == \E k \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[k] # b[k]
Bound(e) == Range(e.det) # {} /\ ~(Range(e.det) \subseteq Range(e.asked)) /\ ~e.accept
Good(e) ==
  CASE e.op = "base" -> e.accept /\ Range(e.det) # {} /\ Range(e.det) \subseteq Range(e.asked)
    [] e.op = "other" -> Bound(e)
    [] e.op = "prefix" -> \A k \in 1..Len(Trace) : Trace[k].op = "prefix" /\ Trace[k].params = e.params /\ Trace[k].kind # e.kind => Apart(e.prefix, Trace[k].prefix)
    [] e.op = "prover" -> e.same
Judge == JudgeWith(Good(Trace[i]))
Accepted == AcceptedWith({Trace[k].op \o ":" \o Trace[k].kind : k \in 1..Len(Trace)} \cup {Trace[k].kind \o "." \o Trace[k].comp : k \in 1..Len(Trace)})
===============================================================================
