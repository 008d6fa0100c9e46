------------------------------ MODULE Trace_Wipe ------------------------------
(* Recorded scripts against WipeSpec. An event is a script with what was seen after each of its steps, and after the rest was dropped:
   `live`: the registers in use with the parts of their secrets (numbers; equal parts have equal numbers); `held`: the parts that are in
   memory in use; `within`: which part is part of which other one
   (an integer and its extension to a wider type); `freed`: the parts of which something is in memory that was given back since the step before. *)
EXTENDS WipeSpec, TraceCheck

Set(q) == {q[k] : k \in 1..Len(q)}
PartsOf(l) == UNION {Set(l[k].parts) : k \in 1..Len(l)}
At(l, r) == Set((CHOOSE x \in Set(l) : x.r = r).parts)
Regs(l) == {x.r : x \in Set(l)}

StepGood(t, n) ==
    LET s == t.steps[n]
        now == t.seen[n]
        before == IF n = 1 THEN <<>> ELSE t.seen[n - 1].live
        regs == Run(t.steps, n)
    IN /\ now.freed = <<>>
       /\ Regs(now.live) = Live(regs)
       /\ PartsOf(now.live) \subseteq Set(now.held)
       /\ \A h \in Set(now.held) : h \in PartsOf(now.live) \/ \E w \in Set(t.within) : w[1] = h /\ w[2] \in PartsOf(now.live)
       \* values that stay are what they were
       /\ \A r \in Regs(before) \cap Regs(now.live) : At(before, r) = At(now.live, r)
       /\ s.op \in Same => At(now.live, s.out) = At(before, s.a)
       /\ s.op \in Makers => At(now.live, s.out) # {}
Good(j) ==
    LET t == Trace[j]
        n == Len(t.steps)
    IN /\ ~t.panic
       /\ Len(t.seen) = n + 1
       /\ \A k \in 1..n : StepGood(t, k)
       /\ t.seen[n + 1].freed = <<>>
       /\ t.seen[n + 1].held = <<>>
Judge == JudgeWith(Good(i))
Accepted == AcceptedWith(UNION {{s.op : s \in Set(Trace[j].steps)} : j \in 1..Len(Trace)})
=============================================================================
