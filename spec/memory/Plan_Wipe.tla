------------------------------ MODULE Plan_Wipe ------------------------------
(* Scripts: every operation, followed by every operation that can use its result (or by none), followed by dropping values in two orders;
   operands are made as needed. *)
EXTENDS WipeSpec, PlanKit
CONSTANT Deep

\* how to get a value of a type
Way == [S |-> <<"scalar">>, M |-> <<"scalar", "s_split">>, Y |-> <<"scalar", "s_poly">>, U |-> <<"uint">>, V |-> <<"uint", "u_wide">>,
        R |-> <<"uint", "u_monty">>, N |-> <<"uint", "u_unsigned">>, O |-> <<"uint", "u_unsigned", "n_wide">>, I |-> <<"signed">>, J |-> <<"uint", "u_signed">>,
        W |-> <<"signed", "i_wide">>, K |-> <<"k_copy">>, P |-> <<"k_copy", "k_key">>, L |-> <<"rp">>, X |-> <<"plain">>, T |-> <<"unit">>,
        A |-> <<"share">>, H |-> <<"threshold">>, B |-> <<"aux_gen">>, D |-> <<"deal">>]

None == 99
\* st: [steps, regs]. The last live register of a type, other than `not`
Newest(st, t, not) == LET c == {k \in Live(st.regs) : st.regs[k + 1] = t /\ k # not}
                    IN IF t = "" \/ c = {} THEN None ELSE CHOOSE k \in c : \A j \in c : j <= k
Step(st, o, a, b) == LET s == [op |-> o.op, a |-> a, b |-> b, out |-> Len(st.regs)]
                     IN [steps |-> Append(st.steps, s), regs |-> After(st.regs, s)]
RECURSIVE Walk(_, _, _)
Walk(st, way, k) == IF k > Len(way) THEN st
                    ELSE LET o == Named(way[k]) IN Walk(Step(st, o, Newest(st, o.a, None), None), way, k + 1)
Have(st, t, not) == IF t = "" \/ Newest(st, t, not) # None THEN st ELSE Walk(st, Way[t], 1)
Do(st, o) == LET s1 == Have(st, o.a, None)
                 a == Newest(s1, o.a, None)
                 s2 == Have(s1, o.b, a)
             IN Step(s2, o, a, Newest(s2, o.b, a))
Drop(st, k) == LET s == [op |-> "drop", a |-> k, b |-> None, out |-> None] IN [steps |-> Append(st.steps, s), regs |-> After(st.regs, s)]
RECURSIVE DropAll(_, _)
DropAll(st, up) == IF Live(st.regs) = {} THEN st
                   ELSE DropAll(Drop(st, CHOOSE k \in Live(st.regs) : \A j \in Live(st.regs) : IF up THEN k <= j ELSE k >= j), up)
\* one is dropped, the rest goes at the end
DropOne(st) == IF Live(st.regs) = {} THEN st ELSE Drop(st, CHOOSE k \in Live(st.regs) : \A j \in Live(st.regs) : k <= j)

Start == [steps |-> <<>>, regs |-> <<>>]
Single == {Do(Start, o) : o \in Ops}
Pairs == UNION {{Do(Do(Start, o), p) : p \in {q \in Ops : o.out # "" /\ (q.a = o.out \/ q.b = o.out)}} : o \in Ops}
\* longer scripts leave out the arithmetic, which cancels to zero or overflows when an operand was made from the other
Plain == {o \in Ops : o.op \notin {"u_add", "u_sub", "u_mul", "r_add", "r_sub", "i_add", "i_sub", "i_add_v", "i_sum", "i_mul", "i_mul_v", "n_add", "key_init"}}
Triples == IF ~Deep THEN {} ELSE
           UNION {UNION {{Do(Do(Do(Start, o), p), q) : q \in {x \in Plain : p.out # "" /\ x.a = p.out}} :
                         p \in {x \in Plain : o.out # "" /\ x.a = o.out}} : o \in Plain}
Case(st) == [steps |-> st.steps, full |-> \E k \in 1..Len(st.steps) : st.steps[k].op \in Entities]
Scripts == {Case(DropAll(s, up)) : s \in Single, up \in BOOLEAN} \cup {Case(DropOne(s)) : s \in Pairs}
           \cup {Case(DropAll(s, TRUE)) : s \in {t \in Triples : Len(t.steps) <= 14}}
ASSUME WritePlan(<<Scripts>>)
=============================================================================
