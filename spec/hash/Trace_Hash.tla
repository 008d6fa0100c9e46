------------------------------ MODULE Trace_Hash ------------------------------
(* An event that hashed something has id, the number of the hash input (equal inputs, equal
   numbers), and again, the number when the same was hashed a second time. *)
EXTENDS TraceCheck, HashSpec, Curves

Group(e) == CASE e.op = "raw" -> "raw" [] e.op = "typed" -> e.group [] e.op = "params" -> "params"
What(e) == CASE e.op = "raw" -> <<e.dst, e.items>> [] e.op = "typed" -> <<e.items>> [] e.op = "params" -> <<e.name>>
Hashing == {k \in 1..Len(Trace) : Trace[k].op \in {"raw", "typed", "params"}}
Groups == {Group(Trace[k]) : k \in Hashing}
\* one-to-one within the group
OneToOne == [g \in Groups |->
  LET M == {k \in Hashing : Group(Trace[k]) = g}
      n == Cardinality({<<Trace[k].id, What(Trace[k])>> : k \in M})
  IN n = Cardinality({Trace[k].id : k \in M}) /\ n = Cardinality({What(Trace[k]) : k \in M})]
Clash(j, k) == (Trace[j].id = Trace[k].id) # (What(Trace[j]) = What(Trace[k]))
Hashed(j) == LET e == Trace[j] IN
  /\ e.some /\ e.again = e.id
  /\ OneToOne[Group(e)] \/ ~\E k \in Hashing : Group(Trace[k]) = Group(e) /\ Clash(j, k)

Both(s) == Cardinality({s[k] : k \in 1..Len(s)}) = 2
Good(j) == LET e == Trace[j] IN
  CASE e.op \in {"raw", "typed", "params"} -> Hashed(j)
    [] e.op = "d_uint" -> e.r.some /\ e.r.r = DrawUint(e.stream, e.n) /\ e.used = CeilDiv(e.n, 8)
    [] e.op = "d_signed" -> e.r.some /\ e.r.r = DrawSigned(e.stream, e.n) /\ e.used = CeilDiv(e.n, 8)
    [] e.op = "d_bits" -> e.r.some /\ e.r.r = DrawBits(e.stream, e.n) /\ e.used = CeilDiv(e.n, 8)
    [] e.op = "d_hash" -> e.r.some /\ e.r.r = SubSeq(e.stream, 1, HashLen(e.n))
    [] e.op \in {"d_scalar_test", "d_scalar_p112"} ->
         LET t == e.op = "d_scalar_test" IN
         e.r.some /\ e.r.r = DrawScalar(e.stream, IF t THEN 24 ELSE 32, (IF t THEN Tiny32 ELSE Secp256k1).q)
    [] e.op = "xor" -> e.r.some /\ e.r.r = Xor(e.a, e.b)
    \* samples of random bit vectors: the length, and both values at every position
    [] e.op = "rbits" -> /\ \A k \in 1..Len(e.samples) : Len(e.samples[k]) = e.n
                         /\ \A b \in 1..e.n : \E k, l \in 1..Len(e.samples) : e.samples[k][b] /\ ~e.samples[l][b]
                         \* no two positions go together
                         /\ \A b, c \in 1..(IF e.n < 18 THEN e.n ELSE 18) : b # c => \E k \in 1..Len(e.samples) : e.samples[k][b] # e.samples[k][c]
Judge == JudgeWith(Good(i))
Accepted == AcceptedWith({Trace[k].op : k \in 1..Len(Trace)} \cup Groups)
===============================================================================
