------------------------------ MODULE Plan_ZkKeys ------------------------------
(* The keys whose challenges the driver is asked for first (see Plan_Zk). *)
EXTENDS Primes, PlanKit
CONSTANTS Params
K(ps, p, q) == [op |-> "key", params |-> ps, p |-> p, q |-> q]
Keys(ps) == LET b == PrimeBits(ps) IN
  {K(ps, Low(b), Mid(b)), K(ps, High(b), High2(b)),
   \* a prime modulus
   K(ps, PrimeFrom(BNSub(BNPow2(2 * b), BNOne), "down"), BNZero)}
ASSUME WritePlan([k \in 1..Cardinality(Params) |-> Keys(SetToSeq(Params)[k])])
=============================================================================
