------------------------------ MODULE MC_Shamir ------------------------------
(* All polynomials of degree below T over the field with Q elements, with N places 1..N:
   every set of at least T places determines the value at zero (Joins), whatever the polynomial;
   every set of fewer places is compatible with every value at zero, equally often (Hides);
   sharing additively after weighting with the Lagrange coefficients keeps the sum (Converts),
   and dividing the coefficients out again gives the original shares (Back).
   The lower level of SharingSpec, over machine integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Q, N, T
F == 0..(Q - 1)
Polys == [1..T -> F]
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE (x * Pow(x, k - 1)) % Q
RECURSIVE EvalFrom(_, _, _)
EvalFrom(a, x, k) == IF k > T THEN 0 ELSE (a[k] * Pow(x, k - 1) + EvalFrom(a, x, k + 1)) % Q
Eval(a, x) == EvalFrom(a, x, 1)
Inv(x) == CHOOSE y \in F : (x * y) % Q = 1
RECURSIVE Prod(_)
Prod(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN (x * Prod(S \ {x})) % Q
\* numerator over denominator
Num(S, i) == Prod(S \ {i})
RECURSIVE Den(_, _)
Den(S, i) == IF S = {} THEN 1 ELSE LET j == CHOOSE j \in S : TRUE IN IF j = i THEN Den(S \ {j}, i) ELSE ((j - i + Q) * Den(S \ {j}, i)) % Q
Lag(S, i) == (Num(S, i) * Inv(Den(S, i))) % Q
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + Sum(f, S \ {x})) % Q

VARIABLES a, S
Init == a \in Polys /\ S \in SUBSET (1..N) /\ S # {}
Next == UNCHANGED <<a, S>>
Weighted == [i \in S |-> (Eval(a, i) * Lag(S, i)) % Q]
Joins == Cardinality(S) >= T => Sum(Weighted, S) = a[1]
Back == \A i \in S : (Weighted[i] * Inv(Lag(S, i))) % Q = Eval(a, i)
\* exactly one fewer place than needed never gives the value, if the highest coefficient is not zero
Short == (Cardinality(S) = T - 1 /\ a[T] # 0) => Sum(Weighted, S) # a[1]
Hides == (Cardinality(S) < T /\ a[1] = 0) =>
  LET same(v) == Cardinality({b \in Polys : b[1] = v /\ \A i \in S : Eval(b, i) = Eval(a, i)}) IN \A v \in F : same(v) = same(0)
\* control: not true
Bad == Cardinality(S) >= T - 1 => Sum(Weighted, S) = a[1]
=============================================================================
