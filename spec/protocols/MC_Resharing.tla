---------------------------- MODULE MC_Resharing ----------------------------
(* Key resharing over a small field; a point is its discrete logarithm.  Two of the old holders (places 1
   and 2 of a polynomial of degree 1) share their part of the key with three new holders, threshold 2.
   Old holder 2 deviates: another value (err), a polynomial of another degree (deg), a wrong value sent to
   new holder 1 (slip).
   Checks: "vk" the constant terms sum to the key; "degree"; "share" what is received lies on the polynomial *)
EXTENDS Integers, FiniteSets
CONSTANTS Q, Checks
F == 0..(Q - 1)
Inv(a) == CHOOSE b \in F : (a * b) % Q = 1
\* Lagrange coefficients at zero for the places 1 and 2: 2/(2-1), 1/(1-2)
L1 == 2
L2 == Q - 1
VARIABLES f, g1, g2, err, deg, slip
vars == <<f, g1, g2, err, deg, slip>>
Init == f \in [0..1 -> F] /\ g1 \in F /\ g2 \in F /\ err \in 0..1 /\ deg \in F /\ slip \in 0..1
Next == FALSE /\ UNCHANGED vars
At(a0, a1, a2, x) == (a0 + a1 * x + a2 * x * x) % Q
Part1 == L1 * At(f[0], f[1], 0, 1)
Part2 == L2 * At(f[0], f[1], 0, 2) + err
Ok == /\ "vk" \in Checks => (Part1 + Part2) % Q = f[0]
      /\ "degree" \in Checks => deg = 0
      /\ "share" \in Checks => slip = 0
Share(x) == (At(Part1, g1, 0, x) + At(Part2, g2, deg, x) + (IF x = 1 THEN slip ELSE 0)) % Q
Public(x) == (At(Part1, g1, 0, x) + At(Part2, g2, deg, x)) % Q
JoinAt(x, y) == (Share(x) * y * Inv((y - x + Q) % Q) + Share(y) * x * Inv((x - y + Q) % Q)) % Q
SameKey == Ok => \A x, y \in 1..3 : x # y => JoinAt(x, y) = f[0]
Fit == Ok => \A x \in 1..3 : Share(x) = Public(x)
=============================================================================
