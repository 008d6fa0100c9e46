------------------------------ MODULE MC_Curves ------------------------------
(* The constants of the two curves, and the group laws on the small one. *)
EXTENDS Curves, TLC
CONSTANT N
VARIABLES u, v
Init == u \in 0..N /\ v \in 0..N
Next == FALSE /\ UNCHANGED <<u, v>>
Consts(C) == /\ BNIsPrime(C.p) /\ BNIsPrime(C.q)
             /\ OnCurve(C, Gen(C)) /\ EMulG(C, C.q) = Inf
             /\ EMulG(C, BNSub(C.q, BNOne)) = ENeg(C, Gen(C))
ASSUME Consts(Tiny32) /\ Consts(Secp256k1)
P(k) == EMulG(Tiny32, BNOfInt(k * k * 7919 + k))
Laws == /\ EAdd(Tiny32, P(u), P(v)) = EAdd(Tiny32, P(v), P(u))
        /\ OnCurve(Tiny32, EAdd(Tiny32, P(u), P(v)))
        /\ EAdd(Tiny32, P(u), Inf) = P(u)
        /\ EAdd(Tiny32, P(u), ENeg(Tiny32, P(u))) = Inf
        /\ EAdd(Tiny32, P(u), P(v)) = EMulG(Tiny32, BNOfInt(u * u * 7919 + u + v * v * 7919 + v))
        /\ EAdd(Tiny32, EAdd(Tiny32, P(u), P(v)), P(3)) = EAdd(Tiny32, P(u), EAdd(Tiny32, P(v), P(3)))
=============================================================================
