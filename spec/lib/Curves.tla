------------------------------- MODULE Curves -------------------------------
(* The two curves the crate ships parameters for. MC_Curves checks the constants. *)
EXTENDS Curve
Tiny32 == [p |-> <<32615, 32767, 3>>, a |-> <<32612, 32767, 3>>, b |-> <<8>>, gx |-> <<4937, 32128, 3>>, gy |-> <<4183, 13530>>, q |-> <<3847, 32766, 3>>]
Secp256k1 ==
  [p |-> <<31791, 32767, 32763, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 1>>, a |-> <<>>, b |-> <<7>>, gx |-> <<6040, 11760, 1388, 20372, 3477, 14789, 14027, 19966, 1794, 3606, 22330, 788, 17754, 6005, 15991, 13119, 31166>>, gy |-> <<21688, 30241, 16959, 25150, 16793, 20650, 4649, 3034, 10493, 8721, 28728, 10207, 21978, 30860, 18856, 27963, 18490>>, q |-> <<16705, 8300, 31283, 32402, 955, 26900, 14763, 22382, 32442, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 1>>]
CurveOf(name) == IF name = "test" THEN Tiny32 ELSE Secp256k1
\* bit length of the group order (kappa)
QBits(C) == BNBits(C.q)
=============================================================================
