----------------------------- MODULE MC_Signing -----------------------------
(* The arithmetic of interactive signing over a small field, with two parties; a point is its discrete
   logarithm.  k, gam, x: the parties' nonces, masks and key shares; b, hb: what each adds in the two
   multiplications (as exact integers modulo Q; that nothing wraps around is the business of ParamSpec).
   Party 2 deviates by e[i] in what it announces:
     1 delta  2 Delta (excluded by its proof)  3 S  4 sigma  5 what it feeds into the multiplication
     6 its share of key times nonce, in S and sigma alike
   Checks: "delta" the announced deltas fit the Deltas; "chi" the S fit the key; "sigma" the signature
   shares fit Delta and S; "Delta" the proof about Delta *)
EXTENDS Integers, FiniteSets
CONSTANTS Q, B, Checks, Errors
F == 0..(Q - 1)
M(a) == a % Q
Inv(a) == CHOOSE b \in F : (a * b) % Q = 1
VARIABLES k, gam, x, b, hb, m, r, which, e
vars == <<k, gam, x, b, hb, m, r, which, e>>
Two == {1, 2}
Init == /\ k \in [Two -> F] /\ gam \in [Two -> F] /\ x \in [Two -> F]
        /\ b \in [Two -> 0..B] /\ hb \in [Two -> 0..B] /\ m \in F /\ r \in 1..(Q - 1)
        /\ which \in Errors /\ e \in IF which = 0 THEN {0} ELSE 1..(Q - 1)
Next == FALSE /\ UNCHANGED vars
O(i) == 3 - i
Err(n) == IF which = n THEN e ELSE 0
\* gamma as used by i in the multiplication with the other's nonce
Used(i) == gam[i] + (IF i = 2 THEN Err(5) ELSE 0)
\* i decrypts k_i * gamma_j - b_j, and adds b_i of its own
DeltaOf(i) == gam[i] * k[i] + (k[i] * Used(O(i)) - b[O(i)]) + b[i]
ChiOf(i) == x[i] * k[i] + (k[i] * x[O(i)] - hb[O(i)]) + hb[i] + (IF i = 2 THEN Err(6) ELSE 0)
Gam == M(gam[1] + gam[2])
AnnDelta(i) == M(DeltaOf(i) + (IF i = 2 THEN Err(1) ELSE 0))
AnnCap(i) == M(k[i] * Gam + (IF i = 2 THEN Err(2) ELSE 0))
AnnS(i) == M(ChiOf(i) * Gam + (IF i = 2 THEN Err(3) ELSE 0))
Delta == M(AnnDelta(1) + AnnDelta(2))
Key == M(x[1] + x[2])
Sigma(i) == M((k[i] * m + r * ChiOf(i)) * Inv(Delta) + (IF i = 2 THEN Err(4) ELSE 0))
Goes == /\ Gam # 0
        /\ "Delta" \in Checks => Err(2) = 0
        /\ "delta" \in Checks => Delta = M(AnnCap(1) + AnnCap(2))
        /\ "chi" \in Checks => M(AnnS(1) + AnnS(2)) = M(Key * Delta)
        /\ Delta # 0
        /\ "sigma" \in Checks => \A i \in Two : M(Sigma(i) * Gam * Delta) = M(m * AnnCap(i) + r * AnnS(i))
\* the nonce of the signature is Gam
Valid == M((Sigma(1) + Sigma(2)) * Gam) = M(m + r * Key)
Sound == Goes => Valid
\* the nonce stays the product of what was fixed earlier
Nonce == Goes => Delta = M((k[1] + k[2]) * Gam) \/ "Delta" \notin Checks
Honestly == which = 0 /\ Gam # 0 /\ M(k[1] + k[2]) # 0 => Goes /\ Valid
=============================================================================
