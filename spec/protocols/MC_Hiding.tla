------------------------------ MODULE MC_Hiding ------------------------------
(* Why the values that hide the secrets have to be fresh, from the whole range, and different for everybody: over a small field, what somebody
   sees is the same for all secrets, counting over all draws - and is not when they are drawn otherwise.
     "product"  two receivers put together what they got for k1, k2 from one who has g: k*g - beta
     "change"   somebody listens to the changes of shares sent to two parties: x + mask, for x that he would like to know
     "reshare"  Threshold - 1 new holders put together their parts of a secret
   Draw: "fresh" two (or more) independent draws from the whole range; "shared" one for both; "narrow" from half of the range; "some" never zero. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Q, What, Draw
F == 0..(Q - 1)
Range == CASE Draw = "narrow" -> 0..(Q \div 2) [] Draw = "some" -> 1..(Q - 1) [] OTHER -> F
Draws == IF Draw = "shared" THEN {<<d, d>> : d \in Range} ELSE Range \X Range
\* what is seen of a secret s (a pair of numbers) when d was drawn; k is known to the one who looks
View(k, s, d) ==
  CASE What = "product" -> <<(k[1] * s[1] + d[1]) % Q, (k[2] * s[1] + d[2]) % Q>>
    [] What = "change" -> <<(s[1] + d[1]) % Q, (s[2] + d[2]) % Q>>
    \* holders k of a polynomial of degree two
    [] What = "reshare" -> <<(s[1] + d[1] * k[1] + d[2] * k[1] * k[1]) % Q, (s[1] + d[1] * k[2] + d[2] * k[2] * k[2]) % Q>>
VARIABLES k, s, t
Known(x) == What # "reshare" \/ (x[1] # x[2] /\ 0 \notin {x[1], x[2]})
Init == k \in {x \in F \X F : Known(x)} /\ s \in F \X F /\ t \in F \X F
Next == UNCHANGED <<k, s, t>>
Times(x, v) == Cardinality({d \in Draws : View(k, x, d) = v})
Hidden == \A v \in F \X F : Times(s, v) = Times(t, v)
=============================================================================
