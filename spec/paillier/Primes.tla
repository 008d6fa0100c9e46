------------------------------- MODULE Primes -------------------------------
(* Primes at the ends and in the middle of the range allowed for Paillier keys. *)
EXTENDS PaillierSpec

RECURSIVE PrimeFrom(_, _)
\* the first prime = 3 (mod 4) at or above n (n = 3 mod 4)
PrimeFrom(n, step) == IF BNIsPrime(n) THEN n ELSE PrimeFrom(IF step = "up" THEN BNAdd(n, <<4>>) ELSE BNSub(n, <<4>>), step)

\* keys at the ends of the range of primes, lopsided ones, and one from the middle
Low(k) == PrimeFrom(BNAdd(BNMul(<<3>>, BNPow2(k - 2)), <<3>>), "up")
Low2(k) == PrimeFrom(BNAdd(Low(k), <<4>>), "up")
High(k) == PrimeFrom(BNSub(BNPow2(k), BNOne), "down")
High2(k) == PrimeFrom(BNSub(High(k), <<4>>), "down")
MidNum(k) == BNMul(<<4>>, BNDiv(BNMul(BNOfInt(13), BNPow2(k - 3)), BNOfInt(17)))
Mid(k) == PrimeFrom(BNAdd(BNAdd(BNPow2(k - 1), MidNum(k)), <<3>>), "up")
=============================================================================
