----------------------------- MODULE DeriveSpec -----------------------------
(* Hierarchical derivation (BIP-32, public derivation only).  A path is a sequence of steps
   [i |-> index as a natural below 2^31, hard |-> whether it is hardened].  Deriving shifts the key by a sum
   of tweaks that depends on the public key and the path only, so the same shift applies to every
   share of a threshold sharing.  The first chain code is a hash of the public key. *)
EXTENDS SharingSpec, Hashes

\* the 33 bytes that stand for a point
PointBytes(p, P) == LET tag == IF BNOdd(P.y) THEN 3 ELSE 2 IN
  IF p = "test" THEN Zeros(8) \o <<tag>> \o NatToBytes(P.x, 24) ELSE <<tag>> \o NatToBytes(P.x, 32)
Label == <<99, 104, 97, 105, 110, 45, 99, 111, 100, 101, 45, 100, 101, 114, 105, 118, 97, 116, 105, 111, 110>>  \* chain-code-derivation
FirstChain(p, P) == LET h == SHA256(Label \o PointBytes(p, P)) IN
  IF p = "test" THEN Zeros(20) \o SubSeq(h, 21, 24) \o Zeros(8) ELSE h
\* the scalar a left half stands for; the small curve takes its last 24 bytes modulo q - 1, plus 1
TweakScalar(p, C, l) == IF p = "test" THEN BNAdd(BNMod(BytesToNat(SubSeq(l, 9, 32)), BNSub(C.q, BNOne)), BNOne) ELSE BytesToNat(l)

\* the state after a path: public key, chain code, sum of the tweaks so far, and whether it is refused
Start(p, P) == [pk |-> P, cc |-> FirstChain(p, P), sum |-> BNZero, bad |-> FALSE]
Step(p, C, s, e) ==
  IF s.bad \/ e.hard THEN [s EXCEPT !.bad = TRUE]
  ELSE LET h == HMACSHA512(s.cc, PointBytes(p, s.pk) \o NatToBytes(e.i, 4))
           t == TweakScalar(p, C, SubSeq(h, 1, 32))
           P == EAdd(C, s.pk, EMulG(C, t))
       IN IF t = BNZero \/ ~BNLt(t, C.q) \/ P.inf THEN [s EXCEPT !.bad = TRUE]
          ELSE [pk |-> P, cc |-> SubSeq(h, 33, 64), sum |-> SAdd(C, s.sum, t), bad |-> FALSE]
RECURSIVE Walk(_, _, _, _)
Walk(p, C, s, path) == IF path = <<>> THEN s ELSE Walk(p, C, Step(p, C, s, Head(path)), Tail(path))
Derived(p, C, P, path) == Walk(p, C, Start(p, P), path)
=============================================================================
