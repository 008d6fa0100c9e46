------------------------------- MODULE MC_Life -------------------------------
(* All histories over the field with Q elements and holders 1..N, with thresholds up to 2 and N.
   The state machine computes the secrets the way the library's operations do; whatever it reaches is a sharing
   of the key (Whole), and every step is one that LifeSpec allows (Steps).
   Wrong: "" or what is done differently (then Whole fails):
     "plain" resharing of the shares instead of the parts, "sum" derivation from additive shares that all get the
     shift, "change" refreshing with changes that do not add up, "places" conversion to a threshold sharing without
     dividing the coefficients out. *)
EXTENDS LifeSpec, Integers, TLC
CONSTANTS Q, N, Wrong
C == [q |-> BNOfInt(Q)]
F == {BNOfInt(k) : k \in 0..(Q - 1)}
VARIABLES f, at, sh, key, last
vars == <<f, at, sh, key, last>>
S0(S) == {x \in SUBSET S : x # {}}
Maps(q, V) == {[k \in 1..Len(q) |-> <<q[k], v[k]>>] : v \in [1..Len(q) -> V]}
Polys(t) == [1..t -> F]
Places(q) == [k \in 1..Len(q) |-> <<q[k], BNOfInt(k)>>]
Op(do) == [do |-> do, q |-> <<>>, new |-> <<>>, t |-> 0, who |-> 0, path |-> <<>>]
Init == f = Nothing /\ at = <<>> /\ sh = <<>> /\ key = BNZero /\ last = Op("none")
\* the form before is not needed for the secrets
Do(o) == last' = o /\ Enabled(f, o) /\ f' = [Form(f, o) EXCEPT !.prev = Nothing.prev, !.aux = {}]
Deal == \E S \in S0(1..N), t \in 1..N : LET q == InOrder(S) o == [Op("deal") EXCEPT !.q = q, !.t = t] IN
  /\ Do(o) /\ at' = Places(q)
  /\ \E a \in Polys(IF t > 2 THEN 0 ELSE t) : t <= 2 /\ key' = a[1] /\ sh' = [k \in 1..Len(q) |-> <<q[k], PolyEval(C, a, BNOfInt(k))>>]
Generate == \E S \in S0(1..N) : LET q == InOrder(S) o == [Op("init") EXCEPT !.q = q] IN
  /\ Do(o) /\ at' = <<>> /\ sh' \in Maps(q, F) /\ key' = SSumSeq(C, Vals(sh'))
Refresh == LET q == InOrder(f.ids) o == [Op("refresh") EXCEPT !.q = q] IN
  /\ Do(o) /\ UNCHANGED <<at, key>>
  \* every party contributes changes for all that add up to zero; so do their sums
  /\ \E d \in [1..Len(q) -> F] : (SSumSeq(C, d) = BNZero \/ Wrong = "change") /\ sh' = [k \in 1..Len(q) |-> <<q[k], SAdd(C, At(sh, q[k]), d[k])>>]
ToThr == LET q == InOrder(f.ids) IN
  /\ Do(Op("tothr")) /\ at' = Places(q) /\ UNCHANGED key
  /\ sh' = [k \in 1..Len(q) |-> <<q[k], IF Wrong = "places" THEN At(sh, q[k]) ELSE SMul(C, At(sh, q[k]), SInv(C, Lagrange(C, Vals(Places(q)), BNOfInt(k))))>>]
ToAdd == \E S \in S0(f.ids) : LET q == InOrder(S) p == Parts(C, at, sh, q) IN
  /\ Do([Op("toadd") EXCEPT !.q = q]) /\ at' = <<>> /\ UNCHANGED key
  /\ sh' = [k \in 1..Len(q) |-> <<q[k], p[k]>>]
\* the polynomials of the old holders q add up to one with this constant term; the rest of it is arbitrary
Reshare == \E S \in S0(f.ids), W \in S0(1..N), t \in 1..2 :
  LET q == InOrder(S) w == InOrder(W) IN
  /\ Do([Op("reshare") EXCEPT !.q = q, !.new = w, !.t = t])
  /\ at' = Places(w) /\ UNCHANGED key
  /\ \E a \in Polys(t) :
       /\ a[1] = SSumSeq(C, IF Wrong = "plain" THEN On(sh, q) ELSE Parts(C, at, sh, q))
       /\ sh' = [k \in 1..Len(w) |-> <<w[k], PolyEval(C, a, BNOfInt(k))>>]
Shift(x) == BNMod(BNAdd(BNMul(x, x), BNOne), C.q)    \* any function of the key
Derive == /\ IF Wrong = "sum" THEN f.kind = "add" /\ UNCHANGED f /\ last' = Op("derive") ELSE Do(Op("derive"))
          /\ at' = at /\ key' = SAdd(C, key, Shift(key)) /\ sh' = [k \in 1..Len(sh) |-> <<sh[k][1], SAdd(C, sh[k][2], Shift(key))>>]
Next == Generate \/ Deal \/ (f.kind = "add" /\ (Refresh \/ ToThr)) \/ (f.kind = "thr" /\ (ToAdd \/ Reshare)) \/ (f.kind # "none" /\ Derive)
View == <<f, at, sh, key>>
Whole == f.kind # "none" => Shaped(f, at, sh) /\ IsKey(C, f, at, sh, key)
Steps == [][Moved(C, f, at, sh, last', at', sh', Shift(key)) /\ Shaped(f', at', sh')]_vars
=============================================================================
