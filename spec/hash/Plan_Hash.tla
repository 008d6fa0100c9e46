------------------------------ MODULE Plan_Hash ------------------------------
EXTENDS HashSpec, Curves, PlanKit
CONSTANTS Part, Deep, Curvs

\* ---- raw items ----
Raw(dst, items) == [op |-> "raw", dst |-> dst, items |-> items]
S(b, n) == <<<<b, n>>>>
Emp == <<>>
Lens == {0, 1, 2, 3, 7, 8, 9, 16}
Small == {Norm(S(b, n)) : b \in {0, 1, 255}, n \in Lens}
Tiny == {Norm(S(b, n)) : b \in {0, 1}, n \in {0, 1, 2, 8}}
\* an item that looks like another item with its header: the length as 1, 2, 4 or 8 bytes, in both orders
Look(n, w, be) == IF be THEN Norm(<<<<0, w - 1>>, <<n, 1>>>>) ELSE Norm(<<<<n, 1>>, <<0, w - 1>>>>)
Looks == {Norm(Look(n, w, be) \o S(1, n)) : n \in {0, 1, 2, 8}, w \in {1, 2, 4, 8, 16}, be \in BOOLEAN}
         \cup {Norm(S(1, m) \o Look(n, w, be) \o S(1, n)) : m \in {1, 2}, n \in {0, 1, 2}, w \in {1, 2, 4, 8, 16}, be \in BOOLEAN}
\* lengths around every size a header could have been cut to
Big == {Norm(S(0, n)) : n \in {127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537} \cup (IF Deep THEN {131072, 16777216} ELSE {})}
Repeat(x, n) == [k \in 1..n |-> x]
Wraps == {<<S(0, 256)>>, <<S(0, 257)>>} \cup {<<Emp>> \o Repeat(Emp, 32), Repeat(Emp, 33), Repeat(Emp, 256), Repeat(Emp, 257), <<S(0, 1)>> \o Repeat(Emp, 32)}
         \cup {<<Norm(S(0, n))>> \o Repeat(Emp, k) : n \in {0, 8, 16, 24, 32, 256, 264}, k \in 0..4}
\* an item of 2^(8w) bytes, which with its length cut to w bytes looks like an empty one followed by another
Cut(w) == LET rest == Norm(S(1, 2 ^ (8 * w) - 8)) IN
  {<<Norm(<<<<0, 8 - w>>, <<255, w - 1>>, <<248, 1>>>> \o rest)>>, <<Emp, rest>>}
Cuts == UNION {Cut(w) : w \in {1, 2} \cup (IF Deep THEN {3} ELSE {})} \cup {<<S(0, 65536)>>, Repeat(Emp, 8193)}
Dsts == {Norm(S(1, n)) : n \in 0..9} \cup {Norm(<<<<1, 1>>, <<0, n>>>>) : n \in 1..8} \cup Looks
Raws == {Raw(S(7, 1), s) : s \in {<<>>} \cup {<<a>> : a \in Small \cup Looks \cup Big} \cup {<<a, b>> : a \in Small, b \in Small}
                               \cup {<<a, b, c>> : a \in Tiny, b \in Tiny, c \in Tiny} \cup Wraps \cup Cuts}
        \cup {Raw(d, s) : d \in Dsts, s \in {<<>>} \cup {<<a>> : a \in Tiny}}

\* ---- typed items: every group is a sequence of types, its members are told apart ----
T(group, items) == [op |-> "typed", group |-> group, items |-> items]
It(t) == [t |-> t, v |-> ZZero, b |-> 0, bits |-> <<>>, runs |-> <<>>, list |-> <<>>]
Signed(z, b) == [It("signed") EXCEPT !.v = z, !.b = b]
Signeds == {Signed(ZOfInt(n), b) : n \in {0, 1, -1, 127, -127}, b \in {7, 8, 9, 16, 32}} \cup {Signed(ZOfInt(n), b) : n \in {255, -255, 256, -256}, b \in {16, 200}}
           \cup {Signed(Z(s, BNPow2(k)), b) : s \in BOOLEAN, k \in {64, 100, 126}, b \in {127, 128, 250}}
Bitss == {[It("bits") EXCEPT !.bits = s] : s \in UNION {[1..n -> BOOLEAN] : n \in 0..4}}
         \cup {[It("bits") EXCEPT !.bits = [k \in 1..n |-> k = m]] : n \in {7, 8, 9, 15, 16, 17}, m \in {0, 1, 7, 8, 9, 16}}
Hashs == {[It("hash") EXCEPT !.runs = Norm(s)] : s \in {S(0, 4), S(1, 4), S(255, 4), <<<<0, 3>>, <<1, 1>>>>, <<<<1, 1>>, <<0, 3>>>>}}
Scals(C) == {[It("scalar") EXCEPT !.v = ZOfNat(a)] : a \in {BNZero, BNOne, BNTwo, BNOfInt(256), BNPow2(24), BNSub(C.q, BNOne), BNDiv(C.q, BNTwo)}}
\* a point is given by its discrete logarithm
Pts(C) == {[It("point") EXCEPT !.v = ZOfNat(a)] : a \in {BNZero, BNOne, BNTwo, BNOfInt(3), BNSub(C.q, BNOne), BNSub(C.q, BNTwo), BNDiv(C.q, BNTwo)}}
Uints == {[It("uint") EXCEPT !.v = ZOfNat(a)] : a \in {BNZero, BNOne, BNOfInt(256), BNPow2(64), BNPow2(128), BNPow2(255), BNSub(BNPow2(256), BNOne)}}
ListOf(t, X, n) == {[It(t) EXCEPT !.list = s] : s \in UNION {[1..k -> X] : k \in 0..n}}
Some3(X) == IF Cardinality(X) <= 3 THEN X ELSE CHOOSE Y \in SUBSET X : Cardinality(Y) = 3
Kinds(C) == ("signed" :> Signeds) @@ ("bits" :> Bitss) @@ ("hash" :> Hashs) @@ ("scalar" :> Scals(C)) @@ ("point" :> Pts(C)) @@ ("uint" :> Uints)
Pick(X) == LET s == SetToSeq(X) IN {s[k] : k \in {j \in 1..Len(s) : j % (1 + (Len(s) \div 8)) = 0}}
Lone(p) == LET K == Kinds(CurveOf(p)) IN UNION {{T(p \o ":" \o t, <<x>>) : x \in K[t]} : t \in DOMAIN K}
Pairs(p) == LET K == Kinds(CurveOf(p)) IN
  UNION {{T(p \o ":" \o t \o "," \o u, <<x, y>>) : x \in Pick(K[t]), y \in Pick(K[u])} : t \in DOMAIN K, u \in DOMAIN K}
ListsOf(p) == LET K == Kinds(CurveOf(p)) IN
  UNION {{T(p \o ":list-" \o t, <<x>>) : x \in ListOf("list-" \o t, {y \in K[t] : y.v \in {ZZero, ZOfInt(1)} /\ y.b < 9 /\ Len(y.bits) < 2}, 3)} : t \in {"signed", "bits", "scalar", "point", "uint"}}
  \cup UNION {{T(p \o ":opt-" \o t, <<x>>) : x \in ListOf("opt-" \o t, K[t], 1)} : t \in DOMAIN K}
  \cup {T(p \o ":map", <<[It("map") EXCEPT !.list = s]>>) : s \in UNION {[1..k -> Scals(CurveOf(p))] : k \in 0..2}}
\* two lists behind each other: the boundary between them matters
TwoLists(p) == {T(p \o ":list-scalar,list-scalar", <<[It("list-scalar") EXCEPT !.list = a], [It("list-scalar") EXCEPT !.list = b]>>) :
    a \in UNION {[1..k -> {[It("scalar") EXCEPT !.v = ZOfInt(n)] : n \in {0, 1}}] : k \in 0..3},
    b \in UNION {[1..k -> {[It("scalar") EXCEPT !.v = ZOfInt(n)] : n \in {0, 1}}] : k \in 0..3}}
Typed == UNION {Lone(p) \cup ListsOf(p) : p \in Curvs} \cup Pairs("test") \cup TwoLists("test")

\* ---- parameter sets: the base, and copies with one constant changed ----
ParamSets == {[op |-> "params", name |-> n] : n \in {"test", "p112", "p128", "prime_bits", "security_bits", "security_parameter", "l", "lp", "eps", "curve"}}

\* ---- draws ----
Streams == {[k \in 1..80 |-> 0], [k \in 1..80 |-> 255], [k \in 1..80 |-> IF k = 1 THEN 128 ELSE 0], [k \in 1..80 |-> IF k = 1 THEN 1 ELSE 0],
            [k \in 1..80 |-> (k * 167 + 13) % 256], [k \in 1..80 |-> (k * k * 31 + 7 * k + 90) % 256], [k \in 1..80 |-> IF k % 2 = 0 THEN 170 ELSE 85],
            [k \in 1..80 |-> k]}
Draw(op, n, s) == [op |-> op, n |-> n, stream |-> s]
Widths == {1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256}
Draws == {Draw("d_uint", n, s) : n \in Widths, s \in Streams}
         \cup {Draw("d_signed", n, s) : n \in Widths \ {256}, s \in Streams}
         \cup {Draw("d_bits", n, s) : n \in {0, 1, 2, 7, 8, 9, 15, 16, 17, 32, 80, 112, 128, 256}, s \in Streams}
         \cup {Draw("d_hash", n, s) : n \in {1, 2, 3, 4, 5, 8, 16, 20, 112, 128, 256}, s \in Streams}
         \cup {Draw("d_scalar_" \o p, 0, s) : p \in {"test", "p112"}, s \in Streams \ {[k \in 1..80 |-> 0]}}
Xors == {[op |-> "xor", a |-> a, b |-> b] : a \in UNION {[1..n -> BOOLEAN] : n \in 0..3}, b \in UNION {[1..n -> BOOLEAN] : n \in 0..3}}
        \cup {[op |-> "xor", a |-> [k \in 1..n |-> k % 3 = 0], b |-> [k \in 1..n |-> k % 5 < 2]] : n \in {8, 9, 17, 256}}
Randoms == {[op |-> "rbits", n |-> n] : n \in {0, 1, 2, 7, 8, 9, 15, 16, 17, 32, 128, 256}}

ASSUME WritePlan(<<Raws, Typed, ParamSets, Draws, Xors, Randoms>>)
=============================================================================
