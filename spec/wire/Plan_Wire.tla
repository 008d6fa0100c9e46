------------------------------ MODULE Plan_Wire ------------------------------
EXTENDS WireSpec, PlanKit
CONSTANTS Deep

Call(op, p, human, bytes) == [op |-> op, params |-> p, human |-> human, text |-> "usual", bytes |-> bytes, neg |-> FALSE, bound |-> 0]
\* big-endian bytes
RECURSIVE ToBE(_, _)
ToBE(a, n) == IF n = 0 THEN <<>> ELSE ToBE(BNDiv(a, BNOfInt(256)), n - 1) \o <<BNToInt(BNMod(a, BNOfInt(256)))>>
Zeros(n) == [k \in 1..n |-> 0]
Fulls(n) == [k \in 1..n |-> 255]
Resize(s, n) == IF n >= Len(s) THEN Zeros(n - Len(s)) \o s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Append0(s, n) == IF n >= Len(s) THEN s \o Zeros(n - Len(s)) ELSE SubSeq(s, 1, n)
M1(k) == BNSub(BNPow2(k), BNOne)
Hum == {FALSE, TRUE}

Scalars(p) ==
  LET C == CurveOf(p)  n == FieldLen(p)
      Near == {BNZero, BNOne, BNOfInt(255), BNOfInt(256), BNSub(C.q, BNTwo), BNSub(C.q, BNOne), C.q, BNAdd(C.q, BNOne), C.p, BNSub(C.p, BNOne),
               BNDiv(C.q, BNTwo), BNDiv(C.q, BNOfInt(7)), M1(8 * n), BNPow2(8 * n - 1)}
              \cup {BNPow2(k) : k \in {31, 32, 33, 63, 64, 65, 127, 128, 160} \ {j \in 1..200 : j >= 8 * n}}
              \cup {BNAdd(BNPow2(k), BNOne) : k \in {32, 64, 128, 184}}
              \cup {BNMul(C.q, BNOfInt(k)) : k \in IF p = "test" THEN {2, 3, 5} ELSE {1}}
  IN {Call("scalar", p, h, ToBE(a, n)) : h \in Hum, a \in Near}
     \cup {Call("scalar", p, h, Resize(ToBE(a, n), m)) : h \in Hum, a \in {BNOne, BNSub(C.q, BNOne), BNPow2(8)}, m \in {0, 1, 2, n - 1, n + 1, n + 8, 2 * n}}
     \cup {Call("scalar", p, h, Append0(ToBE(a, n), m)) : h \in Hum, a \in {BNOne, BNPow2(8)}, m \in {n - 1, n + 1}}

Points(p) ==
  LET C == CurveOf(p)  n == FieldLen(p)
      Dlogs == {BNOne, BNTwo, BNOfInt(3), BNSub(C.q, BNOne), BNDiv(C.q, BNTwo), BNDiv(C.q, BNOfInt(7))}
      Xs == {EMulG(C, d).x : d \in Dlogs} \cup {BNOfInt(k) : k \in 0..12} \cup {BNSub(C.p, BNOfInt(k)) : k \in 1..8} \cup {BNAdd(C.p, BNOfInt(k)) : k \in 0..8} \cup {M1(8 * n)}
            \cup {BNAdd(EMulG(C, d).x, C.p) : d \in IF p = "test" THEN Dlogs ELSE {}}
      Comp(t, x) == <<t>> \o ToBE(x, n)
      Full(t, x, y) == <<t>> \o ToBE(x, n) \o ToBE(y, n)
      G == Gen(C)
      H == EMulG(C, BNOfInt(3))
  IN {Call("point", p, h, Comp(t, x)) : h \in Hum, t \in {2, 3}, x \in Xs}
     \cup {Call("point", p, h, Comp(t, G.x)) : h \in Hum, t \in {0, 1, 4, 5, 6, 7, 8, 130, 255}}
     \cup {Call("point", p, h, Full(t, G.x, y)) : h \in Hum, t \in {0, 2, 3, 4, 5, 6, 7}, y \in {G.y, BNSub(C.p, G.y), BNAdd(G.y, BNOne), H.y, BNZero}}
     \cup {Call("point", p, h, Full(4, x, y)) : h \in Hum, x \in {BNZero, BNOne, H.x, C.p}, y \in {H.y, BNZero, BNOne, C.p}}
     \cup {Call("point", p, h, s) : h \in Hum, s \in {<<>>} \cup {<<t>> : t \in {0, 1, 2, 3, 4, 5, 255}} \cup {Zeros(m) : m \in {2, n, n + 1, n + 2, 2 * n + 1}}
           \cup {SubSeq(Comp(t, G.x), 1, n) : t \in {2, 3}} \cup {Comp(t, G.x) \o <<0>> : t \in {2, 3}} \cup {<<2>> \o Resize(ToBE(G.x, n), m) : m \in {1, n - 1, n + 1, 2 * n}}}

Lens == {0, 1, 2, 8, 16, 31, 33, 40, 64}
Nums == {BNZero, BNOne, BNOfInt(256), BNPow2(255), M1(256), BNPow2(64), BNDiv(M1(256), BNOfInt(11))}
Uints == {Call("uint", "", h, ToBE(a, 32)) : h \in Hum, a \in Nums}
         \cup {Call("uint", "", h, Resize(ToBE(a, 32), n)) : h \in Hum, a \in {BNZero, BNOne, M1(256)}, n \in Lens}
Near(n) == {BNSub(n, BNTwo), BNSub(n, BNOne), n, BNAdd(n, BNOne)}
Moduli == {Call("modulus", "test", h, ToBE(a, 32)) : h \in Hum, a \in Nums \cup Near(BNPow2(255)) \cup Near(BNDiv(M1(256), BNOfInt(7))) \cup {BNTwo, BNOfInt(3), BNPow2(32), BNPow2(128)}}
          \cup {Call("modulus", "test", h, Resize(ToBE(a, 32), n)) : h \in Hum, a \in {BNZero, BNOne, M1(256)}, n \in Lens}
Sig(h, neg, bound, s) == [Call("signed", "", h, s) EXCEPT !.neg = neg, !.bound = bound]
Bounds == {0, 1, 2, 7, 8, 9, 15, 16, 17, 127, 128, 129, 160, 247, 248, 249, 254, 255}
Over == {256, 257, 511, 512, 65535, 65536, 65536 + 8, 2147483640}
Signeds == UNION {{Sig(h, neg, b, Resize(ToBE(a, 40), CeilDiv(b, 8))) : h \in Hum, neg \in Hum,
                   a \in {BNZero, BNOne, BNPow2(b), M1(b)} \cup (IF b > 0 THEN {BNPow2(b - 1), BNSub(BNPow2(b), BNTwo)} ELSE {}) \cup {M1(8 * CeilDiv(b, 8))}} : b \in Bounds}
           \* other lengths than the bound suggests
           \cup {Sig(h, neg, b, Resize(ToBE(a, 40), n)) : h \in Hum, neg \in Hum, b \in {0, 7, 8, 9, 128, 255}, a \in {BNZero, BNOne, BNOfInt(128), M1(7), M1(8), M1(9)}, n \in {0, 1, 2, 3, 16, 31, 32, 33, 34, 40}}
           \* bounds that no value of the type can have
           \cup UNION {{Sig(h, neg, b, Resize(ToBE(a, 40), n)) : h \in Hum, neg \in Hum, a \in {BNZero, BNOne, M1(255), M1(256), BNPow2(255)}, n \in {1, 32, 33, CeilDiv(IF b < 600 THEN b ELSE 256, 8)}} : b \in Over}
           \* the sign bit of the word
           \cup {Sig(h, neg, b, ToBE(a, 32)) : h \in Hum, neg \in Hum, b \in {249, 254, 255}, a \in {BNPow2(255), M1(256), M1(255), BNPow2(254), BNPow2(253)}}
Bit(h, n, s) == [Call("bits", "", h, s) EXCEPT !.bound = n]
Some8 == {0, 1, 128, 127, 255, 90}
BitVecs == {Bit(h, n, <<a, b>>) : h \in Hum, n \in {0, 1, 7, 8, 9, 10, 15, 16, 17, 24, 31, 2147483640}, a \in Some8, b \in Some8}
           \cup {Bit(h, n, <<a>>) : h \in Hum, n \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16}, a \in Some8}
           \cup {Bit(h, n, <<>>) : h \in Hum, n \in {0, 1, 7, 8, 9}}
           \cup {Bit(h, n, [k \in 1..m |-> (k * 89) % 256]) : h \in Hum, n \in {128, 250, 256, 257}, m \in {15, 16, 17, 31, 32, 33}}
Hashes == {Call("hash", "", h, s) : h \in Hum, s \in {<<>>, <<0>>, <<255>>, Zeros(4), Fulls(4), Zeros(32), Fulls(32), [k \in 1..28 |-> (k * 77) % 256], [k \in 1..33 |-> k]}}
\* texts that are written differently, and ones that are none
Texts == UNION {{[c EXCEPT !.text = t] : t \in {"bare", "upper", "odd", "digit", "type"}} :
  c \in {Call("scalar", p, TRUE, ToBE(BNOfInt(171), FieldLen(p))) : p \in {"test", "p112"}} \cup {Call("point", p, TRUE, <<2>> \o ToBE(Gen(CurveOf(p)).x, FieldLen(p))) : p \in {"test", "p112"}}
        \cup {Call("uint", "", TRUE, ToBE(BNOfInt(171), 32)), Sig(TRUE, FALSE, 16, <<1, 171>>), Call("hash", "", TRUE, <<171, 205, 1>>)}}
\* a wrong type in the binary form
Types == {[c EXCEPT !.text = "type"] : c \in {Call("scalar", "test", FALSE, ToBE(BNOne, 24)), Call("point", "test", FALSE, <<0>>), Call("uint", "", FALSE, ToBE(BNOne, 32)),
          Sig(FALSE, FALSE, 16, <<1, 1>>), Call("hash", "", FALSE, <<1>>), Bit(FALSE, 8, <<1>>), Bit(TRUE, 8, <<1>>)}}

\* round trips of everything that is sent or stored
Trip(what, p, n, h) == [op |-> "trip", what |-> what, params |-> p, n |-> n, human |-> h]
Whats == {"pk", "sk", "cipher", "masked", "rp", "rpcom", "keyshare", "tshare", "change", "aux", "subset", "share_id", "poly"}
Trips == {Trip(w, p, n, h) : w \in Whats, p \in (IF Deep THEN {"test", "p112"} ELSE {"test"}), n \in {1, 2, 3, 5}, h \in Hum}

ASSUME WritePlan(<<UNION {Scalars(p) \cup Points(p) : p \in {"test", "p112"}}, Uints, Moduli, Signeds, BitVecs, Hashes, Texts, Types, Trips>>)
=============================================================================
