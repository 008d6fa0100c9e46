----------------------------- MODULE MC_Framing -----------------------------
(* Length-prefixed framing is one-to-one: all sequences of up to MaxItems items over a small
   alphabet, with one-symbol lengths; framing without lengths, or with the length behind the item,
   or with a length that wraps, is not. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Alphabet, MaxLen, MaxItems, Variant
Wrap == IF Variant = "wrap" THEN 2 ELSE 100
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE Strs(n - 1) \cup {Append(s, a) : s \in {x \in Strs(n - 1) : Len(x) = n - 1}, a \in Alphabet}
Items == Strs(MaxLen)
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE Lists(n - 1) \cup {Append(s, i) : s \in {x \in Lists(n - 1) : Len(x) = n - 1}, i \in Items}
Frame(i) == CASE Variant = "none" -> i
              [] Variant = "behind" -> Append(i, Len(i))
              [] OTHER -> <<Len(i) % Wrap>> \o i
RECURSIVE Enc(_)
Enc(s) == IF s = <<>> THEN <<>> ELSE Frame(Head(s)) \o Enc(Tail(s))
All == Lists(MaxItems)
\* one-to-one, and no encoding of n items continues another one of n items (so a transcript can go on)
Injective == /\ Cardinality({Enc(s) : s \in All}) = Cardinality(All)
PrefixFree == \A s, t \in {x \in All : Len(x) <= 2} : Len(s) = Len(t) /\ s # t =>
  LET a == Enc(s) b == Enc(t) IN ~(Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Framing == Injective /\ PrefixFree
=============================================================================
