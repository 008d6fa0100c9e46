----------------------------- MODULE Plan_Life -----------------------------
(* Histories of a key to run with the real code: every order of a few operations that LifeSpec allows (what they are
   applied to drawn at random), and long random ones. *)
EXTENDS LifeSpec, PlanKit, Randomization
CONSTANTS Deep
Everyone == {3, 11, 12, 20, 500}
Sets == {S \in SUBSET Everyone : Cardinality(S) \in 2..4}
Op(do, S, new, t, who, path) == [do |-> do, q |-> InOrder(S), new |-> InOrder(new), t |-> t, who |-> who, path |-> path]
Soft == {<<0>>, <<1>>, <<2147483647>>, <<44, 0, 7>>}
\* all operations that are possible, or that are worth an attempt; cheap ones alone if ~all
Ops(f, all) ==
  LET o == UNION {
        {Op("init", S, {}, 0, 0, <<>>) : S \in {S \in Sets : f.kind = "none" /\ Cardinality(S) <= 3}},
        UNION {{Op("deal", S, {}, t, 0, <<>>) : t \in 1..Cardinality(S)} : S \in {S \in Sets : f.kind = "none"}},
        {Op(do, f.ids, {}, 0, 0, <<>>) : do \in {"refresh"}},
        {Op("auxgen", S, {}, 0, 0, <<>>) : S \in {f.ids} \cup (IF f.ids # {} THEN {f.ids \cup {20}} ELSE {})},
        {Op(do, S, {}, 0, 0, <<>>) : do \in {"sign", "toadd", "few"}, S \in SUBSET f.ids \ {{}}},
        {Op("few", S \cup {501}, {}, 0, 0, <<>>) : S \in SUBSET f.ids},
        {Op("tothr", {}, {}, 0, 0, <<>>), Op("store", {}, {}, 0, 0, <<>>), Op("hard", {}, {}, 0, 0, <<7>>), Op("hard", {}, {}, 0, 0, <<1, 0, 5>>)},
        UNION {UNION {{Op("reshare", S, W, t, 0, <<>>) : t \in 1..Cardinality(W)} : W \in Sets \cup {f.ids}} : S \in {S \in SUBSET f.ids : f.kind = "thr" /\ Can(f, S)}},
        {Op("derive", {}, {}, 0, 0, p) : p \in Soft},
        UNION {{Op("stale", S, {}, 0, w, <<>>) : w \in S} : S \in SUBSET f.ids}}
  IN {x \in o : Enabled(f, x) /\ (all \/ x.do \notin {"auxgen", "refresh", "sign", "stale"})
        \* the primes of many parties take time
        /\ (x.do \in {"auxgen", "refresh"} => Len(x.q) <= 3)
        \* additive shares of a single holder are of no use
        /\ (x.do = "toadd" => Len(x.q) >= 2)}
Names(s) == {o.do : o \in s}
RECURSIVE Walk(_, _, _)
Walk(f, n, all) ==
  IF n = 0 THEN <<>>
  ELSE CHOOSE w \in {<<o>> \o Walk(Form(f, o), n - 1, all) : o \in {LET s == Ops(f, all) IN
         CHOOSE p \in {RandomElement({x \in s : x.do = d}) : d \in {RandomElement(Names(s))}} : TRUE}} : TRUE
\* all orders of the names given, as far as they are possible
RECURSIVE Orders(_, _)
Orders(f, n) == IF n = 0 THEN {<<>>}
  ELSE LET s == Ops(f, TRUE) IN
    UNION {UNION {{<<o>> \o w : w \in Orders(Form(f, o), n - 1)} : o \in {RandomElement({x \in s : x.do = d})}} : d \in Names(s)}
\* with auxiliary data from the start, so that signing is among the operations
Begin == UNION {{<<o>> \o <<a>> : a \in {[o EXCEPT !.do = "auxgen", !.t = 0]}} : o \in {Op("init", {3, 11, 500}, {}, 0, 0, <<>>), Op("deal", {3, 11, 20}, {}, 2, 0, <<>>)}}
After(w) == Form(Form(Nothing, w[1]), w[2])
Case(p, k, w) == [op |-> "life", params |-> p, k |-> k, steps |-> w]
Most(s, n) == IF Cardinality(s) <= n THEN s ELSE RandomSubset(n, s)
Every == UNION {{w \o x : x \in Most(Orders(After(w), IF Deep THEN 3 ELSE 2), IF Deep THEN 1000 ELSE 100)} : w \in Begin}
\* a change of the secrets, then whatever keeps them, then signing with a share from before the change, and without it
Again(w) == LET f == After(w) IN
  UNION {UNION {LET h == Form(f, c) s == {x \in Ops(h, TRUE) : x.do = "toadd"} IN
    UNION {LET g == Form(h, x[1]) st == {y \in Ops(g, TRUE) : y.do = "stale"} y == RandomElement(st) IN
           IF st = {} THEN {} ELSE {w \o <<c>> \o x \o <<y, [y EXCEPT !.do = "sign", !.who = 0]>>} : x \in {<<Op("store", {}, {}, 0, 0, <<>>)>>} \cup {<<x>> : x \in Most(s, 2)}}
    : c \in Most({c \in Ops(f, TRUE) : c.do = d /\ (d = "reshare" => Ids(c.new) = f.ids)}, IF Deep THEN 8 ELSE 4)} : d \in {"refresh", "reshare", "derive"}}
Long == {Walk(Nothing, IF Deep THEN 20 ELSE 10, TRUE) : k \in 1..(IF Deep THEN 300 ELSE 60)}
Cheap == {Walk(Nothing, IF Deep THEN 12 ELSE 8, FALSE) : k \in 1..(IF Deep THEN 100 ELSE 30)}
ASSUME WritePlan(<<{Case("test", 0, w) : w \in Every}, {Case("test", 3, w) : w \in UNION {Again(w) : w \in Begin}}, {Case("test", 1, w) : w \in Long}, {Case("test", 2, w) : w \in Cheap}, {Case("p112", 2, w) : w \in Cheap}>>)
=============================================================================
