----------------------------- MODULE MC_Session -----------------------------
(* Sessions with one party that deviates in every possible way, as the session layer and the rounds see
   it: messages are authentic, and of each part of the deviator's message only matters whether it is
   well-formed and which of two values it has; it may send other things to different parties, lie in the
   comparison of broadcasts, or say nothing. 

   What the rounds check on their own is one bit per message here (any of "ok" 0/1, "bad"); what is left is
   what the session structure guarantees: agreement on broadcasts and on what was committed to, and that
   nobody but the deviator is ever blamed.

   Variant: "full" | "noecho" (broadcasts are not compared) | "nocommit" (openings are not checked)
            | "unsigned" (the lists of received broadcasts are believed although they could be forged)
            | "eager" (a party goes on without having heard from everybody) *)
EXTENDS SessionSpec, TLC
CONSTANTS Proto, H, Rounds, Variant
Honest == 1..H
Dev == H + 1
\* what the commitment of the first round fixes
Committed == Proto \in {"keyinit", "auxgen", "refresh"}
Vals == {"0", "1"}
Absent == [e |-> "-", n |-> "-", ok |-> FALSE]
VARIABLES
  round,   \* honest party -> the round it is in
  seen,    \* honest party -> round -> what the deviator sent it: [e, n, ok, com], or Absent
  got,     \* honest party -> whose messages of this round it has
  status,  \* honest party -> "run" | "checked" | "result" | "stopped"
  blamed   \* honest party -> set of parties
vars == <<round, seen, got, status, blamed>>
E(r) == "E" \in Parts(Proto, r)
N(r) == "N" \in Parts(Proto, r)
\* com: the value the commitment sent in round 1 opens to
Msg(r) == [e : IF E(r) THEN Vals ELSE {"0"}, n : IF N(r) THEN Vals ELSE {"0"}, ok : BOOLEAN]
Init == /\ round = [p \in Honest |-> 1]
        /\ seen = [p \in Honest |-> [r \in 1..Rounds |-> Absent]]
        /\ got = [p \in Honest |-> {}]

        /\ status = [p \in Honest |-> "run"]
        /\ blamed = [p \in Honest |-> {}]
\* refuses: what the round finds wrong with the deviator's message m
Refuses(p, r, m) ==
  \/ ~m.ok
  \* the opening is the message of the second round; the commitment is the broadcast of the first
  \/ Committed /\ Variant # "nocommit" /\ r = 2 /\ m.n # seen[p][1].e
Running(p) == status[p] = "run"
RecvHonest(p, q) ==
  /\ Running(p) /\ q # p /\ q \notin got[p]
  /\ round[q] > round[p] \/ (round[q] = round[p])
  /\ got' = [got EXCEPT ![p] = @ \cup {q}]
  /\ UNCHANGED <<round, seen, status, blamed>>
RecvDev(p) ==
  /\ Running(p) /\ Dev \notin got[p]
  /\ \E m \in Msg(round[p]) :
       /\ seen' = [seen EXCEPT ![p][round[p]] = m]
       /\ got' = [got EXCEPT ![p] = @ \cup {Dev}]
       /\ blamed' = IF Refuses(p, round[p], m) THEN [blamed EXCEPT ![p] = @ \cup {Dev}] ELSE blamed
  /\ UNCHANGED <<round, status>>
All(p) == got[p] = (Honest \cup {Dev}) \ {p} \/ (Variant = "eager" /\ Honest \ {p} \subseteq got[p])
StopBlaming(p) ==
  /\ Running(p) /\ All(p) /\ blamed[p] # {}
  /\ status' = [status EXCEPT ![p] = "stopped"]
  /\ UNCHANGED <<round, seen, got, blamed>>
\* q has told what it received
Told(q, r) == round[q] > r \/ (round[q] = r /\ All(q) /\ blamed[q] = {})
\* p compares with the honest q's list; the deviator's own list says anything, but contains what others signed
Compare(p) ==
  /\ Running(p) /\ All(p) /\ blamed[p] = {} /\ E(round[p])
  /\ \A q \in Honest \ {p} : Told(q, round[p])
  /\ LET r == round[p]
         differ == Variant # "noecho" /\ \E q \in Honest \ {p} : seen[q][r] # Absent /\ seen[p][r] # Absent /\ seen[q][r].e # seen[p][r].e
     IN \E lie \in {{}} \cup (IF Variant = "unsigned" THEN {{q} : q \in Honest \ {p}} ELSE {}) :
          LET g == (IF differ THEN {Dev} ELSE {}) \cup lie IN
          IF g = {} THEN status' = [status EXCEPT ![p] = "checked"] /\ UNCHANGED blamed
          ELSE status' = [status EXCEPT ![p] = "stopped"] /\ blamed' = [blamed EXCEPT ![p] = @ \cup g]
  /\ UNCHANGED <<round, seen, got>>
Finish(p) ==
  /\ \/ Running(p) /\ All(p) /\ blamed[p] = {} /\ ~E(round[p])
     \/ status[p] = "checked"
  /\ IF round[p] = Rounds THEN status' = [status EXCEPT ![p] = "result"] /\ UNCHANGED <<round, got>>
     ELSE /\ status' = [status EXCEPT ![p] = "run"]
          /\ round' = [round EXCEPT ![p] = @ + 1]
          /\ got' = [got EXCEPT ![p] = {}]
  /\ UNCHANGED <<seen, blamed>>
Next == \E p \in Honest : StopBlaming(p) \/ Compare(p) \/ Finish(p) \/ RecvDev(p) \/ \E q \in Honest : RecvHonest(p, q)

----------------------------------------------------------------------------
Past(p, r) == round[p] > r \/ status[p] = "result"
\* those who have passed a round agree on what was broadcast in it
Agree == \A p, q \in Honest : \A r \in 1..Rounds : Past(p, r) /\ Past(q, r) /\ E(r) /\ seen[p][r] # Absent /\ seen[q][r] # Absent => seen[p][r].e = seen[q][r].e
\* ... and on the opening, though it is not compared
AgreeOpen == Committed => \A p, q \in Honest : Past(p, 2) /\ Past(q, 2) => seen[p][2].n = seen[q][2].n
\* the opening is the one that was committed to before anybody opened
Bound == Committed => \A p \in Honest : Past(p, 2) => seen[p][2].n = seen[p][1].e
\* a party that ends well has checked everything it was sent
Heard == \A p \in Honest : \A r \in 1..Rounds : Past(p, r) => seen[p][r] # Absent /\ seen[p][r].ok
Blame == \A p \in Honest : blamed[p] \subseteq {Dev}
\* the end of a session: everybody has a result, blames the deviator, or waits for it or for those who stopped
Stuck == ~ENABLED Next
Waiting(p) == IF ~All(p) THEN (Honest \cup {Dev}) \ ({p} \cup got[p]) ELSE {q \in Honest \ {p} : ~Told(q, round[p])}
Explained == \A p \in Honest : status[p] \in {"result", "stopped"} \/ (Stuck => \E q \in Waiting(p) : q = Dev \/ status[q] = "stopped" \/ round[q] < round[p])
Someone == Stuck => (\A p \in Honest : status[p] = "result") \/ \E p \in Honest : blamed[p] # {} \/ Dev \in Waiting(p)
=============================================================================
