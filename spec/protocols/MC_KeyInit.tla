----------------------------- MODULE MC_KeyInit -----------------------------
(* Why key initialisation commits first and proves knowledge last.  Contributions are symbolic: a value is
   what the deviator knows by itself (own), the contribution of an honest party (copy), or one chosen so
   that the whole key becomes a value of its choice (cancel).  The deviator speaks last in every round.
   An ideal commitment opens only to what was committed to, and names its owner.

   Checks: the set of checks the honest parties make
     "open"  the opening fits the commitment
     "owner" a commitment is tied to who made it
     "know"  contributions come with a proof of knowledge
     "whose" such a proof is tied to who made it *)
EXTENDS Integers, FiniteSets
CONSTANTS H, Checks
Honest == 1..H
Dev == H + 1
Own == {[kind |-> "own", v |-> a] : a \in 0..1}
Copy == {[kind |-> "copy", v |-> p] : p \in Honest}
Cancel == {[kind |-> "cancel", v |-> a] : a \in 0..1}
None == [kind |-> "none", v |-> 0]
\* a commitment: who made it and to what
Com(p, v) == [owner |-> p, value |-> v]
NoCom == Com(0, None)
VARIABLES step, com, contrib, verdict
vars == <<step, com, contrib, verdict>>
Init == step = "commit" /\ com = NoCom /\ contrib = None /\ verdict = "run"
\* it may copy a commitment without knowing what it opens to
Commit == /\ step = "commit" /\ step' = "open"
          /\ com' \in {Com(Dev, v) : v \in Own} \cup {Com(p, [kind |-> "copy", v |-> p]) : p \in Honest}
          /\ UNCHANGED <<contrib, verdict>>
\* the others have opened theirs
OpenIt == /\ step = "open" /\ step' = "prove"
          /\ contrib' \in Own \cup Copy \cup Cancel
          /\ verdict' = IF "open" \in Checks /\ (contrib' # com.value \/ ("owner" \in Checks /\ com.owner # Dev)) THEN "blamed" ELSE "run"
          /\ UNCHANGED com
\* proofs: for what it knows; or another one's proof
Proof(v) == v.kind = "own" \/ (v.kind = "copy" /\ "whose" \notin Checks)
Prove == /\ step = "prove" /\ step' = "end" /\ verdict = "run"
         /\ verdict' = IF "know" \in Checks /\ ~Proof(contrib) THEN "blamed" ELSE "key"
         /\ UNCHANGED <<com, contrib>>
Next == Commit \/ OpenIt \/ Prove
\* a key is made only with a contribution that was fixed, and known to its maker, before the others showed theirs
Independent == verdict = "key" => contrib.kind = "own" /\ com = Com(Dev, contrib)
=============================================================================
