------------------------------- MODULE MC_Wipe -------------------------------
(* Why the library's way of keeping secrets has the property of WipeSpec: memory cells, operations as sequences of small steps, any of which
   may be the last one (an operation may panic, and then its temporaries and operands are dropped as usual).
   Cells: "free", or in use with an owner (a register, "tmp" for a temporary of the running operation). word: the secret that is in it,
   0 none. Giving a cell back does not change what is in it.
   Wrong: what an implementation may forget. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cells, Regs, Depth, Wrong

VARIABLES used, word, own, todo, fresh, n
vars == <<used, word, own, todo, fresh, n>>
\* used[c]; word[c]; own[c] \in Regs \cup {"", "t1", "t2"}; todo: the rest of the operation

Init == /\ used = [c \in Cells |-> FALSE]
        /\ word = [c \in Cells |-> 0]
        /\ own = [c \in Cells |-> ""]
        /\ todo = <<>>
        /\ fresh = 1
        /\ n = 0

CellOf(o) == CHOOSE c \in Cells : used[c] /\ own[c] = o
Has(o) == \E c \in Cells : used[c] /\ own[c] = o
Alloc(o) == [do |-> "alloc", x |-> o, y |-> ""]
Draw(o) == [do |-> "draw", x |-> o, y |-> ""]
Copy(o, p) == [do |-> "copy", x |-> o, y |-> p]
Mix(o, p) == [do |-> "mix", x |-> o, y |-> p]        \* in place: a new secret from both
Move(o, r) == [do |-> "move", x |-> o, y |-> r]
Release(o) == <<[do |-> "wipe", x |-> o, y |-> ""], [do |-> "free", x |-> o, y |-> ""]>>

\* the operations: r, s registers with a value, f a register without one
Programs ==
    LET full == {r \in Regs : Has(r)} IN
    {<<Alloc(f), Draw(f)>> : f \in Regs \ full}                                                   \* make
    \cup {<<Alloc(f), Copy(f, r)>> : f \in Regs \ full, r \in full}                               \* clone
    \cup {<<Alloc("t1"), Copy("t1", r), Mix("t1", s), Move("t1", f)>> : f \in Regs \ full, r \in full, s \in full}   \* r + s
    \cup UNION {{<<Mix(r, s)>> \o Release(s) : s \in full \ {r}} : r \in full}                    \* r += s, s taken over
    \cup {<<Alloc("t1"), Copy("t1", r), Alloc("t2"), Copy("t2", "t1"), Mix("t2", "t1")>> \o Release("t1") \o <<Move("t2", f)>>
          : f \in Regs \ full, r \in full}                                                        \* through bytes
    \cup {Release(r) : r \in full}                                                                \* drop

Begin == /\ todo = <<>> /\ n < Depth
         /\ todo' \in Programs
         /\ n' = n + 1
         /\ UNCHANGED <<used, word, own, fresh>>

Forgets(s) == \/ Wrong = "drop" /\ s.do = "wipe" /\ s.x \in Regs
              \/ Wrong = "temporary" /\ s.do = "wipe" /\ s.x \notin Regs
              \/ Wrong = "leak" /\ s.do = "free" /\ s.x \notin Regs
Do(s) ==
    CASE Forgets(s) -> /\ IF s.do = "free" THEN own' = [own EXCEPT ![CellOf(s.x)] = "lost"] ELSE own' = own
                       /\ UNCHANGED <<used, word, fresh>>
      [] ~Forgets(s) /\ s.do = "alloc" ->
             \E c \in Cells : /\ ~used[c]
                              /\ \A d \in Cells : d < c => used[d]
                              /\ used' = [used EXCEPT ![c] = TRUE] /\ own' = [own EXCEPT ![c] = s.x]
                              /\ UNCHANGED <<word, fresh>>
      [] ~Forgets(s) /\ s.do \in {"draw", "mix"} -> /\ word' = [word EXCEPT ![CellOf(s.x)] = fresh] /\ fresh' = fresh + 1
                                                    /\ UNCHANGED <<used, own>>
      [] ~Forgets(s) /\ s.do = "copy" -> word' = [word EXCEPT ![CellOf(s.x)] = word[CellOf(s.y)]] /\ UNCHANGED <<used, own, fresh>>
      [] ~Forgets(s) /\ s.do = "move" -> /\ own' = [own EXCEPT ![CellOf(s.x)] = s.y] /\ UNCHANGED <<used, word, fresh>>
      [] ~Forgets(s) /\ s.do = "wipe" -> word' = [word EXCEPT ![CellOf(s.x)] = 0] /\ UNCHANGED <<used, own, fresh>>
      [] ~Forgets(s) /\ s.do = "free" -> /\ used' = [used EXCEPT ![CellOf(s.x)] = FALSE] /\ own' = [own EXCEPT ![CellOf(s.x)] = ""]
                                         /\ UNCHANGED <<word, fresh>>
Step == todo # <<>> /\ Do(Head(todo)) /\ todo' = Tail(todo) /\ n' = n
\* a panic: what belongs to the operation is dropped, temporaries first
Unwind == LET t == {o \in {"t1", "t2"} : Has(o)} IN
          IF t = {} THEN <<>> ELSE IF t = {"t1", "t2"} THEN Release("t2") \o Release("t1") ELSE Release(CHOOSE o \in t : TRUE)
Panic == /\ todo # <<>> /\ Head(todo).do \notin {"wipe", "free"} /\ Wrong # "panic"
         /\ todo' = Unwind /\ UNCHANGED <<used, word, own, fresh, n>>
\* the same, but the temporaries are in memory the operation does not own, and are forgotten
PanicForgets == /\ todo # <<>> /\ Head(todo).do \notin {"wipe", "free"} /\ Wrong = "panic"
                /\ todo' = <<>>
                /\ used' = [c \in Cells |-> used[c] /\ own[c] \in Regs] /\ UNCHANGED <<word, own, fresh, n>>
Next == Begin \/ Step \/ Panic \/ PanicForgets

\* nothing of a secret in memory that was given back
Clean == \A c \in Cells : ~used[c] => word[c] = 0
\* between operations, memory in use belongs to values that are alive, one cell each
Owned == todo = <<>> => /\ \A c \in Cells : used[c] => own[c] \in Regs
                        /\ \A c, d \in Cells : used[c] /\ used[d] /\ own[c] = own[d] => c = d
\* which secret it is does not matter
View == <<used, [c \in Cells |-> word[c] # 0], own, todo, n>>
=============================================================================
