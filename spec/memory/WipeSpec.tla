------------------------------ MODULE WipeSpec ------------------------------
(* The life of secrets in memory, as a user of the library sees it: values that hold secrets are made, copied, combined, converted, moved
   into other values and dropped. A value owns the memory its secrets are in. Whenever no operation is running,
     - the secrets in memory are those of the values that are alive, and
     - nothing of a secret is in memory that was given back, whatever an operation used on its way.
   Values are kept in registers 0, 1, ...; every operation that makes a value puts it into the next register. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* name; types of the operands ("" none) and whether the operation takes them over; type of the result ("" none)
Op(name, a, at, b, bt, out) == [op |-> name, a |-> a, at |-> at, b |-> b, bt |-> bt, out |-> out]
Make(name, out) == Op(name, "", FALSE, "", FALSE, out)
Ref(name, a, out) == Op(name, a, FALSE, "", FALSE, out)
Own(name, a, out) == Op(name, a, TRUE, "", FALSE, out)
Two(name, a, at, bt, out) == Op(name, a, at, a, bt, out)

Ops ==
    { Make("scalar", "S"), Make("uint", "U"), Make("signed", "I"), Make("signed_scaled", "W"), Make("wire", "K"), Make("k_copy", "K"),
      Make("rp", "L"), Make("plain", "X"), Make("unit", "T"), Make("decrypt", "X"), Make("decrypt_unit", "T"), Make("share", "A"),
      Make("threshold", "H") }
    \cup
    \* scalars
    { Two("s_add_rr", "S", FALSE, FALSE, "S"), Two("s_add_rv", "S", FALSE, TRUE, "S"), Two("s_add_vr", "S", TRUE, FALSE, "S"),
      Two("s_add_vv", "S", TRUE, TRUE, "S"), Ref("s_add_rp", "S", "S"), Own("s_add_vp", "S", "S"), Two("s_sub_vv", "S", TRUE, TRUE, "S"),
      Own("s_sub_vp", "S", "S"), Two("s_mul_rr", "S", FALSE, FALSE, "S"), Two("s_mul_vr", "S", TRUE, FALSE, "S"),
      Two("s_mul_vv", "S", TRUE, TRUE, "S"), Ref("s_mul_rp", "S", "S"), Own("s_mul_vp", "S", "S"), Ref("s_neg", "S", "S"),
      Two("s_select", "S", FALSE, FALSE, "S"), Two("s_sum", "S", FALSE, FALSE, "S"), Two("s_sum_v", "S", TRUE, TRUE, "S"),
      Ref("s_clone", "S", "S"), Ref("s_bytes", "S", "S"), Ref("s_point", "S", ""), Ref("s_sch", "S", ""), Ref("s_key", "S", ""),
      Own("s_split", "S", "M"), Own("s_shamir", "S", "M"), Own("s_poly", "S", "Y"), Ref("s_signed", "S", "I"),
      Ref("m_clone", "M", "M"), Ref("m_sum", "M", "S"), Own("m_sum_v", "M", "S"), Own("m_join", "M", "S"),
      Ref("y_eval", "Y", "S"), Ref("y_public", "Y", "") }
    \cup
    \* words and residues
    { Ref("u_clone", "U", "U"), Two("u_add", "U", FALSE, FALSE, "U"), Two("u_sub", "U", FALSE, FALSE, "U"),
      Two("u_mul", "U", FALSE, FALSE, "U"), Ref("u_neg", "U", "U"), Ref("u_rem", "U", "U"), Own("u_div", "U", "U"), Ref("u_wide", "U", "V"),
      Two("u_select", "U", FALSE, FALSE, "U"), Ref("u_bytes", "U", "U"), Ref("u_monty", "U", "R"), Own("u_unsigned", "U", "N"),
      Own("u_signed", "U", "J"),
      Ref("r_clone", "R", "R"), Two("r_add", "R", FALSE, FALSE, "R"), Two("r_mul", "R", TRUE, FALSE, "R"), Two("r_sub", "R", TRUE, TRUE, "R"),
      Ref("r_neg", "R", "R"), Ref("r_pow", "R", "R"), Ref("r_uint", "R", "U") }
    \cup
    \* integers with bounds
    { Ref("n_clone", "N", "N"), Two("n_add", "N", FALSE, FALSE, "N"), Ref("n_and", "N", "N"), Ref("n_wide", "N", "O"), Ref("n_monty", "N", "R"),
      Ref("i_clone", "I", "I"), Ref("i_neg", "I", "I"), Own("i_neg_v", "I", "I"), Two("i_add", "I", TRUE, FALSE, "I"),
      Two("i_add_v", "I", TRUE, TRUE, "I"), Two("i_sub", "I", TRUE, TRUE, "I"), Two("i_mul", "I", TRUE, FALSE, "I"),
      Two("i_mul_v", "I", TRUE, TRUE, "I"), Ref("i_mul_p", "I", "I"), Two("i_sum", "I", FALSE, FALSE, "I"), Ref("i_abs", "I", "N"),
      Ref("i_abs_value", "I", "U"), Ref("i_wide", "I", "W"), Ref("i_wide_mul", "I", "W"), Own("i_range", "I", "I"), Ref("i_scalar", "I", "S"),
      Ref("j_neg", "J", "J"), Ref("j_abs", "J", "N"), Ref("j_scalar", "J", "S"), Ref("w_clone", "W", "W"), Ref("w_scalar", "W", "S") }
    \cup
    \* keys, encryption, commitments
    { Ref("k_clone", "K", "K"), Ref("k_public", "K", ""), Own("k_key", "K", "P"), Ref("p_clone", "P", "P"), Own("p_wire", "P", "K"),
      Ref("p_parts", "P", ""), Ref("p_rns", "P", ""), Ref("l_params", "L", ""), Ref("l_random", "L", ""), Ref("x_encrypt", "X", ""),
      Ref("x_commit", "X", ""), Ref("x_homo", "X", ""), Op("x_encrypt_unit", "X", FALSE, "T", FALSE, ""), Ref("t_clone", "T", "T") }
    \cup
    \* shares
    { Ref("a_clone", "A", "A"), Ref("a_threshold", "A", "H"), Ref("h_clone", "H", "H"), Ref("h_share", "H", "A"), Ref("h_child", "H", "H"), Make("reshare", "Z") }
    \cup
    \* sessions: D shares and auxiliary data of all parties of one
    { Make("key_init", "A"), Make("aux_gen", "B"), Make("key_refresh", "B"), Make("deal", "D"), Ref("d_sign", "D", "") }
    \cup
    \* refusals
    { Own("u_refused", "U", ""), Own("i_refused", "I", ""), Own("i_overflow", "I", "") }

\* Which need the modules `protocols` and `entities`.
Entities == {"key_init", "aux_gen", "key_refresh", "deal", "d_sign", "reshare", "share", "threshold", "a_clone", "a_threshold", "h_clone", "h_share", "h_child", "s_poly", "y_eval", "y_public", "s_shamir", "m_join"}
Makers == {o.op : o \in {p \in Ops : p.a = ""}}
\* Results that are the same secrets as the first operand.
Same == {o.op : o \in {p \in Ops : p.op \in {"s_clone", "m_clone", "u_clone", "r_clone", "n_clone", "i_clone", "w_clone", "k_clone", "p_clone",
         "t_clone", "a_clone", "h_clone", "s_bytes", "u_bytes", "u_wide", "n_wide", "u_unsigned", "i_range"}}}
Table == [n \in {o.op : o \in Ops} |-> CHOOSE o \in Ops : o.op = n]
Named(name) == Table[name]

(* ---- registers ---- *)
\* regs: the sequence of types (register r at place r + 1), "" when there is nothing in it
RECURSIVE Run(_, _)
After(regs, step) ==
    LET o == Named(step.op)
        gone == (IF o.at THEN {step.a} ELSE {}) \cup (IF o.bt THEN {step.b} ELSE {})
        kept == [k \in 1..Len(regs) |-> IF k - 1 \in gone THEN "" ELSE regs[k]]
    IN IF step.op = "drop" THEN [regs EXCEPT ![step.a + 1] = ""]
       ELSE IF o.out = "" THEN kept ELSE Append(kept, o.out)
Run(steps, n) == IF n = 0 THEN <<>> ELSE After(Run(steps, n - 1), steps[n])
Live(regs) == {k - 1 : k \in {j \in 1..Len(regs) : regs[j] # ""}}
=============================================================================
