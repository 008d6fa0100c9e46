"""What each property's check runs."""

import json

from kit import CheckError

CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, **kw):
    def deco(f):
        CHECKS[prop] = dict(run=f, **kw)
        return f
    return deco


def plan_cfg(**consts):
    return "".join("CONSTANT %s = %s\n" % kv for kv in consts.items())


# ---- signed integers ---------------------------------------------------------------------------

def signed(r, name, part, widths, required):
    p = r.plan("plan_" + name, "Plan_Signed",
               plan_cfg(Widths="{%s}" % ", ".join(map(str, widths)), Part='"%s"' % part,
                        Deep="TRUE" if r.thorough else "FALSE"))
    t = r.drive("uint", name + ".ndjson", plan=p)
    r.judge("judge_" + name, "Trace_Signed", t, required, kind=lambda e: e["op"])


def numbers(r):
    """The numbers all specifications are written in: the Java overrides against the TLA+ definitions."""
    exps, pts, rows = ("{1, 3, 14, 15, 16, 30}", "{0, 1, 2, 3, 40, 5000}", 8) if r.thorough else ("{1, 15}", "{0, 1, 2, 5}", 2)
    cfg = plan_cfg(Rows=rows, Bits=60, Exps=exps, Points=pts)
    tables = []
    for name, override in (("bignat_java", True), ("bignat_tla", False)):
        p = r.plan(name, "MC_BigNat", cfg, override=override)
        tables.append(sorted(json.dumps(json.loads(l), sort_keys=True) for l in open(p)))
    if tables[0] != tables[1]:
        raise CheckError("BigNat: the overrides do not agree with the definitions")


T_CASES = "TLA+ specification; TLC enumerates the cases, the driver replays them into the real code, TLC judges the recorded trace"


@check("C22", technique=T_CASES,
       note="Every operation on boundary values of boundary bounds, compared exactly with the integer semantics of "
            "spec/uint/SignedSpec.tla. Values between the boundaries are not enumerated. Trusts BigInteger (the overrides "
            "of BigNat, compared with their TLA+ definitions) and the driver's transcription of words.")
def c22(r):
    numbers(r)
    signed(r, "arith", "arith", [128, 256, 512, 2048] if r.thorough else [128, 256],
           ["s_new", "p_new", "s_newpos", "s_mod", "ss_add", "ss_mul", "sp_mulwide", "s_wide", "n_narrow", "ss_addop"])
    signed(r, "pow", "pow", [128, 256] if r.thorough else [128], ["pow_s", "pow_p", "pow_u"])


@check("C23", technique=T_CASES,
       note="Membership at, next to and far from both ends for exponents across the width; samplers: every value of small "
            "intervals is reached, large intervals stay inside and reach the outer quarters on both sides.")
def c23(r):
    signed(r, "range", "range", [128, 256, 512, 2048], ["p_in", "s_ensure", "s_assert"])
    signed(r, "sample", "sample", [256, 2048] if r.thorough else [256],
           ["rand", "rand_scaled", "rand_scaled_wide", "xof_signed"])


# ---- curve, scalars, conversions, signatures ---------------------------------------------------

@check("C24", technique=T_CASES,
       note="All conversions on the multiples of the group order and their neighbours up to the top of the word, both signs, "
            "for the test curve and secp256k1.")
def c24(r):
    p = r.plan("plan_conv", "Plan_Curve", plan_cfg(Params='{"test", "p112"}', Part='"conv"', Deep="FALSE"))
    t = r.drive("curve", "conv.ndjson", plan=p)
    r.judge("judge_conv", "Trace_Curve", t, ["c_pub", "c_sec", "c_from", "c_fromw", "c_sfrom", "c_sfromw", "c_round", "c_rounds"],
            key=lambda e: "%s:%s" % (e["op"], e["params"]))


@check("C25", technique=T_CASES,
       note="Every scalar, secret-scalar and point operation of the wrapper on boundary scalars, additive splitting, and signature "
            "assembly from valid and minimally wrong parts, including nonces whose x-coordinate exceeds the group order.")
def c25(r):
    r.model("mc_curves", "MC_Curves", "INIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n" % (40 if r.thorough else 12))
    p = r.plan("plan_group", "Plan_Curve", plan_cfg(Params='{"test", "p112"}', Part='"group"', Deep="FALSE"))
    t = r.drive("curve", "group.ndjson", plan=p, xred=8 if r.thorough else 3)
    r.judge("judge_group", "Trace_Curve", t, ["s_add", "s_inv", "p_add", "p_mul1", "split", "sig", "xred"],
            key=lambda e: e.get("key") or "%s:%s" % (e["op"], e["params"]))


# ---- Paillier, ring-Pedersen -------------------------------------------------------------------

def paillier(r, part, params, required, **kw):
    p = r.plan("plan_" + part, "Plan_Paillier",
               plan_cfg(Params="{%s}" % ", ".join('"%s"' % x for x in params), Part='"%s"' % part, Deep="TRUE" if r.thorough else "FALSE"))
    t = r.drive("paillier", part + ".ndjson", plan=p, part=part, **kw)
    r.judge("judge_" + part, "Trace_Paillier", t, required, cfg='CONSTANT Part = "%s"\n' % part,
            key=lambda e: e.get("key") or "%s:%s" % (e["op"], e.get("params", "")))


@check("C19", technique=T_CASES,
       note="Keys with extreme, lopsided and generated primes; plaintexts and factors around 0, the wrap at half the modulus and the "
            "end of the word; every homomorphic operation compared with the exact ciphertext, plaintext and randomizer.")
def c19(r):
    paillier(r, "enc", ["test", "p112"] if r.thorough else ["test"],
             ["enc", "encw", "encp", "encpw", "fresh", "add1", "add2", "add3", "sub", "mul_ss", "mul_ps", "mulr_ss", "mul_sw", "mul_pw",
              "mask", "raw", "otheradd", "otherdec"])


@check("C20", technique=T_CASES,
       note="Generated keys and keys at the ends of the range of primes: every derived value, wire forms, samplers, residue number "
            "system and square roots. Primality by a probabilistic test with error below 2^-100.")
def c20(r):
    paillier(r, "keys", ["test", "p112"], ["key", "unit", "nonsq", "xof", "rns"], n=60 if r.thorough else 12, prod=2 if r.thorough else 0)


@check("C21", technique=T_CASES,
       note="Commitments for exponents of every supported width and sign, with tight and slack bounds; products and powers of "
            "commitments; generated parameters are checked against their secret.")
def c21(r):
    paillier(r, "rp", ["test", "p112"] if r.thorough else ["test"], ["rp", "ss_sw", "sw_ss", "sw_sx", "ps_pw", "pw_ps", "pw_px", "zv_us", "prod",
                                                                     "pow_ps", "pow_ss", "pow_pw"], n=20 if r.thorough else 4)


# ---- zero-knowledge proofs: acceptance ---------------------------------------------------------

def zk_accept(r, part, ops, params):
    ps = "{%s}" % ", ".join('"%s"' % x for x in params)
    keys = r.plan("plan_keys", "Plan_ZkKeys", plan_cfg(Params=ps))
    chal = r.drive("zk", "chal.ndjson", plan=keys, part="chal")
    p = r.plan("plan_" + part, "Plan_Zk", plan_cfg(Params=ps, Part='"%s"' % part, Deep="TRUE" if r.thorough else "FALSE"),
               files=[(chal, "chal.ndjson")])
    t = r.drive("zk", part + ".ndjson", plan=p, part="judge")
    r.judge("judge_" + part, "Trace_Zk", t, ["%s:%s" % (o, c) for o in ops for c in ops[o]], key=lambda e: "%s:%s" % (e["op"], e["params"]),
            kind=lambda e: e["op"])


T_ZK = ("TLA+ specification of the verifiers; TLC makes proofs with every condition broken on its own, the driver puts them to the real "
        "verifiers, TLC judges the answers")


@check("C14", technique=T_ZK,
       note="Proofs simulated for the challenges of chosen hash outputs: responses at both ends of their ranges and one beyond, every "
            "component off by a little, every equation and the challenge comparison broken on its own, errors that cancel between equations.")
def c14(r):
    zk_accept(r, "c14", {"encelg": "ok chal range enc point b com".split(), "affg": "ok chal range1 range2 aff point enc com1 com2".split(),
                         "fac": "ok chal range1 range2 com1 com2 prod".split()}, ["test", "p112"] if r.thorough else ["test"])


@check("C15", technique=T_ZK,
       note="As C14 for the batched proofs: every element position, both challenge bits, wrong numbers of elements, exchanged elements, "
            "one element answering the other challenge, and the party-count dependent range around powers of two.")
def c15(r):
    zk_accept(r, "c15", {"affgstar": "ok chal length elems".split(), "dec": "ok chal length elems".split()}, ["test"])


@check("C16", technique=T_ZK, note="As C14 for the discrete-logarithm proofs, on the test curve and secp256k1 (thorough).")
def c16(r):
    zk_accept(r, "c16", {"elog": "ok chal l m y".split(), "sch": "ok chal eq".split()}, ["test", "p112"])


@check("C17", technique=T_ZK,
       note="As C14 for the proofs about moduli and ring-Pedersen parameters: wrong roots, wrong flags, prime and even moduli, non-units, "
            "missing and additional elements.")
def c17(r):
    zk_accept(r, "c17", {"prm": "ok chal length elems".split(), "mod": "ok chal length modulus w elems".split()},
              ["test", "p112"] if r.thorough else ["test"])


COMPONENTS = {
    "encelg": "n0 hn ht hs C D S T a b x Y Z", "affg": "n0 n1 hn ht hs C D A Y By E F S T x Bx", "fac": "n0 hn ht hs P Q A B T",
    "affgstar": "n0 n1 C D Y x A R B list", "dec": "n0 hn ht hs K D x s g A B C list", "elog": "l m x y h A N B", "sch": "x k",
    "prm": "hn ht hs a list", "mod": "n0 w"}


@check("C18", technique="TLA+ specification of the transcripts; TLC makes an accepted proof of each kind and copies with one component replaced, "
       "the driver records every question the verifiers ask the hash and which of them the verdict depends on, TLC judges the record",
       note="The hash is taken for a random function: a component is bound if another one makes another question, and kinds are separated if their "
            "questions begin differently. Every word of every number, every point (also negated), several positions of lists.")
def c18(r):
    ps = '{"test", "p112"}' if r.thorough else '{"test"}'
    keys = r.plan("plan_keys", "Plan_ZkKeys", plan_cfg(Params=ps))
    chal = r.drive("zk", "chal.ndjson", plan=keys, part="chal")
    p = r.plan("plan_c18", "Plan_Zk", plan_cfg(Params=ps, Part='"c18"', Deep="FALSE"), files=[(chal, "chal.ndjson")])
    t = r.drive("zk", "c18.ndjson", plan=p, part="bind")
    req = ["%s:%s" % (o, k) for k in COMPONENTS for o in ("base", "other", "prefix")] + \
          ["%s.%s" % (k, c) for k in COMPONENTS for c in COMPONENTS[k].split() + ["aux"]]
    r.judge("judge_c18", "Trace_Bind", t, req, key=lambda e: "%s:%s" % (e["kind"], e["comp"]), kind=lambda e: "%s:%s" % (e["kind"], e["comp"]))


# ---- zero-knowledge proofs: honest provers -----------------------------------------------------

ZK_OPS = "encelg affg affgstar dec fac elog sch prm mod".split()


def zk_honest(r, part, params):
    p = r.plan("plan_" + part, "Plan_Honest", plan_cfg(Params="{%s}" % ", ".join('"%s"' % x for x in params), Part='"%s"' % part,
                                                       Deep="TRUE" if r.thorough else "FALSE"))
    t = r.drive("honest", part + ".ndjson", plan=p)
    r.judge("judge_" + part, "Trace_Honest", t, ZK_OPS, cfg='CONSTANT Part = "%s"\n' % part, key=lambda e: "%s:%s" % (e["op"], e["params"]))


T_HON = ("TLA+ specification of relations, ranges and masks; TLC enumerates witnesses, the driver runs prover and verifier, TLC judges the "
         "answers and the masks it extracts from pairs of responses")


@check("C13", technique=T_HON,
       note="Every proof kind for witnesses at the ends of their ranges, zero, units, extreme scalars, keys with extreme primes, numbers of "
            "parties around powers of two; direct, binary and human-readable transport.")
def c13(r):
    zk_honest(r, "c13", ["test", "p112"] if r.thorough else ["test"])


@check("C30", technique=T_HON,
       note="Every prover is run twice with the same randomness and different challenges; TLC extracts all masks from the two answers, checks "
            "them against the prescribed ranges exactly, that none repeats, and that all of a range is used (outer halves, both signs; chance of "
            "a false alarm below 10^-9). The quality of the underlying generator is not judged.")
def c30(r):
    zk_honest(r, "c30", ["test", "p112"] if r.thorough else ["test"])


# ---- hashing -----------------------------------------------------------------------------------

@check("C27", technique="TLA+ specification of framing (model checked) and of the values drawn; TLC enumerates transcripts and streams, the driver records "
       "the hash inputs and the values, TLC judges that the map is one-to-one and the values exact",
       note="Byte strings of all lengths around header boundaries and ones that imitate headers, sequences of up to 257 items; every type the protocols "
            "hash, alone, in pairs, in lists, options and maps; parameter sets that differ in one constant. Hash outputs are of one length, as in the protocols.")
def c27(r):
    f = "INIT Init\nNEXT Next\nINVARIANT Framing\nCHECK_DEADLOCK FALSE\nCONSTANT Alphabet = {0, 1}\nCONSTANT MaxLen = %d\nCONSTANT MaxItems = 3\nCONSTANT Variant = \"%s\"\n"
    r.model("mc_framing", "MC_Framing", f % (3, "length"))
    for v in ("none", "behind", "wrap"):
        r.model("mc_framing_" + v, "MC_Framing", f % (2, v), must_fail=True)
    p = r.plan("plan_hash", "Plan_Hash", plan_cfg(Part='"all"', Deep="TRUE" if r.thorough else "FALSE", Curvs='{"test", "p112"}'))
    t = r.drive("hashing", "hash.ndjson", plan=p)
    r.judge("judge_hash", "Trace_Hash", t, "raw typed params d_uint d_signed d_bits d_hash d_scalar_test d_scalar_p112 xor rbits".split(),
            key=lambda e: e.get("group") or e["op"])


# ---- serialized forms --------------------------------------------------------------------------

@check("C26", technique="TLA+ specification of what serialized forms stand for; TLC enumerates contents, the driver puts them together and reads them in both "
       "formats, TLC judges what was read; round trips of everything that is sent or stored",
       note="Scalars and points of both curves (all tags, lengths, coordinates around the field order, non-residues), numbers, signed numbers with all bounds, "
            "bit vectors, hashes, other spellings of texts, missing fields. Forms that say the same as the usual one may be read or refused. Proofs are covered "
            "by C13.")
def c26(r):
    p = r.plan("plan_wire", "Plan_Wire", plan_cfg(Deep="TRUE" if r.thorough else "FALSE"))
    t = r.drive("wire", "wire.ndjson", plan=p)
    r.judge("judge_wire", "Trace_Wire", t,
            ["%s:%s" % (o, k) for o in "scalar point uint modulus signed bits hash".split() for k in ("read", "refused")] +
            "pk sk cipher masked rp rpcom keyshare tshare change aux subset share_id poly".split(),
            key=lambda e: "%s:%s" % (e["op"], e.get("what") or e["text"]),
            kind=lambda e: e["what"] if e["op"] == "trip" else "%s:%s" % (e["op"], "read" if e["res"]["some"] else "refused"))


# ---- parameters --------------------------------------------------------------------------------

@check("C29", technique="TLA+ specification of the inequalities and of the largest value of every intermediate quantity (exact); TLC judges the constants of the "
       "shipped sets, the keys generated for them, and the library's own consistency check on sets with changed constants",
       note="All three shipped sets; about 60 sets with one or two constants moved by one across each inequality, or with integer types one limb too short.")
def c29(r):
    t = r.drive("params", "params.ndjson")
    r.judge("judge_params", "Trace_Params", t, ["shipped:test", "shipped:p112", "shipped:p128", "key:test", "key:p112", "check:test", "check:p112", "ok", "no"],
            key=lambda e: "%s:%s" % (e["op"], e["name"]), kind=lambda e: "%s:%s" % (e["op"], e["name"]))


@check("C28", technique="noninterference stated in TLA+; TLC compares the debug texts of pairs of real objects that differ in their secrets only, with positive controls",
       note="Every type that holds secrets and can be built from outside the protocols, in four debug forms, test and 112-bit production parameters; "
            "the text is also searched for pieces of the secrets (hexadecimal, decimal words, byte lists).")
def c28(r):
    t = r.drive("debug", "debug.ndjson")
    r.judge("judge_debug", "Trace_Debug", t,
            ["pair", "control", "control:scalar", "control:uint", "control:bytes", "control:monty", "secret-scalar", "secret-uint", "signed", "signed-small",
             "unsigned", "randomizer", "sk-wire", "sk", "rp-secret", "sch-secret", "polynomial", "keyshare", "tshare", "change", "aux", "aux-precomputed",
             "signing", "resharing"], key=lambda e: e["kind"], kind=lambda e: e["kind"])


@check("C06", technique="TLA+ model of Shamir sharing checked exhaustively over small fields; TLA+ specification of sharings and conversions; TLC enumerates the cases, "
       "the driver replays them into the real code, TLC judges the recorded trace",
       note="Model: all polynomials of degree below 3 over GF(5) and GF(7), all subsets of 4 places. Real code: up to 5 holders (test curve; 3 in production parameters), all "
            "thresholds, all subsets and members including too small ones, unknown parties and subsets without the converting party; boundary secrets and coefficients.")
def c06(r):
    inv = "INIT Init\nNEXT Next\nINVARIANT Joins\nINVARIANT Back\nINVARIANT Short\nINVARIANT Hides\n"
    for q, n, t in [(5, 4, 3), (5, 4, 2), (7, 4, 3), (5, 3, 1)] + ([(7, 5, 4), (11, 5, 3)] if r.thorough else []):
        r.model("shamir_%d_%d_%d" % (q, n, t), "MC_Shamir", plan_cfg(Q=q, N=n, T=t) + inv)
    r.model("shamir_control", "MC_Shamir", plan_cfg(Q=5, N=3, T=2) + "INIT Init\nNEXT Next\nINVARIANT Bad\n", must_fail=True)
    p = r.plan("plan_sharing", "Plan_Sharing", plan_cfg(Part='"shares"', Deep="TRUE" if r.thorough else "FALSE", Curvs='{"test", "p112"}'))
    t = r.drive("entities", "sharing.ndjson", plan=p)
    r.judge("judge_sharing", "Trace_Sharing", t, ["pub_eval", "coeff", "split", "poly", "central:ok", "central:err", "from", "subset"],
            key=lambda e: e["op"], kind=lambda e: "%s:%s" % (e["op"], e["res"]) if e["op"] in ("central", "update") else e["op"])


@check("C07", technique="TLA+ specification of BIP-32 public derivation and of deriving the shares of a sharing; TLC enumerates paths and sharings, the driver derives with "
       "the real code, TLC judges the recorded trace",
       note="Paths up to 6 levels (12 thorough) with boundary indices, a hardened step at every position; up to 4 holders, all quorums; both curves. SHA-256 and "
            "HMAC-SHA512 are taken from the Java library.")
def c07(r):
    p = r.plan("plan_derive", "Plan_Derive", plan_cfg(Deep="TRUE" if r.thorough else "FALSE", Curvs='{"test", "p112"}'))
    t = r.drive("entities", "derive.ndjson", plan=p)
    r.judge("judge_derive", "Trace_Derive", t, ["derive:ok", "derive:err"], key=lambda e: e["params"] + ":" + e["public_res"], kind=lambda e: "derive:" + e["public_res"])


# ---- protocols ---------------------------------------------------------------------------------

PROTOS = "keyinit auxgen refresh signing resharing".split()
T_SESS = ("TLA+ specification of the protocols as message-passing systems, model checked with TLC (all delivery orders; all deviations of one party); TLC makes the sessions, "
          "the driver plays them with the real rounds, TLC judges every recorded session")


def tset(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def session_key(e):
    """What fails, so that different failures have different names."""
    if e["op"] == "frame":
        return "%s:%s" % (e["claim"], e["proto"])
    dec6 = "Round 6: `\u041f^{dec}`"
    if e["op"] == "probe" and e["proof"] == "no" and e["verdict"] == "protocol" and e["msg"].startswith(dec6):
        return "R6DecFailed:unproven"
    bad = [b for p in e.get("parties", []) for b in p["blamed"] if b["kind"] in ("part", "protocol") and b["proof"] != "yes"]
    if bad and all(b["proof"] == "no" and b["msg"].startswith(dec6) for b in bad):
        return "R6DecFailed:unproven"
    return "%s:%s:%s" % (e["op"], e["proto"], e.get("case") or e.get("what") or e.get("place") or e.get("order") or "")


def session(r, part, protos, required, proofs=True):
    p = r.plan("plan_" + part, "Plan_Session", plan_cfg(Part='"%s"' % part, Protos1=tset(protos), Deep="TRUE" if r.thorough else "FALSE"),
               args=["-seed", str(r.seed)])
    t = r.drive("protocols", part + ".ndjson", plan=p, timeout=700)
    r.judge("judge_" + part, "Trace_Session", t, ["%s:%s" % (o, x) for o in required for x in protos if (o, x) not in NOT_THERE],
            cfg="CONSTANT Proofs = %s\n" % ("TRUE" if proofs else "FALSE"), key=session_key, kind=lambda e: "%s:%s" % (e["op"], e["proto"]))


# resharing has no evidence to speak of, and nothing to take for something else before its end
NOT_THERE = {("misread", "resharing"), ("frame", "resharing"), ("commit", "signing"), ("commit", "resharing"), ("forge", "keyinit"), ("forge", "signing")}


def network(r, proto, cases):
    inv = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % x for x in "Seen Same Ahead Ends Together".split())
    for n, q, w in cases:
        r.model("network_%s_%d_%d" % (proto, n, len(q)), "MC_Network", plan_cfg(
            Proto='"%s"' % proto, N=n, Quorum="{%s}" % q, New="{%s}" % w) + inv)


def models(r, module, invs, good, bad, **consts):
    """Holds with all checks in place, and with any of them left out something goes wrong."""
    for k, (checks, fails) in enumerate([(g, False) for g in good] + [(b, True) for b in bad]):
        r.model("%s_%d" % (module, k), module, plan_cfg(Checks=tset(checks.split()), **consts) + "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" +
                "".join("INVARIANT %s\n" % x for x in invs.split()), must_fail=fails)


@check("C01", technique=T_SESS,
       note="Model: all delivery orders for 2 and 3 parties. Real code: up to 4 parties, scripted orders from the model (per-party event sequences compared exactly), "
            "random, first-in and last-in orders, both formats, test curve and secp256k1.")
def c01(r):
    r.start_build()
    network(r, "keyinit", [(2, "", ""), (3, "", "")])
    session(r, "honest", ["keyinit"], ["run"])


@check("C02", technique=T_SESS + "; a model of commitments and proofs of knowledge shows which checks are needed",
       note="One deviator of 3 (and 2, thorough); every field of every message replaced by boundary, foreign and random values, for one recipient or all, also with the "
            "commitment made anew; the commitment is recomputed and checked to cover every value.")
def c02(r):
    r.start_build()
    models(r, "MC_KeyInit", "Independent", ["open owner know whose", "open owner know", "open owner", "open know whose"],
           ["open know", "open", "owner know whose", ""], H=2)
    session(r, "deviate", ["keyinit"], ["tamper", "commit", "misread"])
    session(r, "probe", ["keyinit"], ["probe"])


@check("C03", technique=T_SESS,
       note="Up to 3 parties (4 thorough) with test parameters; production parameters are not run (primes take too long).")
def c03(r):
    r.start_build()
    network(r, "auxgen", [(2, "", "")] + ([(3, "", "")] if r.thorough else []))
    session(r, "honest", ["auxgen"], ["run"])
    session(r, "deviate", ["auxgen"], ["tamper", "commit", "misread"])
    session(r, "forge", ["auxgen"], ["forge"])


@check("C04", technique=T_SESS + "; a model of refreshing over a small field shows which checks are needed",
       note="As C03; changes are applied to the shares and the outcome compared; changes of other parties, of foreign and incomplete sets of parties, and ones that cancel.")
def c04(r):
    r.start_build()
    network(r, "refresh", [(2, "", "")] + ([(3, "", "")] if r.thorough else []))
    models(r, "MC_Refresh", "SameKey Fit", ["zero match"], ["zero", "match"], Q=3, N=3)
    session(r, "honest", ["refresh"], ["run"])
    session(r, "deviate", ["refresh"], ["tamper", "commit", "misread"])
    session(r, "forge", ["refresh"], ["forge"])
    p = r.plan("plan_update", "Plan_Sharing", plan_cfg(Part='"update"', Deep="TRUE" if r.thorough else "FALSE", Curvs='{"test", "p112"}'))
    t = r.drive("entities", "update.ndjson", plan=p)
    r.judge("judge_update", "Trace_Sharing", t, ["update:ok", "update:err"], key=lambda e: e["op"],
            kind=lambda e: "%s:%s" % (e["op"], e["res"]))


@check("C05", technique=T_SESS + "; a model of resharing over a small field shows which checks are needed",
       note="Seven (19 thorough) configurations of old holders, quorums, new holders and thresholds, test curve and secp256k1; one deviating old holder.")
def c05(r):
    r.start_build()
    network(r, "resharing", [(4, "1, 2", "2, 3"), (4, "1, 2", "3, 4"), (2, "1", "1, 2"), (3, "1, 2, 3", "1, 2, 3")])
    models(r, "MC_Resharing", "SameKey Fit", ["vk degree share"], ["degree share", "vk share", "vk degree"], Q=5)
    session(r, "honest", ["resharing"], ["run"])
    session(r, "deviate", ["resharing"], ["tamper"])
    session(r, "forge", ["resharing"], ["forge"])


@check("C08", technique=T_SESS + "; a model of the signing equations over a small field shows which checks are needed",
       note="Messages around the ends of the scalars and of the bytes, up to 4 signers, shares dealt or converted from threshold shares, test parameters.")
def c08(r):
    r.start_build()
    network(r, "signing", [(2, "", "")] + ([(3, "", "")] if r.thorough else []))
    models(r, "MC_Signing", "Sound Honestly Nonce", ["Delta delta chi sigma"], ["Delta chi sigma", "Delta delta sigma", "Delta delta chi"],
           Q=3, Errors="{0, 1, 2, 3, 4, 5, 6}", B=1 if r.thorough else 0)
    session(r, "honest", ["signing"], ["run"])


@check("C09", technique=T_SESS,
       note="Model: 2 and 3 honest parties and a deviator that sends anything to anybody, with echoing, commitments and signatures; without any of these it fails. Real code: "
            "one deviator of 3, every field of every message, for one or all, and messages made up so that they fit together (keys too small, changes that do not cancel, "
            "polynomials of another degree); in the rounds that establish blame a second deviator. The session layer itself (manul) is not "
            "available and is replaced by a stand-in.")
def c09(r):
    r.start_build()
    inv = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % x for x in "Agree AgreeOpen Bound Heard Blame Explained Someone".split())
    for proto, h, n in [("keyinit", 2, 3), ("signing", 2, 4), ("resharing", 2, 1), ("keyinit", 3, 2)]:
        r.model("session_%s_%d_%d" % (proto, h, n), "MC_Session", plan_cfg(Proto='"%s"' % proto, H=h, Rounds=n, Variant='"full"') + inv)
    for v in ("noecho", "nocommit", "unsigned", "eager"):
        r.model("session_" + v, "MC_Session", plan_cfg(Proto='"keyinit"', H=2, Rounds=3, Variant='"%s"' % v) + inv, must_fail=True)
    session(r, "deviate", PROTOS, ["tamper", "commit", "misread"])
    session(r, "forge", PROTOS, ["forge"])
    session(r, "probe", PROTOS, ["probe"])


@check("C10", technique=T_SESS,
       note="Every kind of claim with every parameter against every party of honest sessions, and of ones that get to the rounds that establish blame.")
def c10(r):
    session(r, "frame", PROTOS, ["frame"])


@check("C11", technique=T_SESS,
       note="Every field of every message of every round with boundary, degenerate, oversized, truncated, foreign and random values, put to the real receiver; evidence made of "
            "what was refused is verified.")
def c11(r):
    session(r, "probe", PROTOS, ["probe"], proofs=False)


@check("C12", technique=T_SESS,
       note="Whole messages of another session, epoch, sender and recipient in every round; parties that are in another session or hold shares of another epoch; starting "
            "with inputs that do not belong together.")
def c12(r):
    session(r, "replay", PROTOS, ["probe", "tamper", "foreign", "start"])


@check("C31", technique="TLA+ state machine of the life of a key, checked exhaustively over a small field (all histories); TLC makes histories, the driver runs them with "
       "the real protocols and conversions, TLC judges every step",
       note="Model: GF(5), up to 3 holders (4 thorough), all sequences. Real code: all orders of two (three thorough) operations after a start, with operands at random, and random "
            "histories of 8 to 10 (12 to 20) steps among 5 parties; signing, refresh and auxiliary data with test parameters only.")
def c31(r):
    r.start_build()
    cfg = "INIT Init\nNEXT Next\nVIEW View\nINVARIANT Whole\nPROPERTY Steps\nCHECK_DEADLOCK FALSE\n"
    for q, n, wrong in [(5, 2, ""), (5, 3, ""), (5, 3, "plain"), (5, 3, "sum"), (5, 3, "change"), (5, 3, "places")] + ([(7, 3, ""), (5, 4, "")] if r.thorough else []):
        r.model("life_%d_%d_%s" % (q, n, wrong), "MC_Life", plan_cfg(Q=q, N=n, Wrong='"%s"' % wrong) + cfg, must_fail=wrong != "")
    p = r.plan("plan_life", "Plan_Life", plan_cfg(Deep="TRUE" if r.thorough else "FALSE"), args=["-seed", str(r.seed)])
    t = r.drive("life", "life.ndjson", plan=p)
    r.judge("judge_life", "Trace_Life", t, "init deal refresh auxgen sign stale tothr toadd reshare derive store few hard".split(),
            key=lambda e: e["o"]["do"], kind=lambda e: e["o"]["do"])


@check("C32", technique="TLA+ specification of all messages of a session as functions of what its parties draw; TLC enumerates sessions, the driver takes apart everything "
       "that is sent (test curve: with discrete logarithms), TLC recovers the draws with the decryption keys, judges every message and all draws together; "
       "a model over a small field shows which ways of drawing hide the secrets",
       note="175 (560 thorough) sessions of all protocols, 2 to 5 parties, test parameters, with the same inputs again and again: chance of a false alarm below 10^-8. "
            "Numbers inside proofs only for repetitions (else C30). The quality of the underlying generator is not judged.")
def c32(r):
    r.start_build()
    cfg = "INIT Init\nNEXT Next\nINVARIANT Hidden\nCHECK_DEADLOCK FALSE\n"
    for what in ("product", "change", "reshare"):
        for draw in ("fresh", "shared", "narrow", "some"):
            r.model("hiding_%s_%s" % (what, draw), "MC_Hiding", plan_cfg(Q=5, What='"%s"' % what, Draw='"%s"' % draw) + cfg, must_fail=draw != "fresh")
    p = r.plan("plan_traffic", "Plan_Traffic", plan_cfg(Deep="TRUE" if r.thorough else "FALSE"))
    t = r.drive("protocols", "traffic.ndjson", plan=p, timeout=700)
    r.judge("judge_traffic", "Trace_Traffic", t, PROTOS, key=lambda e: e["proto"], kind=lambda e: e["proto"])


@check("C33", technique="TLA+ model of memory cells, values and operations in small steps, checked exhaustively (with variants that must fail); TLC makes scripts of operations, "
       "the driver runs them with the real types under a heap that is watched, TLC judges what is in memory after every step",
       note="Heap only: registers and the stack are not looked at. 1,419 (17,379 thorough) scripts of one or two (three) operations out of 100 on the containers for secrets, integers, "
            "keys, encryptions, proofs, polynomials and shares, operands made as needed, dropped in different orders; whole sessions of the protocols among two parties.")
def c33(r):
    r.start_build()
    cfg = "INIT Init\nNEXT Next\nVIEW View\nINVARIANT Clean\nINVARIANT Owned\nCHECK_DEADLOCK FALSE\n"
    for wrong in ("", "drop", "temporary", "leak", "panic"):
        r.model("wipe_" + wrong, "MC_Wipe", "CONSTANTS Cells = {1, 2, 3, 4, 5}\nRegs = {\"a\", \"b\", \"c\"}\nDepth = %d\nWrong = \"%s\"\n" % (7 if r.thorough else 5, wrong)
                + cfg, must_fail=wrong != "")
    p = r.plan("plan_wipe", "Plan_Wipe", plan_cfg(Deep="TRUE" if r.thorough else "FALSE"))
    t = r.drive("wipe", "wipe.ndjson", plan=p)
    r.judge("judge_wipe", "Trace_Wipe", t, "s_clone u_clone i_clone k_clone p_clone share threshold".split(),
            key=lambda e: "+".join(s["op"] for s in e["steps"] if s["op"] != "drop"), kind=lambda e: e["steps"][0]["op"])
