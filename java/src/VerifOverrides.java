import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** java.math.BigInteger versions of the expensive operators of BigNat.tla and Curve.tla. */
public class VerifOverrides implements ITLCOverrides {
    @Override
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { VerifOverrides.class }; }

    static BigInteger big(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        BigInteger r = BigInteger.ZERO;
        // most significant first; go through a bit buffer for speed
        int n = e.length;
        byte[] bytes = new byte[(n * 15 + 7) / 8 + 1];
        int len = bytes.length;
        for (int i = 0; i < n; i++) {
            int x = ((IntValue) e[i]).val;
            int bit = i * 15;
            for (int b = 0; b < 15; b++) {
                if (((x >> b) & 1) != 0) {
                    int k = bit + b;
                    bytes[len - 1 - (k >> 3)] |= (byte) (1 << (k & 7));
                }
            }
        }
        return new BigInteger(bytes);
    }
    static Value val(BigInteger x) {
        if (x.signum() < 0) throw new RuntimeException("BigNat: negative result");
        int n = (x.bitLength() + 14) / 15;
        Value[] e = new Value[n];
        byte[] bytes = x.toByteArray();
        int len = bytes.length;
        for (int i = 0; i < n; i++) {
            int v = 0;
            for (int b = 0; b < 15; b++) {
                int k = i * 15 + b;
                int idx = len - 1 - (k >> 3);
                if (idx >= 0 && ((bytes[idx] >> (k & 7)) & 1) != 0) v |= 1 << b;
            }
            e[i] = IntValue.gen(v);
        }
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "BNCmp", module = "BigNat", warn = false)
    public static Value cmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    @TLAPlusOperator(identifier = "BNAdd", module = "BigNat", warn = false)
    public static Value add(Value a, Value b) { return val(big(a).add(big(b))); }
    @TLAPlusOperator(identifier = "BNSub", module = "BigNat", warn = false)
    public static Value sub(Value a, Value b) { return val(big(a).subtract(big(b))); }
    @TLAPlusOperator(identifier = "BNMul", module = "BigNat", warn = false)
    public static Value mul(Value a, Value b) { return val(big(a).multiply(big(b))); }
    @TLAPlusOperator(identifier = "BNDivMod", module = "BigNat", warn = false)
    public static Value divmod(Value a, Value b) {
        BigInteger[] r = big(a).divideAndRemainder(big(b));
        return new TupleValue(new Value[] { val(r[0]), val(r[1]) });
    }
    @TLAPlusOperator(identifier = "BNPow2", module = "BigNat", warn = false)
    public static Value pow2(IntValue k) { return val(BigInteger.ONE.shiftLeft(k.val)); }
    @TLAPlusOperator(identifier = "BNBits", module = "BigNat", warn = false)
    public static Value bits(Value a) { return IntValue.gen(big(a).bitLength()); }
    @TLAPlusOperator(identifier = "BNPowMod", module = "BigNat", warn = false)
    public static Value powmod(Value a, Value e, Value m) { return val(big(a).modPow(big(e), big(m))); }
    @TLAPlusOperator(identifier = "BNGcd", module = "BigNat", warn = false)
    public static Value gcd(Value a, Value b) { return val(big(a).gcd(big(b))); }
    @TLAPlusOperator(identifier = "BNInvMod", module = "BigNat", warn = false)
    public static Value inv(Value a, Value m) { return val(big(a).modInverse(big(m))); }
    @TLAPlusOperator(identifier = "BNIsPrime", module = "BigNat", warn = false)
    public static Value prime(Value a) { return big(a).isProbablePrime(100) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "BNSqrt", module = "BigNat", warn = false)
    public static Value sqrt(Value a) { return val(big(a).sqrt()); }
    @TLAPlusOperator(identifier = "BNJacobi", module = "BigNat", warn = false)
    public static Value jacobi(Value a0, Value n0) {
        BigInteger a = big(a0), n = big(n0);
        int r = 1;
        a = a.mod(n);
        while (a.signum() != 0) {
            while (!a.testBit(0)) {
                a = a.shiftRight(1);
                int n8 = n.intValue() & 7;
                if (n8 == 3 || n8 == 5) r = -r;
            }
            BigInteger t = a; a = n; n = t;
            if ((a.intValue() & 3) == 3 && (n.intValue() & 3) == 3) r = -r;
            a = a.mod(n);
        }
        return IntValue.gen(n.equals(BigInteger.ONE) ? r : 0);
    }

    // ---- curve
    static final UniqueString P = UniqueString.uniqueStringOf("p"), A = UniqueString.uniqueStringOf("a"),
        X = UniqueString.uniqueStringOf("x"), Y = UniqueString.uniqueStringOf("y"), INF = UniqueString.uniqueStringOf("inf");
    static Value field(Value r, UniqueString n) { return (Value) ((RecordValue) r.toRcd()).select(new StringValue(n)); }
    static BigInteger[] pt(Value v) {
        if (((BoolValue) field(v, INF)).val) return null;
        return new BigInteger[] { big(field(v, X)), big(field(v, Y)) };
    }
    static BigInteger[] padd(BigInteger p, BigInteger a, BigInteger[] u, BigInteger[] v) {
        if (u == null) return v;
        if (v == null) return u;
        BigInteger l;
        if (u[0].equals(v[0])) {
            if (u[1].add(v[1]).mod(p).signum() == 0) return null;
            if (!u[1].equals(v[1])) throw new RuntimeException("EAdd: points not on one curve");
            l = u[0].multiply(u[0]).multiply(BigInteger.valueOf(3)).add(a).multiply(u[1].shiftLeft(1).modInverse(p)).mod(p);
        } else {
            l = v[1].subtract(u[1]).multiply(v[0].subtract(u[0]).mod(p).modInverse(p)).mod(p);
        }
        BigInteger x = l.multiply(l).subtract(u[0]).subtract(v[0]).mod(p);
        return new BigInteger[] { x, l.multiply(u[0].subtract(x)).subtract(u[1]).mod(p) };
    }
    static Value ptval(BigInteger[] u) {
        Value e = new TupleValue(new Value[0]);
        UniqueString[] names = { INF, X, Y };
        Value[] vals = u == null ? new Value[] { BoolValue.ValTrue, e, e }
                                 : new Value[] { BoolValue.ValFalse, val(u[0]), val(u[1]) };
        return new RecordValue(names, vals, false);
    }
    @TLAPlusOperator(identifier = "EMul", module = "Curve", warn = false)
    public static Value emul(Value c, Value u, Value k0) {
        BigInteger p = big(field(c, P)), a = big(field(c, A)), k = big(k0);
        BigInteger[] q = pt(u), r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = padd(p, a, r, r);
            if (k.testBit(i)) r = padd(p, a, r, q);
        }
        return ptval(r);
    }
    @TLAPlusOperator(identifier = "EAdd", module = "Curve", warn = false)
    public static Value eadd(Value c, Value u, Value v) {
        return ptval(padd(big(field(c, P)), big(field(c, A)), pt(u), pt(v)));
    }

    // ---- hashes
    static byte[] raw(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        byte[] b = new byte[e.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
        return b;
    }
    static Value rawval(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "SHA256", module = "Hashes", warn = false)
    public static Value sha256(Value s) throws Exception {
        return rawval(java.security.MessageDigest.getInstance("SHA-256").digest(raw(s)));
    }
    @TLAPlusOperator(identifier = "HMACSHA512", module = "Hashes", warn = false)
    public static Value hmac(Value key, Value s) throws Exception {
        javax.crypto.Mac m = javax.crypto.Mac.getInstance("HmacSHA512");
        m.init(new javax.crypto.spec.SecretKeySpec(raw(key), "HmacSHA512"));
        return rawval(m.doFinal(raw(s)));
    }
}
