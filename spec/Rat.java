// Operator overrides for Rat.tla: the same definitions over unbounded integers.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.math.BigInteger;
public class Rat {
    static final UniqueString N = UniqueString.uniqueStringOf("n"), D = UniqueString.uniqueStringOf("d");
    static BigInteger big(Value v) {
        return v instanceof IntValue ? BigInteger.valueOf(((IntValue) v).val) : new BigInteger(((StringValue) v).val.toString());
    }
    static Value val(BigInteger b) {
        return b.bitLength() < 32 ? IntValue.gen(b.intValue()) : new StringValue(b.toString());
    }
    static BigInteger[] rat(Value v) {
        RecordValue r = (RecordValue) v.toRcd();
        BigInteger n = null, d = null;
        for (int i = 0; i < r.names.length; i++)
            if (r.names[i].equals(N)) n = big(r.values[i]); else d = big(r.values[i]);
        return new BigInteger[] { n, d };
    }
    static Value mk(BigInteger n, BigInteger d) {
        BigInteger g = n.gcd(d);
        if (d.signum() < 0) g = g.negate();
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        return new RecordValue(new UniqueString[] { D, N }, new Value[] { val(d), val(n) }, false);
    }
    public static Value Q(Value n, Value d) { return mk(big(n), big(d)); }
    public static Value R(Value n) { return mk(big(n), BigInteger.ONE); }
    public static Value RAdd(Value a, Value b) {
        BigInteger[] x = rat(a), y = rat(b);
        return mk(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value RNeg(Value a) { BigInteger[] x = rat(a); return mk(x[0].negate(), x[1]); }
    public static Value RMul(Value a, Value b) {
        BigInteger[] x = rat(a), y = rat(b);
        return mk(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }
    public static Value RInv(Value a) { BigInteger[] x = rat(a); return mk(x[1], x[0]); }
    public static Value RIsZero(Value a) { return rat(a)[0].signum() == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RSign(Value a) { return IntValue.gen(rat(a)[0].signum()); }
    public static Value RClose(Value a, Value b) {
        BigInteger[] x = rat(a), y = rat(b);
        if (x[1].signum() == 0) return BoolValue.ValFalse;
        // |x - y| * 10^8 <= 1 + |y|
        BigInteger num = x[0].multiply(y[1]).subtract(y[0].multiply(x[1])).abs().multiply(BigInteger.valueOf(100000000L));
        BigInteger den = y[1].add(y[0].abs()).multiply(x[1]);
        return num.compareTo(den) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static BigInteger[] add(BigInteger[] x, BigInteger[] y) {
        return red(x[1].equals(y[1]) ? x[0].add(y[0]) : x[0].multiply(y[1]).add(y[0].multiply(x[1])),
                   x[1].equals(y[1]) ? x[1] : x[1].multiply(y[1]));
    }
    static BigInteger[] mul(BigInteger[] x, BigInteger[] y) { return red(x[0].multiply(y[0]), x[1].multiply(y[1])); }
    static BigInteger[] neg(BigInteger[] x) { return new BigInteger[] { x[0].negate(), x[1] }; }
    static BigInteger[] inv(BigInteger[] x) { return red(x[1], x[0]); }
    static BigInteger[] red(BigInteger n, BigInteger d) {
        BigInteger g = n.gcd(d);
        if (d.signum() < 0) g = g.negate();
        return g.equals(BigInteger.ONE) ? new BigInteger[] { n, d } : new BigInteger[] { n.divide(g), d.divide(g) };
    }
    static BigInteger[] zero() { return new BigInteger[] { BigInteger.ZERO, BigInteger.ONE }; }
    static BigInteger[] one() { return new BigInteger[] { BigInteger.ONE, BigInteger.ONE }; }
    static Value mk(BigInteger[] x) { return mk(x[0], x[1]); }
    static BigInteger[][] vec(Value v) {
        Value[] s = seq(v);
        BigInteger[][] r = new BigInteger[s.length][];
        for (int i = 0; i < s.length; i++) r[i] = rat(s[i]);
        return r;
    }
    static BigInteger[][][] mat(Value v) {
        Value[] s = seq(v);
        BigInteger[][][] r = new BigInteger[s.length][][];
        for (int i = 0; i < s.length; i++) r[i] = vec(s[i]);
        return r;
    }
    static Value tup(BigInteger[][] x) {
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = mk(x[i]);
        return new TupleValue(r);
    }
    static Value tup(BigInteger[][][] x) {
        Value[] r = new Value[x.length];
        for (int i = 0; i < r.length; i++) r[i] = tup(x[i]);
        return new TupleValue(r);
    }
    static BigInteger[] dot(BigInteger[][] x, BigInteger[][] y) {
        BigInteger[] s = zero();
        for (int i = 0; i < x.length; i++)
            if (x[i][0].signum() != 0 && y[i][0].signum() != 0) s = add(s, mul(x[i], y[i]));
        return s;
    }
    public static Value RSumSeq(Value v) {
        BigInteger[] s = zero();
        for (BigInteger[] x : vec(v)) if (x[0].signum() != 0) s = add(s, x);
        return mk(s);
    }
    public static Value RDot(Value u, Value v) { return mk(dot(vec(u), vec(v))); }
    public static Value RPow(Value a, Value k) {
        BigInteger[] x = rat(a), r = one();
        for (int i = ((IntValue) k).val; i > 0; i--) r = mul(r, x);
        return mk(r);
    }
    public static Value PEval(Value p, Value a) {
        BigInteger[] x = rat(a), r = zero();
        BigInteger[][] c = vec(p);
        for (int i = c.length - 1; i >= 0; i--) r = add(c[i], mul(x, r));
        return mk(r);
    }
    public static Value PMul(Value p, Value q) {
        BigInteger[][] x = vec(p), y = vec(q);
        if (x.length == 0 || y.length == 0) return new TupleValue(new Value[0]);
        BigInteger[][] r = new BigInteger[x.length + y.length - 1][];
        for (int i = 0; i < r.length; i++) r[i] = zero();
        for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i + j] = add(r[i + j], mul(x[i], y[j]));
        return tup(r);
    }
    public static Value RCloseAll(Value u, Value v) {
        Value[] a = seq(u), b = seq(v);
        if (a.length != b.length) return BoolValue.ValFalse;
        for (int i = 0; i < a.length; i++) if (RClose(a[i], b[i]) == BoolValue.ValFalse) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value RCloseMat(Value u, Value v) {
        Value[] a = seq(u), b = seq(v);
        if (a.length != b.length) return BoolValue.ValFalse;
        for (int i = 0; i < a.length; i++) if (RCloseAll(a[i], b[i]) == BoolValue.ValFalse) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    static BigInteger[][][] tr(BigInteger[][][] m) {
        if (m.length == 0) return m;
        BigInteger[][][] r = new BigInteger[m[0].length][m.length][];
        for (int i = 0; i < m.length; i++) for (int j = 0; j < m[0].length; j++) r[j][i] = m[i][j];
        return r;
    }
    public static Value MatT(Value a) { return tup(tr(mat(a))); }
    public static Value MatVec(Value a, Value x) {
        BigInteger[][][] m = mat(a);
        BigInteger[][] v = vec(x), r = new BigInteger[m.length][];
        for (int i = 0; i < m.length; i++) r[i] = dot(m[i], v);
        return tup(r);
    }
    public static Value MatMul(Value a, Value b) {
        BigInteger[][][] m = mat(a), t = tr(mat(b)), r = new BigInteger[m.length][t.length][];
        for (int i = 0; i < m.length; i++) for (int j = 0; j < t.length; j++) r[i][j] = dot(m[i], t[j]);
        return tup(r);
    }
    public static Value VAdd(Value u, Value v) {
        BigInteger[][] x = vec(u), y = vec(v), r = new BigInteger[x.length][];
        for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]);
        return tup(r);
    }
    public static Value VMul(Value u, Value v) {
        BigInteger[][] x = vec(u), y = vec(v), r = new BigInteger[x.length][];
        for (int i = 0; i < r.length; i++) r[i] = mul(x[i], y[i]);
        return tup(r);
    }
    public static Value VDiv(Value u, Value v) {
        BigInteger[][] x = vec(u), y = vec(v), r = new BigInteger[x.length][];
        for (int i = 0; i < r.length; i++) r[i] = mul(x[i], inv(y[i]));
        return tup(r);
    }
    public static Value VScale(Value c, Value v) {
        BigInteger[][] y = vec(v), r = new BigInteger[y.length][];
        BigInteger[] k = rat(c);
        for (int i = 0; i < r.length; i++) r[i] = mul(k, y[i]);
        return tup(r);
    }
    public static Value VConst(Value c, Value n) {
        Value[] r = new Value[((IntValue) n).val];
        for (int i = 0; i < r.length; i++) r[i] = c;
        return new TupleValue(r);
    }
    public static Value VPow(Value v, Value k) {
        BigInteger[][] y = vec(v), r = new BigInteger[y.length][];
        for (int i = 0; i < r.length; i++) {
            r[i] = one();
            for (int j = ((IntValue) k).val; j > 0; j--) r[i] = mul(r[i], y[i]);
        }
        return tup(r);
    }
    public static Value PEvalV(Value p, Value v) {
        BigInteger[][] c = vec(p), y = vec(v), r = new BigInteger[y.length][];
        for (int i = 0; i < r.length; i++) {
            r[i] = zero();
            for (int k = c.length - 1; k >= 0; k--) r[i] = add(c[k], mul(y[i], r[i]));
        }
        return tup(r);
    }
    public static Value VKron(Value u, Value v) {
        BigInteger[][] x = vec(u), y = vec(v), r = new BigInteger[x.length * y.length][];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i * y.length + j] = mul(x[i], y[j]);
        return tup(r);
    }
    static Value field(Value r, String f) {
        RecordValue t = (RecordValue) r.toRcd();
        for (int i = 0; i < t.names.length; i++) if (t.names[i].toString().equals(f)) return t.values[i];
        throw new RuntimeException("Rat: no field " + f);
    }
    public static Value ScatterSum(Value l, Value n, Value m) {
        BigInteger[][][] s = new BigInteger[((IntValue) n).val][((IntValue) m).val][];
        for (BigInteger[][] x : s) for (int j = 0; j < x.length; j++) x[j] = zero();
        for (Value b : seq(l)) {
            Value[] r = seq(field(b, "r")), c = seq(field(b, "c"));
            BigInteger[][][] a = mat(field(b, "a"));
            for (int p = 0; p < r.length; p++) for (int q = 0; q < c.length; q++) {
                int i = ((IntValue) r[p]).val - 1, j = ((IntValue) c[q]).val - 1;
                if (a[p][q][0].signum() != 0 && i >= 0 && i < s.length && j >= 0 && j < s[i].length) s[i][j] = add(s[i][j], a[p][q]);
            }
        }
        return tup(s);
    }
    public static Value RCloseInt(Value a, Value d, Value b) {
        Value[] x = seq(a), y = seq(b);
        if (x.length != y.length) return BoolValue.ValFalse;
        for (int i = 0; i < x.length; i++) {
            Value[] u = seq(x[i]), v = seq(y[i]);
            if (u.length != v.length) return BoolValue.ValFalse;
            for (int j = 0; j < u.length; j++) if (RClose(Q(u[j], d), v[j]) == BoolValue.ValFalse) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
    public static Value RSqrt(Value a) {
        BigInteger[] x = rat(a);
        BigInteger k = BigInteger.TEN.pow(15);
        return mk(x[0].multiply(x[1]).multiply(k).multiply(k).sqrt(), x[1].multiply(k));
    }
    public static Value RExp(Value a) {
        BigInteger[] x = rat(a);
        java.math.MathContext mc = new java.math.MathContext(60);
        java.math.BigDecimal z = new java.math.BigDecimal(x[0].abs()).divide(new java.math.BigDecimal(x[1]), mc), one = java.math.BigDecimal.ONE;
        int k = 0;
        while (z.compareTo(new java.math.BigDecimal("0.5")) > 0) { z = z.divide(java.math.BigDecimal.valueOf(2), mc); k++; }
        java.math.BigDecimal e = one, t = one;
        for (int i = 1; i < 40; i++) { t = t.multiply(z, mc).divide(java.math.BigDecimal.valueOf(i), mc); e = e.add(t, mc); }
        for (; k > 0; k--) e = e.multiply(e, mc);
        if (x[0].signum() < 0) e = one.divide(e, mc);
        return e.scale() >= 0 ? mk(e.unscaledValue(), BigInteger.TEN.pow(e.scale())) : mk(e.toBigInteger(), BigInteger.ONE);
    }
    public static Value MatMax(Value a) {
        BigInteger[] m = zero();
        for (BigInteger[][] r : mat(a)) for (BigInteger[] v : r)
            if (m[0].multiply(v[1]).compareTo(v[0].abs().multiply(m[1])) < 0) m = new BigInteger[] { v[0].abs(), v[1] };
        return mk(m);
    }
    public static Value MatSolve(Value a, Value b) {
        BigInteger[][][] m = mat(a), c = mat(b);
        int n = m.length, w = n == 0 ? 0 : c[0].length;
        BigInteger[][][] e = new BigInteger[n][n + w][];
        for (int i = 0; i < n; i++) for (int j = 0; j < n + w; j++) e[i][j] = j < n ? m[i][j] : c[i][j - n];
        for (int k = 0; k < n; k++) {
            int p = k;
            while (e[p][k][0].signum() == 0) p++;
            BigInteger[][] t = e[p]; e[p] = e[k]; e[k] = t;
            BigInteger[] f = inv(e[k][k]);
            for (int j = k; j < n + w; j++) e[k][j] = mul(e[k][j], f);
            for (int i = 0; i < n; i++) {
                if (i == k || e[i][k][0].signum() == 0) continue;
                BigInteger[] g = neg(e[i][k]);
                for (int j = k; j < n + w; j++) if (e[k][j][0].signum() != 0) e[i][j] = add(e[i][j], mul(g, e[k][j]));
            }
        }
        BigInteger[][][] r = new BigInteger[n][w][];
        for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) r[i][j] = e[i][n + j];
        return tup(r);
    }
}
