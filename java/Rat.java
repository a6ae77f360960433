// Java overrides of the operators of spec/Rat.tla (same names, same meaning).
import java.math.BigInteger;
import java.math.BigDecimal;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
    static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE;

    static RatValue m(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return RatValue.scalar(BigInteger.valueOf(((IntValue) v).val), ONE);
        throw new RuntimeException("not a rational: " + v);
    }
    static int i(Value v) { return ((IntValue) v).val; }

    static RatValue sc(Value v) {
        RatValue x = m(v);
        if (!x.isScalar()) throw new RuntimeException("not a scalar: " + v);
        return x;
    }

    static BigInteger[] decimal(String s) {
        BigDecimal d = new BigDecimal(s);
        BigInteger u = d.unscaledValue();
        int k = d.scale();
        return k >= 0 ? new BigInteger[] {u, BigInteger.TEN.pow(k)}
                      : new BigInteger[] {u.multiply(BigInteger.TEN.pow(-k)), ONE};
    }

    static BigInteger[] parse(String s) {
        s = s.trim();
        int k = s.indexOf('/');
        if (k < 0) return decimal(s);
        BigInteger[] n = decimal(s.substring(0, k)), d = decimal(s.substring(k + 1));
        return new BigInteger[] {n[0].multiply(d[1]), n[1].multiply(d[0])};
    }

    static String show(RatValue x) {
        String n = x.a[0].toString();
        if (x.den.equals(ONE) && n.length() < 24) return n;
        if (n.length() + x.den.toString().length() < 24) return n + "/" + x.den;
        return String.format("%.15e", x.dbl(0));
    }

    static Value[] elems(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "IsNum", module = "Rat", warn = false)
    public static Value IsNum(Value v) {
        if (v instanceof IntValue) return BoolValue.ValTrue;
        if (!(v instanceof StringValue)) return BoolValue.ValFalse;
        try {
            return parse(((StringValue) v).val.toString())[1].signum() != 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (RuntimeException e) {
            return BoolValue.ValFalse;
        }
    }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value R(Value v) {
        if (v instanceof StringValue) {
            BigInteger[] p = parse(((StringValue) v).val.toString());
            return RatValue.scalar(p[0], p[1]);
        }
        if (v instanceof RatValue || v instanceof IntValue) return sc(v);
        Value[] e = elems(v);
        return RatValue.scalar(BigInteger.valueOf(i(e[0])), BigInteger.valueOf(i(e[1])));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value x, Value y) { return add(sc(x), sc(y), false); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value x, Value y) { return add(sc(x), sc(y), true); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value x, Value y) {
        RatValue a = sc(x), b = sc(y);
        return RatValue.scalar(a.a[0].multiply(b.a[0]), a.den.multiply(b.den));
    }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value x, Value y) {
        RatValue a = sc(x), b = sc(y);
        if (b.a[0].signum() == 0) throw new RuntimeException("division by zero");
        return RatValue.scalar(a.a[0].multiply(b.den), a.den.multiply(b.a[0]));
    }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value RLe(Value x, Value y) {
        return sc(x).compareTo(sc(y)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(Value x, Value y) {
        return sc(x).compareTo(sc(y)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
    public static Value RShow(Value x) { return new StringValue(show(sc(x))); }

    static RatValue add(RatValue x, RatValue y, boolean minus) {
        int r = Math.max(x.r, y.r), c = Math.max(x.c, y.c);
        BigInteger g = x.den.gcd(y.den);
        BigInteger fx = y.den.divide(g), fy = x.den.divide(g);
        if (minus) fy = fy.negate();
        BigInteger[] o = new BigInteger[r * c];
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) {
                BigInteger u = i < x.r && j < x.c ? x.a[i * x.c + j].multiply(fx) : Z;
                BigInteger v = i < y.r && j < y.c ? y.a[i * y.c + j].multiply(fy) : Z;
                o[i * c + j] = u.add(v);
            }
        return new RatValue(r, c, o, x.den.multiply(fx));
    }

    @TLAPlusOperator(identifier = "Mat", module = "Rat", warn = false)
    public static Value Mat(Value v) {
        Value[] rows = elems(v);
        int r = rows.length;
        if (r == 0) throw new RuntimeException("empty matrix");
        RatValue[][] e = new RatValue[r][];
        BigInteger den = ONE;
        int c = -1;
        for (int i = 0; i < r; i++) {
            Value[] row = elems(rows[i]);
            if (c < 0) c = row.length;
            if (row.length != c) throw new RuntimeException("ragged matrix");
            e[i] = new RatValue[c];
            for (int j = 0; j < c; j++) {
                RatValue x = row[j] instanceof StringValue ? (RatValue) R(row[j]) : sc(row[j]);
                e[i][j] = x;
                if (!den.remainder(x.den).equals(Z)) den = den.divide(den.gcd(x.den)).multiply(x.den);
            }
        }
        BigInteger[] o = new BigInteger[r * c];
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                o[i * c + j] = e[i][j].a[0].multiply(den.divide(e[i][j].den));
        return new RatValue(r, c, o, den);
    }

    @TLAPlusOperator(identifier = "MRows", module = "Rat", warn = false)
    public static Value MRows(Value x) { return IntValue.gen(m(x).r); }
    @TLAPlusOperator(identifier = "MCols", module = "Rat", warn = false)
    public static Value MCols(Value x) { return IntValue.gen(m(x).c); }
    @TLAPlusOperator(identifier = "MGet", module = "Rat", warn = false)
    public static Value MGet(Value x, Value vi, Value vj) {
        RatValue a = m(x);
        int i = i(vi) - 1, j = i(vj) - 1;
        if (i < 0 || j < 0 || i >= a.r || j >= a.c) throw new RuntimeException("MGet out of range");
        return RatValue.scalar(a.a[i * a.c + j], a.den);
    }
    @TLAPlusOperator(identifier = "MAdd", module = "Rat", warn = false)
    public static Value MAdd(Value x, Value y) { return add(m(x), m(y), false); }
    @TLAPlusOperator(identifier = "MSub", module = "Rat", warn = false)
    public static Value MSub(Value x, Value y) { return add(m(x), m(y), true); }
    @TLAPlusOperator(identifier = "MScale", module = "Rat", warn = false)
    public static Value MScale(Value s, Value x) {
        RatValue k = sc(s), a = m(x);
        BigInteger[] o = new BigInteger[a.a.length];
        for (int i = 0; i < o.length; i++) o[i] = a.a[i].multiply(k.a[0]);
        return new RatValue(a.r, a.c, o, a.den.multiply(k.den));
    }
    @TLAPlusOperator(identifier = "MMul", module = "Rat", warn = false)
    public static Value MMul(Value x, Value y) {
        RatValue a = m(x), b = m(y);
        if (a.c != b.r) throw new RuntimeException("MMul " + a.r + "x" + a.c + " by " + b.r + "x" + b.c);
        BigInteger[] o = new BigInteger[a.r * b.c];
        for (int i = 0; i < a.r; i++)
            for (int j = 0; j < b.c; j++) {
                BigInteger s = Z;
                for (int k = 0; k < a.c; k++) {
                    BigInteger u = a.a[i * a.c + k];
                    if (u.signum() == 0) continue;
                    BigInteger v = b.a[k * b.c + j];
                    if (v.signum() == 0) continue;
                    s = s.add(u.multiply(v));
                }
                o[i * b.c + j] = s;
            }
        return new RatValue(a.r, b.c, o, a.den.multiply(b.den));
    }
    @TLAPlusOperator(identifier = "MHad", module = "Rat", warn = false)
    public static Value MHad(Value x, Value y) {
        RatValue A = m(x), B = m(y);
        if (A.r != B.r || A.c != B.c) throw new RuntimeException("MHad: different sizes");
        BigInteger[] o = new BigInteger[A.a.length];
        for (int k = 0; k < o.length; k++) o[k] = A.a[k].multiply(B.a[k]);
        return new RatValue(A.r, A.c, o, A.den.multiply(B.den));
    }

    @TLAPlusOperator(identifier = "MTr", module = "Rat", warn = false)
    public static Value MTr(Value x) {
        RatValue a = m(x);
        BigInteger[] o = new BigInteger[a.a.length];
        for (int i = 0; i < a.r; i++)
            for (int j = 0; j < a.c; j++) o[j * a.r + i] = a.a[i * a.c + j];
        return new RatValue(a.c, a.r, o, a.den);
    }
    @TLAPlusOperator(identifier = "MDot", module = "Rat", warn = false)
    public static Value MDot(Value x, Value y) {
        RatValue a = m(x), b = m(y);
        if (a.c != b.c || a.r != b.r) throw new RuntimeException("MDot shapes");
        BigInteger s = Z;
        for (int i = 0; i < a.a.length; i++)
            if (a.a[i].signum() != 0 && b.a[i].signum() != 0) s = s.add(a.a[i].multiply(b.a[i]));
        return RatValue.scalar(s, a.den.multiply(b.den));
    }
    @TLAPlusOperator(identifier = "MAbs", module = "Rat", warn = false)
    public static Value MAbs(Value x) {
        RatValue a = m(x);
        BigInteger[] o = new BigInteger[a.a.length];
        for (int i = 0; i < o.length; i++) o[i] = a.a[i].abs();
        return new RatValue(a.r, a.c, o, a.den);
    }
    @TLAPlusOperator(identifier = "PMul", module = "Rat", warn = false)
    public static Value PMul(Value x, Value y) {
        RatValue a = m(x), b = m(y);
        int r = a.r + b.r - 1, c = a.c + b.c - 1;
        BigInteger[] o = new BigInteger[r * c];
        java.util.Arrays.fill(o, Z);
        for (int i = 0; i < a.r; i++)
            for (int j = 0; j < a.c; j++) {
                BigInteger u = a.a[i * a.c + j];
                if (u.signum() == 0) continue;
                for (int k = 0; k < b.r; k++)
                    for (int l = 0; l < b.c; l++) {
                        BigInteger v = b.a[k * b.c + l];
                        if (v.signum() == 0) continue;
                        int q = (i + k) * c + j + l;
                        o[q] = o[q].add(u.multiply(v));
                    }
            }
        return new RatValue(r, c, o, a.den.multiply(b.den));
    }
    @TLAPlusOperator(identifier = "PDx", module = "Rat", warn = false)
    public static Value PDx(Value x) {
        RatValue a = m(x);
        int r = Math.max(a.r - 1, 1);
        BigInteger[] o = new BigInteger[r * a.c];
        java.util.Arrays.fill(o, Z);
        for (int i = 1; i < a.r; i++)
            for (int j = 0; j < a.c; j++) o[(i - 1) * a.c + j] = a.a[i * a.c + j].multiply(BigInteger.valueOf(i));
        return new RatValue(r, a.c, o, a.den);
    }
    @TLAPlusOperator(identifier = "PDy", module = "Rat", warn = false)
    public static Value PDy(Value x) { return MTr(PDx(MTr(x))); }

    @TLAPlusOperator(identifier = "PInt", module = "Rat", warn = false)
    public static Value PInt(Value p, Value x1, Value x2, Value y1, Value y2) {
        RatValue a = m(p);
        RatValue mx = moments(a.r, sc(x1), sc(x2)), my = moments(a.c, sc(y1), sc(y2));
        RatValue t = (RatValue) MMul(MMul(MTr(mx), a), my);
        return t;
    }
    static RatValue moments(int n, RatValue x1, RatValue x2) {
        Value[] rows = new Value[n];
        Value p = x1, q = x2;
        for (int k = 1; k <= n; k++) {
            rows[k - 1] = new TupleValue(new Value[] {RDiv(RSub(q, p), IntValue.gen(k))});
            p = RMul(p, x1); q = RMul(q, x2);
        }
        return (RatValue) Mat(new TupleValue(rows));
    }
    @TLAPlusOperator(identifier = "PEval", module = "Rat", warn = false)
    public static Value PEval(Value p, Value x, Value y) {
        RatValue a = m(p);
        return MMul(MMul(MTr(powers(a.r, sc(x))), a), powers(a.c, sc(y)));
    }
    static RatValue powers(int n, RatValue x) {
        Value[] rows = new Value[n];
        Value p = IntValue.gen(1);
        for (int k = 0; k < n; k++) {
            rows[k] = new TupleValue(new Value[] {p});
            p = RMul(p, x);
        }
        return (RatValue) Mat(new TupleValue(rows));
    }
}
