// Exact rational matrices for TLC (a scalar is a 1x1 matrix).  Opaque TLC value: integer numerators over one
// common positive denominator.  The TLA+ module Rat gives the meaning of every operator; this is infrastructure
// only (TLC integers are 32 bit).
import java.math.BigInteger;
import java.math.BigDecimal;
import java.math.MathContext;

import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;

public class RatValue extends Value {
    public final int r, c;
    public final BigInteger[] a;     // row major
    public final BigInteger den;     // > 0, gcd(content, den) = 1

    public RatValue(int r, int c, BigInteger[] a, BigInteger den) {
        if (den.signum() < 0) {
            den = den.negate();
            for (int i = 0; i < a.length; i++) a[i] = a[i].negate();
        }
        if (!den.equals(BigInteger.ONE)) {
            BigInteger g = den;
            for (int i = 0; i < a.length && !g.equals(BigInteger.ONE); i++)
                if (a[i].signum() != 0) g = g.gcd(a[i]);
            boolean allz = true;
            for (BigInteger x : a) if (x.signum() != 0) { allz = false; break; }
            if (allz) den = BigInteger.ONE;
            else if (!g.equals(BigInteger.ONE)) {
                for (int i = 0; i < a.length; i++) a[i] = a[i].divide(g);
                den = den.divide(g);
            }
        }
        this.r = r; this.c = c; this.a = a; this.den = den;
    }

    public static RatValue scalar(BigInteger n, BigInteger d) {
        return new RatValue(1, 1, new BigInteger[] {n}, d);
    }

    public boolean isScalar() { return r == 1 && c == 1; }

    public double dbl(int k) {
        if (a[k].signum() == 0) return 0.;
        return new BigDecimal(a[k]).divide(new BigDecimal(den), MathContext.DECIMAL64).doubleValue();
    }

    public byte getKind() { return MODELVALUE; }
    public String getKindString() { return "a rational matrix"; }
    public boolean member(Value v) { throw new RuntimeException("member of a rational"); }
    public Value takeExcept(ValueExcept e) {
        if (e.idx < e.path.length) throw new RuntimeException("EXCEPT of a rational");
        return (Value) e.value;
    }
    public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT of a rational"); }
    public Value normalize() { return this; }
    public boolean isNormalized() { return true; }
    public boolean isFinite() { return true; }
    public int size() { return 1; }
    public boolean isDefined() { return true; }
    public boolean mutates() { return false; }
    public IValue deepCopy() { return this; }
    public IValue permute(IMVPerm p) { return this; }
    public void deepNormalize() { }
    public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, MODELVALUE);
        fp = FP64.Extend(fp, r);
        fp = FP64.Extend(fp, c);
        for (BigInteger x : a) fp = FP64.Extend(fp, x.toString());
        return FP64.Extend(fp, den.toString());
    }
    public int compareTo(Object o) {
        if (!(o instanceof RatValue)) return -1;
        RatValue b = (RatValue) o;
        if (r != b.r) return Integer.compare(r, b.r);
        if (c != b.c) return Integer.compare(c, b.c);
        for (int i = 0; i < a.length; i++) {
            int k = a[i].multiply(b.den).compareTo(b.a[i].multiply(den));
            if (k != 0) return k;
        }
        return 0;
    }
    public boolean equals(Object o) {
        if (!(o instanceof RatValue)) return false;
        return compareTo(o) == 0;
    }
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        if (isScalar()) return sb.append('"').append(Rat.show(this)).append('"');
        sb.append("Mat(").append(r).append("x").append(c).append(")[");
        for (int i = 0; i < a.length && i < 16; i++) sb.append(i > 0 ? ", " : "").append(dbl(i));
        return sb.append(a.length > 16 ? ", ...]" : "]");
    }
}
