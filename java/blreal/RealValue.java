package blreal;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * A real number as a TLC value. Exact rational while numerator and denominator are small, otherwise a decimal
 * floating point number with 40 significant digits. Three special values: NaN, +Inf, -Inf.
 */
public final class RealValue extends Value {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final int MAXBITS = 320;
    public static final RealValue NAN = new RealValue(0), PINF = new RealValue(1), NINF = new RealValue(-1);
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    final int special; // 2: finite; 0: NaN; 1: +inf; -1: -inf
    final BigInteger n, d; // exact rational, or null
    final BigDecimal x;    // inexact value, or null

    private RealValue(int special) { this.special = special; n = d = null; x = null; }
    private RealValue(BigInteger n, BigInteger d) { special = 2; this.n = n; this.d = d; x = null; }
    private RealValue(BigDecimal x) { special = 2; n = d = null; this.x = x; }

    public static RealValue of(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return n.signum() == 0 ? NAN : n.signum() > 0 ? PINF : NINF;
        BigInteger g = n.gcd(d);
        if (d.signum() < 0) g = g.negate();
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        if (n.bitLength() > MAXBITS || d.bitLength() > MAXBITS)
            return new RealValue(new BigDecimal(n).divide(new BigDecimal(d), MC));
        return new RealValue(n, d);
    }
    public static RealValue of(long k) { return new RealValue(BigInteger.valueOf(k), ONE); }
    public static RealValue of(BigDecimal x) { return x.signum() == 0 ? of(0) : new RealValue(x.round(MC)); }
    public static RealValue of(double v) {
        if (Double.isNaN(v)) return NAN;
        if (Double.isInfinite(v)) return v > 0 ? PINF : NINF;
        return of(new BigDecimal(v));
    }
    public static RealValue parse(String s) {
        s = s.trim();
        switch (s) {
            case "nan": case "NaN": return NAN;
            case "inf": case "Infinity": return PINF;
            case "-inf": case "-Infinity": return NINF;
        }
        int k = s.indexOf('/');
        if (k > 0) return of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        BigDecimal b = new BigDecimal(s);
        if (b.signum() == 0) return of(0);
        // short literals are kept as exact rationals
        if (b.precision() <= 6 && Math.abs(b.scale()) <= 12) {
            if (b.scale() <= 0) return of(b.toBigIntegerExact(), ONE);
            return of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
        }
        return of(b);
    }

    public boolean finite() { return special == 2; }
    public boolean nan() { return special == 0; }
    public int signum() { return special != 2 ? special : n != null ? n.signum() : x.signum(); }
    public BigDecimal dec() {
        return x != null ? x : d.equals(ONE) ? new BigDecimal(n) : new BigDecimal(n).divide(new BigDecimal(d), MC);
    }
    public double dbl() {
        return special == 2 ? dec().doubleValue()
             : special == 0 ? Double.NaN : special > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
    }
    public RealValue neg() {
        return special != 2 ? (special == 0 ? NAN : special > 0 ? NINF : PINF)
             : n != null ? new RealValue(n.negate(), d) : new RealValue(x.negate());
    }
    public RealValue add(RealValue o) {
        if (special != 2 || o.special != 2) return of(sp(this) + sp(o));
        if (n != null && o.n != null)
            return d.equals(o.d) ? of(n.add(o.n), d) : of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        return of(dec().add(o.dec(), MC));
    }
    public RealValue mul(RealValue o) {
        if (special != 2 || o.special != 2) return of(sp(this) * sp(o));
        if (signum() == 0 || o.signum() == 0) return of(0);
        if (n != null && o.n != null) return of(n.multiply(o.n), d.multiply(o.d));
        return of(dec().multiply(o.dec(), MC));
    }
    public RealValue div(RealValue o) {
        if (special != 2 || o.special != 2 || o.signum() == 0) return of(sp(this) / sp(o));
        if (signum() == 0) return of(0);
        if (n != null && o.n != null) return of(n.multiply(o.d), d.multiply(o.n));
        return of(dec().divide(o.dec(), MC));
    }
    private static double sp(RealValue v) { return v.special == 2 ? v.signum() : v.dbl(); }

    /** Natural logarithm, also for values far outside of the range of a double. */
    public RealValue ln() {
        if (nan() || signum() < 0) return NAN;
        if (special == 1) return PINF;
        if (signum() == 0) return NINF;
        BigDecimal b = dec();
        int e = b.precision() - b.scale() - 1; // b = m * 10^e, 1 <= m < 10
        double m = b.movePointLeft(e).doubleValue();
        return of(StrictMath.log(m) + e * StrictMath.log(10.));
    }
    /** Exponential function, also for results far outside of the range of a double. */
    public RealValue exp() {
        if (special != 2) return of(Math.exp(dbl()));
        double v = dbl();
        double l10 = StrictMath.log(10.);
        if (Math.abs(v) < 300.) return of(StrictMath.exp(v));
        long e = (long) Math.floor(v / l10);
        BigDecimal rest = dec().subtract(LN10.multiply(BigDecimal.valueOf(e)), new MathContext(60));
        return of(new BigDecimal(StrictMath.exp(rest.doubleValue())).movePointRight((int) e));
    }
    static final BigDecimal LN10 = new BigDecimal("2.302585092994045684017991454684364207601101488628772976033327901");

    public int cmp(RealValue o) {
        if (special != 2 || o.special != 2) {
            if (special == 0 || o.special == 0) return special == o.special ? 0 : special == 0 ? -1 : 1;
            return Double.compare(sp3(this), sp3(o));
        }
        if (n != null && o.n != null) return n.multiply(o.d).compareTo(o.n.multiply(d));
        return dec().compareTo(o.dec());
    }
    private static double sp3(RealValue v) { return v.special == 2 ? 0. : v.dbl(); }

    // ------------------------------------------------------------------------------- TLC value interface
    @Override public byte getKind() { return USERVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RealValue) return cmp((RealValue) o);
        return -1;
    }
    @Override public boolean equals(Object o) { return o instanceof RealValue && cmp((RealValue) o) == 0; }
    @Override public boolean member(Value v) { throw new RuntimeException("a real number has no elements"); }
    @Override public boolean isFinite() { return true; }
    @Override public Value takeExcept(ValueExcept ex) {
        if (ex.idx >= ex.path.length) return ex.value;
        throw new RuntimeException("EXCEPT on a real number");
    }
    @Override public Value takeExcept(ValueExcept[] exs) {
        Value v = this;
        for (ValueExcept ex : exs) v = v.takeExcept(ex);
        return v;
    }
    @Override public int size() { throw new RuntimeException("a real number has no size"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public long fingerPrint(long fp) {
        try { return FP64.Extend(fp, "R" + canonical()); } catch (RuntimeException e) { throw FingerprintException.getNewHead(this, e); }
    }
    public String canonical() {
        if (special != 2) return special == 0 ? "nan" : special > 0 ? "inf" : "-inf";
        if (n != null) return d.equals(ONE) ? n.toString() : n + "/" + d;
        return x.stripTrailingZeros().toString();
    }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(canonical()); }
}
