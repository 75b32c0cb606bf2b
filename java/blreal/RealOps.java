package blreal;

import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Scalar operators of the module Reals_ (and accelerated versions of its sequence operators). */
public class RealOps {
    static RealValue r(Value v) {
        if (v instanceof RealValue) return (RealValue) v;
        if (v instanceof IntValue) return RealValue.of(((IntValue) v).val);
        if (v instanceof StringValue) return RealValue.parse(((StringValue) v).val.toString());
        throw new RuntimeException("not a number: " + v);
    }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "R", module = "RealNumbers", warn = false)
    public static Value R(Value a) { return r(a); }
    @TLAPlusOperator(identifier = "RAdd", module = "RealNumbers", warn = false)
    public static Value add(Value a, Value c) { return r(a).add(r(c)); }
    @TLAPlusOperator(identifier = "RSub", module = "RealNumbers", warn = false)
    public static Value sub(Value a, Value c) { return r(a).add(r(c).neg()); }
    @TLAPlusOperator(identifier = "RMul", module = "RealNumbers", warn = false)
    public static Value mul(Value a, Value c) { return r(a).mul(r(c)); }
    @TLAPlusOperator(identifier = "RDiv", module = "RealNumbers", warn = false)
    public static Value div(Value a, Value c) { return r(a).div(r(c)); }
    @TLAPlusOperator(identifier = "RNeg", module = "RealNumbers", warn = false)
    public static Value neg(Value a) { return r(a).neg(); }
    @TLAPlusOperator(identifier = "RAbs", module = "RealNumbers", warn = false)
    public static Value abs(Value a) { RealValue x = r(a); return x.signum() < 0 && !x.nan() ? x.neg() : x; }
    @TLAPlusOperator(identifier = "RLt", module = "RealNumbers", warn = false)
    public static Value lt(Value a, Value c) { RealValue x = r(a), y = r(c); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = "RealNumbers", warn = false)
    public static Value le(Value a, Value c) { RealValue x = r(a), y = r(c); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "RealNumbers", warn = false)
    public static Value eq(Value a, Value c) { RealValue x = r(a), y = r(c); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
    @TLAPlusOperator(identifier = "RIsNan", module = "RealNumbers", warn = false)
    public static Value isNan(Value a) { return b(r(a).nan()); }
    @TLAPlusOperator(identifier = "RIsFinite", module = "RealNumbers", warn = false)
    public static Value isFin(Value a) { return b(r(a).finite()); }
    @TLAPlusOperator(identifier = "RExp", module = "RealNumbers", warn = false)
    public static Value exp(Value a) { return r(a).exp(); }
    @TLAPlusOperator(identifier = "RLn", module = "RealNumbers", warn = false)
    public static Value ln(Value a) { return r(a).ln(); }
    @TLAPlusOperator(identifier = "RCos", module = "RealNumbers", warn = false)
    public static Value cos(Value a) { return RealValue.of(StrictMath.cos(r(a).dbl())); }
    @TLAPlusOperator(identifier = "RPi", module = "RealNumbers", warn = false)
    public static Value pi() { return RealValue.of(new BigDecimal("3.14159265358979323846264338327950288419717")); }
    @TLAPlusOperator(identifier = "RSqrt", module = "RealNumbers", warn = false)
    public static Value sqrt(Value a) {
        RealValue x = r(a);
        if (x.nan() || x.signum() < 0) return RealValue.NAN;
        if (!x.finite()) return x;
        if (x.signum() == 0) return RealValue.of(0);
        return RealValue.of(x.dec().sqrt(RealValue.MC));
    }
    @TLAPlusOperator(identifier = "RPow", module = "RealNumbers", warn = false)
    public static Value pow(Value a, Value c) {
        RealValue x = r(a), y = r(c);
        if (y.finite() && y.n != null && y.d.equals(RealValue.ONE) && y.n.bitLength() < 12) { // integer exponent
            int k = y.n.intValue();
            RealValue p = RealValue.of(1);
            for (int i = 0; i < Math.abs(k); i++) p = p.mul(x);
            return k < 0 ? RealValue.of(1).div(p) : p;
        }
        if (x.finite() && x.signum() == 0) return y.signum() > 0 ? RealValue.of(0) : RealValue.PINF;
        if (x.signum() < 0) return RealValue.NAN;
        return y.mul(x.ln()).exp();
    }
    @TLAPlusOperator(identifier = "RFact", module = "RealNumbers", warn = false)
    public static Value fact(Value a) {
        int k = ((IntValue) a).val;
        RealValue p = RealValue.of(1);
        for (int i = 2; i <= k; i++) p = p.mul(RealValue.of(i));
        return p;
    }
    /** Largest integer not greater than a (must fit in 32 bits). */
    @TLAPlusOperator(identifier = "RFloor", module = "RealNumbers", warn = false)
    public static Value floor(Value a) {
        return IntValue.gen(r(a).dec().setScale(0, java.math.RoundingMode.FLOOR).intValueExact());
    }
    @TLAPlusOperator(identifier = "RIsInt", module = "RealNumbers", warn = false)
    public static Value isInt(Value a) {
        RealValue x = r(a);
        return b(x.finite() && x.dec().remainder(BigDecimal.ONE).signum() == 0);
    }
    /** |a - c| <= atol + rtol*|a|; NaN is close to NaN only, infinities are close to themselves only. */
    static boolean close(RealValue x, RealValue y, RealValue rtol, RealValue atol) {
        if (!x.finite() || !y.finite()) return x.special == y.special;
        BigDecimal p = x.dec(), q = y.dec();
        return p.subtract(q).abs().compareTo(atol.dec().add(rtol.dec().multiply(p.abs(), RealValue.MC), RealValue.MC)) <= 0;
    }
    @TLAPlusOperator(identifier = "RClose", module = "RealNumbers", warn = false)
    public static Value closeOp(Value a, Value c, Value rtol, Value atol) { return b(close(r(a), r(c), r(rtol), r(atol))); }
    @TLAPlusOperator(identifier = "RShow", module = "RealNumbers", warn = false)
    public static Value show(Value a) {
        RealValue x = r(a);
        return new StringValue(x.finite() ? x.dec().round(new MathContext(17)).stripTrailingZeros().toString() : x.canonical());
    }
    /** Is the argument a real number (or an integer, or a string denoting a number)? */
    @TLAPlusOperator(identifier = "RIsNumeral", module = "RealNumbers", warn = false)
    public static Value isNumeral(Value a) {
        try { r(a); return BoolValue.ValTrue; } catch (RuntimeException e) { return BoolValue.ValFalse; }
    }

    // ------------------------------------------------------------------------------- comparison of outcomes
    static final RealValue RTOL = RealValue.parse("1e-5"), ATOL = RealValue.parse("1e-10");
    static final RealValue LRTOL = RealValue.parse("1e-9"), LATOL = RealValue.parse("2e-8");
    static final RealValue NOTOL = RealValue.parse("1e-280");
    static String show1(Value v) {
        String s = v.toString();
        return s.length() > 60 ? s.substring(0, 60) + "..." : s;
    }
    /** First difference of a specified outcome and an observed one ("" if there is none); see Trace.tla. */
    static String diff(Value p, Value o, String path, int tol) { return diff(p, o, path, tol, null); }
    /** judged: names of the fields to compare (at the top level), null: all */
    static String diff(Value p, Value o, String path, int tol, java.util.Set<String> judged) {
        if (p instanceof RealValue || p instanceof IntValue) {
            RealValue x = r(p), y;
            try { y = r(o); } catch (RuntimeException e) { return path + ": expected the number " + show1(p) + ", observed " + show1(o); }
            boolean ok = close(x, y, tol == 1 ? LRTOL : RTOL, tol == 1 ? LATOL : tol == 2 ? NOTOL : ATOL);
            return ok ? "" : path + ": expected " + ((StringValue) show(x)).val + ", observed " + ((StringValue) show(y)).val;
        }
        if (p instanceof StringValue) {
            String s = ((StringValue) p).val.toString();
            if (s.equals("*")) return "";
            if (!(o instanceof StringValue)) return path + ": expected \"" + s + "\", observed " + show1(o);
            String q = ((StringValue) o).val.toString();
            if (s.equals("!") ? !q.isEmpty() : s.equals(q)) return "";
            return path + ": expected \"" + s + "\", observed \"" + q + "\"";
        }
        if (p instanceof BoolValue) {
            if (o instanceof BoolValue && ((BoolValue) o).val == ((BoolValue) p).val) return "";
            return path + ": expected " + p + ", observed " + show1(o);
        }
        Value pt = null;
        if (!(p instanceof RecordValue)) pt = p.toTuple();
        if (pt != null) {
            Value ot = o instanceof RecordValue ? null : o.toTuple();
            if (ot == null) return path + ": expected a list, observed " + show1(o);
            Value[] a = ((TupleValue) pt).elems, c = ((TupleValue) ot).elems;
            if (a.length != c.length) return path + ": expected " + a.length + " elements, observed " + c.length;
            for (int i = 0; i < a.length; i++) {
                String d = diff(a[i], c[i], path + "[" + i + "]", tol);
                if (!d.isEmpty()) return d;
            }
            return "";
        }
        Value rv = p.toRcd();
        if (rv == null) return path + ": cannot compare " + show1(p);
        if (!(o instanceof RecordValue)) return path + ": expected a record, observed " + show1(o);
        RecordValue a = (RecordValue) rv, c = (RecordValue) o;
        Value e = field(a, "err"), f = field(c, "err");
        if (e != null && f != null) { // outcome of a call: errors first
            String d = diff(e, f, path + ".err", 0);
            if (!d.isEmpty()) return d;
        }
        for (int i = 0; i < a.names.length; i++) {
            String n = a.names[i].toString();
            if (judged != null && !judged.contains(n)) continue;
            Value v = field(c, n);
            if (v == null) {
                if (a.values[i] instanceof StringValue && ((StringValue) a.values[i]).val.toString().equals("*")) continue;
                return path + "." + n + ": missing";
            }
            int t = n.equals("logE") || n.equals("log10E") || n.equals("evidences") ? 1 : n.equals("local") ? 2 : tol;
            String d = diff(a.values[i], v, path + "." + n, t);
            if (!d.isEmpty()) return d;
        }
        return "";
    }
    static Value field(RecordValue r, String name) {
        for (int i = 0; i < r.names.length; i++) if (r.names[i].toString().equals(name)) return r.values[i];
        return null;
    }
    @TLAPlusOperator(identifier = "Diff", module = "Trace", warn = false)
    public static Value diffOp(Value p, Value o, Value fields) {
        java.util.Set<String> judged = new java.util.HashSet<>();
        for (Value f : seq(fields)) judged.add(((StringValue) f).val.toString());
        try { return new StringValue(diff(p, o, "out", 0, judged.isEmpty() ? null : judged)); }
        catch (RuntimeException e) { return new StringValue("out: cannot be compared (" + e.getClass().getSimpleName() + ")"); }
    }

    // ------------------------------------------------------------------------------- accelerated sequence operators
    @TLAPlusOperator(identifier = "RSum", module = "RealNumbers", warn = false)
    public static Value sum(Value s) {
        RealValue t = RealValue.of(0);
        for (Value v : seq(s)) t = t.add(r(v));
        return t;
    }
    @TLAPlusOperator(identifier = "RProd", module = "RealNumbers", warn = false)
    public static Value prod(Value s) {
        RealValue t = RealValue.of(1);
        for (Value v : seq(s)) t = t.mul(r(v));
        return t;
    }
    @TLAPlusOperator(identifier = "VMul", module = "RealNumbers", warn = false)
    public static Value vmul(Value a, Value c) {
        Value[] x = seq(a), y = seq(c);
        if (x.length != y.length) throw new RuntimeException("VMul: lengths differ");
        Value[] z = new Value[x.length];
        for (int i = 0; i < z.length; i++) z[i] = r(x[i]).mul(r(y[i]));
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VAdd", module = "RealNumbers", warn = false)
    public static Value vadd(Value a, Value c) {
        Value[] x = seq(a), y = seq(c);
        if (x.length != y.length) throw new RuntimeException("VAdd: lengths differ");
        Value[] z = new Value[x.length];
        for (int i = 0; i < z.length; i++) z[i] = r(x[i]).add(r(y[i]));
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VScale", module = "RealNumbers", warn = false)
    public static Value vscale(Value k, Value a) {
        Value[] x = seq(a);
        RealValue s = r(k);
        Value[] z = new Value[x.length];
        for (int i = 0; i < z.length; i++) z[i] = s.mul(r(x[i]));
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VDot", module = "RealNumbers", warn = false)
    public static Value vdot(Value a, Value c) {
        Value[] x = seq(a), y = seq(c);
        if (x.length != y.length) throw new RuntimeException("VDot: lengths differ");
        RealValue t = RealValue.of(0);
        for (int i = 0; i < x.length; i++) t = t.add(r(x[i]).mul(r(y[i])));
        return t;
    }
    @TLAPlusOperator(identifier = "VClose", module = "RealNumbers", warn = false)
    public static Value vclose(Value a, Value c, Value rtol, Value atol) {
        Value[] x = seq(a), y = seq(c);
        if (x.length != y.length) return BoolValue.ValFalse;
        RealValue p = r(rtol), q = r(atol);
        for (int i = 0; i < x.length; i++) if (!close(r(x[i]), r(y[i]), p, q)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    @TLAPlusOperator(identifier = "MatVec", module = "RealNumbers", warn = false)
    public static Value matvec(Value m, Value a) {
        Value[] rows = seq(m), x = seq(a);
        Value[] z = new Value[rows.length];
        for (int i = 0; i < z.length; i++) {
            Value[] row = seq(rows[i]);
            RealValue t = RealValue.of(0);
            for (int j = 0; j < x.length; j++) t = t.add(r(row[j]).mul(r(x[j])));
            z[i] = t;
        }
        return new TupleValue(z);
    }
    @TLAPlusOperator(identifier = "VR", module = "RealNumbers", warn = false)
    public static Value vr(Value a) {
        Value[] x = seq(a);
        Value[] z = new Value[x.length];
        for (int i = 0; i < z.length; i++) z[i] = r(x[i]);
        return new TupleValue(z);
    }
}
