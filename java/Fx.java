import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;

/** Java versions of the operators of spec/Fx.tla (same results, checked by MC_Fx.tla). */
public class Fx {
    private static final BigInteger SC = BigInteger.TEN.pow(16);
    private static final BigInteger B = BigInteger.valueOf(10000);
    private static final int SLOT = 0;

    private static Value[] elems(final Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        final TupleValue t = (TupleValue) v.toTuple();
        return t.elems;
    }

    static BigInteger dec(final Value v) {
        final Value[] e = elems(v);
        final int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        BigInteger r = BigInteger.ZERO;
        int i = e.length - 1;
        // four limbs (10^16) at a time
        while (i >= 1) {
            long chunk = 0, mult = 1;
            int n = (i % 4 == 0) ? 4 : i % 4;
            for (int k = 0; k < n; k++) { chunk = chunk * 10000 + ((IntValue) e[i - k]).val; mult *= 10000; }
            r = r.signum() == 0 ? BigInteger.valueOf(chunk) : r.multiply(BigInteger.valueOf(mult)).add(BigInteger.valueOf(chunk));
            i -= n;
        }
        return s < 0 ? r.negate() : r;
    }

    private static final IntValue[] INTS = new IntValue[10000];
    static { for (int i = 0; i < 10000; i++) INTS[i] = IntValue.gen(i); }
    private static final TupleValue ZERO = new TupleValue(new Value[] {IntValue.gen(0)});
    private static final BigInteger LMAX = BigInteger.valueOf(Long.MAX_VALUE);

    static Value enc(final BigInteger x) {
        final int s = x.signum();
        if (s == 0) return ZERO;
        BigInteger m = x.abs();
        final Value[] tmp = new Value[2 + m.bitLength() / 13];
        int n = 1;
        while (m.bitLength() > 62) {
            final BigInteger[] qr = m.divideAndRemainder(SC);
            long c = qr[1].longValue();
            for (int k = 0; k < 4; k++) { tmp[n++] = INTS[(int) (c % 10000)]; c /= 10000; }
            m = qr[0];
        }
        long c = m.longValue();
        while (c != 0) { tmp[n++] = INTS[(int) (c % 10000)]; c /= 10000; }
        tmp[0] = IntValue.gen(s);
        return new TupleValue(java.util.Arrays.copyOf(tmp, n));
    }

    private static BigInteger down(final BigInteger x) { return x.divide(SC); } // truncates towards zero

    public static Value FAdd(final Value x, final Value y) { return enc(dec(x).add(dec(y))); }
    public static Value FSub(final Value x, final Value y) { return enc(dec(x).subtract(dec(y))); }
    public static Value FNeg(final Value x) { return enc(dec(x).negate()); }
    public static Value FAbs(final Value x) { return enc(dec(x).abs()); }
    public static Value FMul(final Value x, final Value y) { return enc(down(dec(x).multiply(dec(y)))); }
    public static Value FDiv(final Value x, final Value y) { return enc(dec(x).multiply(SC).divide(dec(y))); }
    public static Value FSqrt(final Value x) { return enc(dec(x).multiply(SC).sqrt()); }
    public static Value FLe(final Value x, final Value y) {
        return dec(x).compareTo(dec(y)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value FDot(final Value u, final Value v) {
        final Value[] a = elems(u), b = elems(v);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) s = s.add(dec(a[i]).multiply(dec(b[i])));
        return enc(down(s));
    }
    public static Value FSum(final Value u) {
        BigInteger s = BigInteger.ZERO;
        for (final Value e : elems(u)) s = s.add(dec(e));
        return enc(s);
    }
    public static Value FHad(final Value u, final Value v) {
        final Value[] a = elems(u), b = elems(v), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = enc(down(dec(a[i]).multiply(dec(b[i]))));
        return new TupleValue(r);
    }
    public static Value FVAdd(final Value u, final Value v) {
        final Value[] a = elems(u), b = elems(v), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = enc(dec(a[i]).add(dec(b[i])));
        return new TupleValue(r);
    }
    public static Value FVSub(final Value u, final Value v) {
        final Value[] a = elems(u), b = elems(v), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = enc(dec(a[i]).subtract(dec(b[i])));
        return new TupleValue(r);
    }
    public static Value FVScale(final Value c, final Value u) {
        final BigInteger k = dec(c);
        final Value[] a = elems(u), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = enc(down(k.multiply(dec(a[i]))));
        return new TupleValue(r);
    }
    public static Value FMaxAbs(final Value u) {
        BigInteger s = BigInteger.ZERO;
        for (final Value e : elems(u)) s = s.max(dec(e).abs());
        return enc(s);
    }
    public static Value FInt(final Value n) { return enc(BigInteger.valueOf(((IntValue) n).val).multiply(SC)); }

    /** The identity; turns lazily evaluated functions into tuples, all the way down. */
    public static Value FForce(final Value v) {
        if (v instanceof RecordValue) {
            final RecordValue r = (RecordValue) v;
            final Value[] out = new Value[r.values.length];
            for (int i = 0; i < out.length; i++) out[i] = FForce(r.values[i]);
            return new RecordValue(r.names, out, r.isNormalized());
        }
        if (v instanceof TupleValue || v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
            final TupleValue t = (TupleValue) v.toTuple();
            if (t == null) return v;
            final Value[] e = t.elems;
            if (e.length == 0 || e[0] instanceof IntValue) return t;
            final Value[] out = new Value[e.length];
            for (int i = 0; i < e.length; i++) out[i] = FForce(e[i]);
            return new TupleValue(out);
        }
        return v;
    }
}
