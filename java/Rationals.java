import java.math.BigInteger;
import java.util.HashMap;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** BigInteger implementation of spec/Rationals.tla, loaded by TLC by name. */
public class Rationals {
    private static final BigInteger ZERO = BigInteger.ZERO;
    private static final BigInteger ONE = BigInteger.ONE;
    private static final BigInteger LO = BigInteger.valueOf(Integer.MIN_VALUE + 1L);
    private static final BigInteger HI = BigInteger.valueOf(Integer.MAX_VALUE);

    private static BigInteger big(final Value v) {
        if (v instanceof IntValue) {
            return BigInteger.valueOf(((IntValue) v).val);
        }
        return new BigInteger(((StringValue) v).val.toString());
    }

    private static Value num(final BigInteger b) {
        if (b.compareTo(LO) >= 0 && b.compareTo(HI) <= 0) {
            return IntValue.gen(b.intValue());
        }
        return new StringValue(b.toString());
    }

    private static final class R {
        final BigInteger n, d;
        R(final BigInteger n, final BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
    }

    private static final R NAN = new R(ZERO, ZERO);

    private static R mk(final BigInteger n, final BigInteger d) {
        if (d.signum() == 0) {
            return new R(BigInteger.valueOf(n.signum()), ZERO);
        }
        BigInteger g = n.gcd(d);
        if (d.signum() < 0) {
            g = g.negate();
        }
        return new R(n.divide(g), d.divide(g));
    }

    private static TupleValue seq(final Value v) {
        if (v instanceof TupleValue) {
            return (TupleValue) v;
        }
        final Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("Rationals: not a sequence: " + v);
        }
        return (TupleValue) t;
    }

    private static R r(final Value v) {
        final TupleValue t = seq(v);
        if (t.elems.length != 2) {
            throw new RuntimeException("Rationals: not a rational: " + v);
        }
        return new R(big(t.elems[0]), big(t.elems[1]));
    }

    private static Value v(final R a) {
        return new TupleValue(new Value[] { num(a.n), num(a.d) });
    }

    private static Value bool(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static R add(final R a, final R b) {
        if (!a.fin() || !b.fin()) return NAN;
        if (a.d.equals(ONE) && b.d.equals(ONE)) return new R(a.n.add(b.n), ONE);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    private static R neg(final R a) { return a.fin() ? new R(a.n.negate(), a.d) : NAN; }
    private static R mul(final R a, final R b) {
        return a.fin() && b.fin() ? mk(a.n.multiply(b.n), a.d.multiply(b.d)) : NAN;
    }
    private static R abs(final R a) { return a.fin() ? new R(a.n.abs(), a.d) : NAN; }
    /** Only for finite arguments. */
    private static int cmp(final R a, final R b) {
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    private static R max(final R a, final R b) {
        if (!a.fin() || !b.fin()) return NAN;
        return cmp(a, b) <= 0 ? b : a;
    }
    private static BigInteger floor(final R a) {
        final BigInteger[] qr = a.n.divideAndRemainder(a.d);
        return qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    }

    public static Value QMk(final Value n, final Value d) { return v(mk(big(n), big(d))); }
    public static Value QFin(final Value a) { return bool(r(a).fin()); }
    public static Value QAdd(final Value a, final Value b) { return v(add(r(a), r(b))); }
    public static Value QNeg(final Value a) { return v(neg(r(a))); }
    public static Value QSub(final Value a, final Value b) { return v(add(r(a), neg(r(b)))); }
    public static Value QMul(final Value a, final Value b) { return v(mul(r(a), r(b))); }
    public static Value QDiv(final Value a, final Value b) {
        final R x = r(a), y = r(b);
        return v(x.fin() && y.fin() && y.n.signum() != 0
            ? mk(x.n.multiply(y.d), x.d.multiply(y.n)) : NAN);
    }
    public static Value QAbs(final Value a) { return v(abs(r(a))); }
    public static Value QSgn(final Value a) {
        final R x = r(a);
        return IntValue.gen(x.fin() ? x.n.signum() : 0);
    }
    public static Value QLt(final Value a, final Value b) {
        final R x = r(a), y = r(b);
        return bool(x.fin() && y.fin() && cmp(x, y) < 0);
    }
    public static Value QLe(final Value a, final Value b) {
        final R x = r(a), y = r(b);
        return bool(x.fin() && y.fin() && cmp(x, y) <= 0);
    }
    public static Value QEq(final Value a, final Value b) {
        final R x = r(a), y = r(b);
        return bool(x.fin() && y.fin() && cmp(x, y) == 0);
    }
    public static Value QFloor(final Value a) {
        final R x = r(a);
        return v(x.fin() ? new R(floor(x), ONE) : NAN);
    }
    public static Value QCeil(final Value a) {
        final R x = r(a);
        return v(x.fin() ? new R(floor(neg(x)).negate(), ONE) : NAN);
    }
    public static Value QMax(final Value a, final Value b) { return v(max(r(a), r(b))); }
    public static Value QMin(final Value a, final Value b) {
        final R x = r(a), y = r(b);
        return v(x.fin() && y.fin() ? (cmp(x, y) <= 0 ? x : y) : NAN);
    }
    public static Value QSum(final Value s) {
        R acc = new R(ZERO, ONE);
        for (final Value e : seq(s).elems) acc = add(acc, r(e));
        return v(acc);
    }
    public static Value QDot(final Value s, final Value t) {
        final Value[] x = seq(s).elems, y = seq(t).elems;
        if (x.length != y.length) {
            throw new RuntimeException("QDot: lengths " + x.length + " and " + y.length);
        }
        R acc = new R(ZERO, ONE);
        for (int i = 0; i < x.length; i++) acc = add(acc, mul(r(x[i]), r(y[i])));
        return v(acc);
    }
    public static Value QMaxAbs(final Value s) {
        R acc = new R(ZERO, ONE);
        for (final Value e : seq(s).elems) acc = max(abs(r(e)), acc);
        return v(acc);
    }
}
