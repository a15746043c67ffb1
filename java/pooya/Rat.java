package pooya;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

// Exact rational numbers, written as strings "n" or "n/d" in lowest terms (module Rat).
public final class Rat {
    private static BigInteger[] q(final Value v) {
        if (v instanceof IntValue) return new BigInteger[] { BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE };
        final String[] p = ((StringValue) v).val.toString().split("/");
        return new BigInteger[] { new BigInteger(p[0]), p.length > 1 ? new BigInteger(p[1]) : BigInteger.ONE };
    }

    private static Value s(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return new StringValue("0/0");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        final BigInteger g = n.gcd(d);
        if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
        return new StringValue(d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d);
    }

    private static int cmp(final Value x, final Value y) {
        final BigInteger[] a = q(x), b = q(y);
        return a[0].multiply(b[1]).compareTo(b[0].multiply(a[1]));
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RatAdd", module = "Rat", warn = false)
    public static Value add(final Value x, final Value y) {
        final BigInteger[] a = q(x), c = q(y);
        return s(a[0].multiply(c[1]).add(c[0].multiply(a[1])), a[1].multiply(c[1]));
    }

    @TLAPlusOperator(identifier = "RatSub", module = "Rat", warn = false)
    public static Value sub(final Value x, final Value y) {
        final BigInteger[] a = q(x), c = q(y);
        return s(a[0].multiply(c[1]).subtract(c[0].multiply(a[1])), a[1].multiply(c[1]));
    }

    @TLAPlusOperator(identifier = "RatMul", module = "Rat", warn = false)
    public static Value mul(final Value x, final Value y) {
        final BigInteger[] a = q(x), c = q(y);
        return s(a[0].multiply(c[0]), a[1].multiply(c[1]));
    }

    @TLAPlusOperator(identifier = "RatDiv", module = "Rat", warn = false)
    public static Value div(final Value x, final Value y) {
        final BigInteger[] a = q(x), c = q(y);
        return s(a[0].multiply(c[1]), a[1].multiply(c[0]));
    }

    @TLAPlusOperator(identifier = "RatFloor", module = "Rat", warn = false)
    public static Value floor(final Value x) {
        final BigInteger[] a = q(x);
        final BigInteger[] r = a[0].divideAndRemainder(a[1]);
        return s(r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0], BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RatOf", module = "Rat", warn = false)
    public static Value of(final Value x) { final BigInteger[] a = q(x); return s(a[0], a[1]); }

    @TLAPlusOperator(identifier = "RatLt", module = "Rat", warn = false)
    public static Value lt(final Value x, final Value y) { return b(cmp(x, y) < 0); }

    @TLAPlusOperator(identifier = "RatLe", module = "Rat", warn = false)
    public static Value le(final Value x, final Value y) { return b(cmp(x, y) <= 0); }

    @TLAPlusOperator(identifier = "RatEq", module = "Rat", warn = false)
    public static Value eq(final Value x, final Value y) { return b(cmp(x, y) == 0); }
}
