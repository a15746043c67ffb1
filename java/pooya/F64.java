package pooya;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

// IEEE-754 binary64 numbers, written as decimal strings in the specification (module F64).
public final class F64 {
    private static double d(final Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        return Double.parseDouble(((StringValue) v).val.toString());
    }

    private static Value s(final double x) {
        return new StringValue(Double.toString(x));
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "F64Add", module = "F64", warn = false)
    public static Value add(final Value x, final Value y) { return s(d(x) + d(y)); }

    @TLAPlusOperator(identifier = "F64Sub", module = "F64", warn = false)
    public static Value sub(final Value x, final Value y) { return s(d(x) - d(y)); }

    @TLAPlusOperator(identifier = "F64Mul", module = "F64", warn = false)
    public static Value mul(final Value x, final Value y) { return s(d(x) * d(y)); }

    @TLAPlusOperator(identifier = "F64Div", module = "F64", warn = false)
    public static Value div(final Value x, final Value y) { return s(d(x) / d(y)); }

    @TLAPlusOperator(identifier = "F64Floor", module = "F64", warn = false)
    public static Value floor(final Value x) { return s(Math.floor(d(x))); }

    @TLAPlusOperator(identifier = "F64Of", module = "F64", warn = false)
    public static Value of(final Value x) { return s(d(x)); }

    @TLAPlusOperator(identifier = "F64Lt", module = "F64", warn = false)
    public static Value lt(final Value x, final Value y) { return b(d(x) < d(y)); }

    @TLAPlusOperator(identifier = "F64Le", module = "F64", warn = false)
    public static Value le(final Value x, final Value y) { return b(d(x) <= d(y)); }

    @TLAPlusOperator(identifier = "F64Eq", module = "F64", warn = false)
    public static Value eq(final Value x, final Value y) { return b(same(d(x), d(y))); }

    // equal up to rounding: the allowance is far above the rounding of a few operations and far below any
    // difference the generated scenarios produce when a formula is wrong
    @TLAPlusOperator(identifier = "F64Close", module = "F64", warn = false)
    public static Value close(final Value x, final Value y) {
        return b(close(d(x), d(y), 1e-9));
    }

    @TLAPlusOperator(identifier = "F64CloseTo", module = "F64", warn = false)
    public static Value closeTo(final Value x, final Value y, final Value tol) {
        return b(close(d(x), d(y), d(tol)));
    }

    @TLAPlusOperator(identifier = "F64CloseBy", module = "F64", warn = false)
    public static Value closeBy(final Value x, final Value y, final Value z) {
        return b(Math.abs(d(x) - d(y)) <= 1e-12 * Math.abs(d(z)));
    }

    // the rounding of a short sum whose terms are together as large as z
    @TLAPlusOperator(identifier = "F64SumOf", module = "F64", warn = false)
    public static Value sumOf(final Value x, final Value y, final Value z) {
        final double a = d(x), c = d(y), s = Math.abs(d(z));
        return b(same(a, c) || Double.isNaN(s) || Double.isInfinite(s) || Math.abs(a - c) <= 4e-15 * s + 1e-300);
    }

    @TLAPlusOperator(identifier = "F64Finite", module = "F64", warn = false)
    public static Value finite(final Value x) {
        return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x)));
    }

    private static boolean same(final double x, final double y) {
        return x == y || (Double.isNaN(x) && Double.isNaN(y));
    }

    private static boolean close(final double x, final double y, final double tol) {
        if (same(x, y)) return true;
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
        return Math.abs(x - y) <= tol * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
    }
}
