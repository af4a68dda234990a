package kalmanspec;

import java.math.BigInteger;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** TLC evaluation of the operators of module BigRat (see spec/BigRat.tla). */
public final class Rat {
    private static RatValue r(Value v) {
        if (v instanceof RatValue) {
            return (RatValue) v;
        }
        if (v instanceof IntValue) {
            return RatValue.of(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        }
        if (v instanceof StringValue) {
            return parse(((StringValue) v).val.toString());
        }
        throw new RuntimeException("not a rational: " + v);
    }

    /** "m", "m/n" or "mpE" (m * 2^E); anything else (nan, inf) is not a number. */
    static RatValue parse(String s) {
        try {
            int p = s.indexOf('p');
            if (p >= 0) {
                BigInteger m = new BigInteger(s.substring(0, p));
                int e = Integer.parseInt(s.substring(p + 1));
                return e >= 0 ? RatValue.of(m.shiftLeft(e), BigInteger.ONE)
                              : RatValue.of(m, BigInteger.ONE.shiftLeft(-e));
            }
            int q = s.indexOf('/');
            if (q >= 0) {
                return RatValue.of(new BigInteger(s.substring(0, q)), new BigInteger(s.substring(q + 1)));
            }
            return RatValue.of(new BigInteger(s), BigInteger.ONE);
        } catch (NumberFormatException e) {
            return RatValue.NAN;
        }
    }

    @TLAPlusOperator(identifier = "Rat", module = "BigRat", warn = false)
    public static Value rat(Value a) {
        return r(a);
    }

    @TLAPlusOperator(identifier = "RatStr", module = "BigRat", warn = false)
    public static Value ratStr(Value a) {
        return new StringValue(r(a).str());
    }

    @TLAPlusOperator(identifier = "IsNum", module = "BigRat", warn = false)
    public static Value isNum(Value a) {
        return r(a).nan() ? BoolValue.ValFalse : BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "RatAdd", module = "BigRat", warn = false)
    public static Value add(Value a, Value b) {
        RatValue x = r(a), y = r(b);
        if (x.nan() || y.nan()) {
            return RatValue.NAN;
        }
        if (x.num.signum() == 0) {
            return y;
        }
        if (y.num.signum() == 0) {
            return x;
        }
        return RatValue.of(x.num.multiply(y.den).add(y.num.multiply(x.den)), x.den.multiply(y.den));
    }

    @TLAPlusOperator(identifier = "RatSub", module = "BigRat", warn = false)
    public static Value sub(Value a, Value b) {
        RatValue x = r(a), y = r(b);
        if (x.nan() || y.nan()) {
            return RatValue.NAN;
        }
        return RatValue.of(x.num.multiply(y.den).subtract(y.num.multiply(x.den)), x.den.multiply(y.den));
    }

    @TLAPlusOperator(identifier = "RatMul", module = "BigRat", warn = false)
    public static Value mul(Value a, Value b) {
        RatValue x = r(a), y = r(b);
        if (x.nan() || y.nan()) {
            return RatValue.NAN;
        }
        return RatValue.of(x.num.multiply(y.num), x.den.multiply(y.den));
    }

    @TLAPlusOperator(identifier = "RatInv", module = "BigRat", warn = false)
    public static Value inv(Value a) {
        RatValue x = r(a);
        return x.nan() ? RatValue.NAN : RatValue.of(x.den, x.num);
    }

    @TLAPlusOperator(identifier = "RatLeq", module = "BigRat", warn = false)
    public static Value leq(Value a, Value b) {
        RatValue x = r(a), y = r(b);
        if (x.nan() || y.nan()) {
            return BoolValue.ValFalse;
        }
        return x.num.multiply(y.den).compareTo(y.num.multiply(x.den)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RatEq", module = "BigRat", warn = false)
    public static Value eq(Value a, Value b) {
        RatValue x = r(a), y = r(b);
        return !x.nan() && !y.nan() && x.num.equals(y.num) && x.den.equals(y.den) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
