package kalmanspec;

import java.math.BigInteger;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import tlc2.util.FP64;

/** An exact rational number as a TLC value; NaN is represented by den = 0. */
public final class RatValue extends Value {
    public static final RatValue NAN = new RatValue(BigInteger.ZERO, BigInteger.ZERO, true);
    public static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE, true);
    public static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE, true);

    final BigInteger num;
    final BigInteger den;

    private RatValue(BigInteger n, BigInteger d, boolean raw) {
        num = n;
        den = d;
    }

    public static RatValue of(BigInteger n, BigInteger d) {
        if (d.signum() == 0) {
            return NAN;
        }
        if (n.signum() == 0) {
            return ZERO;
        }
        if (d.signum() < 0) {
            n = n.negate();
            d = d.negate();
        }
        // powers of two are by far the most common factor
        int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (tz > 0) {
            n = n.shiftRight(tz);
            d = d.shiftRight(tz);
        }
        if (d.bitLength() > 1 && d.bitLength() != d.getLowestSetBit() + 1) {
            BigInteger g = n.gcd(d);
            if (g.bitLength() > 1) {
                n = n.divide(g);
                d = d.divide(g);
            }
        }
        return new RatValue(n, d, true);
    }

    boolean nan() {
        return den.signum() == 0;
    }

    @Override
    public byte getKind() {
        return USERVALUE;
    }

    @Override
    public int compareTo(Object o) {
        if (o instanceof RatValue) {
            RatValue r = (RatValue) o;
            return num.multiply(r.den).compareTo(r.num.multiply(den));
        }
        throw new RuntimeException("Attempted to compare a rational with " + o);
    }

    @Override
    public boolean equals(Object o) {
        if (o instanceof RatValue) {
            RatValue r = (RatValue) o;
            return num.equals(r.num) && den.equals(r.den);
        }
        throw new RuntimeException("Attempted to test a rational for equality with " + o);
    }

    @Override
    public boolean member(Value v) {
        throw new RuntimeException("a rational is not a set");
    }

    @Override
    public boolean isFinite() {
        return true;
    }

    @Override
    public Value takeExcept(ValueExcept ex) {
        return ex.value;
    }

    @Override
    public Value takeExcept(ValueExcept[] exs) {
        throw new RuntimeException("EXCEPT applied to a rational");
    }

    @Override
    public int size() {
        return 1;
    }

    @Override
    public boolean mutates() {
        return false;
    }

    @Override
    public boolean isNormalized() {
        return true;
    }

    @Override
    public Value normalize() {
        return this;
    }

    @Override
    public boolean isDefined() {
        return true;
    }

    @Override
    public IValue deepCopy() {
        return this;
    }

    @Override
    public void write(IValueOutputStream out) {
        // a state that was stored holds the notation instead (see Rat.of), with the same fingerprint
        try {
            new StringValue(str()).write(out);
        } catch (java.io.IOException e) {
            throw new RuntimeException(e);
        }
    }

    @Override
    public long fingerPrint(long fp) {
        String s = str();
        return FP64.Extend(FP64.Extend(FP64.Extend(fp, STRINGVALUE), s.length()), s);
    }

    @Override
    public IValue permute(IMVPerm p) {
        return this;
    }

    public String str() {
        return nan() ? "nan" : den.equals(BigInteger.ONE) ? num.toString() : num + "/" + den;
    }

    @Override
    public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
        return sb.append(str());
    }
}
