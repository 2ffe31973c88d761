import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC override of the operators of module Exact. */
public class Exact {
    private static BigInteger[] parse(Value v) {
        String s = ((StringValue) v).getVal().toString();
        int i = s.indexOf('/');
        if (i < 0) return new BigInteger[] {new BigInteger(s), BigInteger.ONE};
        return new BigInteger[] {new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1))};
    }

    private static Value make(BigInteger n, BigInteger d) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        return new StringValue(d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d);
    }

    public static Value RInt(Value i) { return new StringValue(Integer.toString(((IntValue) i).val)); }

    public static Value RAdd(Value a, Value b) {
        BigInteger[] x = parse(a), y = parse(b);
        return make(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }

    public static Value RSub(Value a, Value b) {
        BigInteger[] x = parse(a), y = parse(b);
        return make(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }

    public static Value RMul(Value a, Value b) {
        BigInteger[] x = parse(a), y = parse(b);
        return make(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }

    public static Value RDiv(Value a, Value b) {
        BigInteger[] x = parse(a), y = parse(b);
        if (y[0].signum() == 0) throw new ArithmeticException("RDiv by zero");
        return make(x[0].multiply(y[1]), x[1].multiply(y[0]));
    }

    public static Value RAbs(Value a) { BigInteger[] x = parse(a); return make(x[0].abs(), x[1]); }

    private static int cmp(Value a, Value b) {
        BigInteger[] x = parse(a), y = parse(b);
        return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
    }

    public static Value RLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value REq(Value a, Value b) { return cmp(a, b) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RPow2(Value i) {
        int k = ((IntValue) i).val;
        return k >= 0 ? make(BigInteger.ONE.shiftLeft(k), BigInteger.ONE) : make(BigInteger.ONE, BigInteger.ONE.shiftLeft(-k));
    }
}
