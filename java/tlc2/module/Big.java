package tlc2.module;
// Evaluation of the operators of spec/Big.tla: integers without size limit, written as decimal strings
// (TLC's own integers have 32 bits). Arguments may be TLC integers or decimal strings.
import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

public class Big {
    static BigInteger b(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        throw new RuntimeException("Attempted to use as a number: " + v);
    }
    static Value s(BigInteger x) { return new StringValue(x.toString()); }
    static Value bool(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
    static BigInteger floorDiv(BigInteger a, BigInteger m) { BigInteger[] q = a.divideAndRemainder(m); return (q[1].signum() != 0 && (q[1].signum() != m.signum())) ? q[0].subtract(BigInteger.ONE) : q[0]; }
    public static Value BAdd(Value x, Value y) { return s(b(x).add(b(y))); }
    public static Value BSub(Value x, Value y) { return s(b(x).subtract(b(y))); }
    public static Value BMul(Value x, Value y) { return s(b(x).multiply(b(y))); }
    public static Value BNeg(Value x) { return s(b(x).negate()); }
    public static Value BAbs(Value x) { return s(b(x).abs()); }
    public static Value BDiv(Value x, Value y) { return s(floorDiv(b(x), b(y))); }
    public static Value BMod(Value x, Value y) { BigInteger m = b(y); return s(b(x).subtract(floorDiv(b(x), m).multiply(m))); }
    public static Value BQuo(Value x, Value y) { return s(b(x).divide(b(y))); }
    public static Value BRem(Value x, Value y) { return s(b(x).remainder(b(y))); }
    public static Value BPow(Value x, Value n) { return s(b(x).pow(b(n).intValueExact())); }
    public static Value BPowMod(Value x, Value e, Value m) { return s(b(x).modPow(b(e), b(m))); }
    public static Value BGcd(Value x, Value y) { return s(b(x).gcd(b(y))); }
    public static Value BSqrt(Value x) { return s(b(x).sqrt()); }
    public static Value BXor(Value x, Value y) { return s(b(x).xor(b(y))); }
    public static Value BAnd(Value x, Value y) { return s(b(x).and(b(y))); }
    public static Value BOr(Value x, Value y) { return s(b(x).or(b(y))); }
    public static Value BShl(Value x, Value n) { return s(b(x).shiftLeft(b(n).intValueExact())); }
    public static Value BShr(Value x, Value n) { return s(b(x).shiftRight(b(n).intValueExact())); }
    public static Value BBits(Value x) { return IntValue.gen(b(x).bitLength()); }
    public static Value BPopcount(Value x) { return IntValue.gen(b(x).bitCount()); }
    public static Value BBit(Value x, Value i) { return IntValue.gen(b(x).testBit(b(i).intValueExact()) ? 1 : 0); }
    public static Value BLt(Value x, Value y) { return bool(b(x).compareTo(b(y)) < 0); }
    public static Value BLe(Value x, Value y) { return bool(b(x).compareTo(b(y)) <= 0); }
    public static Value BEq(Value x, Value y) { return bool(b(x).equals(b(y))); }
    public static Value BInt(Value x) { return IntValue.gen(b(x).intValueExact()); }
    public static Value BStr(Value x) { return s(b(x)); }
    public static Value BIsPrime(Value x) { BigInteger a = b(x); return bool(a.signum() > 0 && a.isProbablePrime(60)); }
    public static Value BSum(Value q) { BigInteger r = BigInteger.ZERO; for (Value v : elems(q)) r = r.add(b(v)); return s(r); }
    public static Value BProd(Value q) { BigInteger r = BigInteger.ONE; for (Value v : elems(q)) r = r.multiply(b(v)); return s(r); }
    public static Value BDot(Value p, Value q) { BigInteger r = BigInteger.ZERO; Value[] a = elems(p), c = elems(q); for (int i = 0; i < a.length; ++i) r = r.add(b(a[i]).multiply(b(c[i]))); return s(r); }
    public static Value BMin(Value x, Value y) { return b(x).compareTo(b(y)) <= 0 ? s(b(x)) : s(b(y)); }
    public static Value BMax(Value x, Value y) { return b(x).compareTo(b(y)) >= 0 ? s(b(x)) : s(b(y)); }
    public static Value BPrimesIn(Value x, Value n) { java.util.ArrayList<Value> r = new java.util.ArrayList<>(); BigInteger a = b(x); int m = b(n).intValueExact(); for (int k = 0; k < m; ++k) { BigInteger c = a.add(BigInteger.valueOf(k)); if (c.signum() > 0 && c.isProbablePrime(60)) r.add(IntValue.gen(k)); } return new TupleValue(r.toArray(new Value[0])); }
    public static Value BModInv(Value x, Value m) { return s(b(m).equals(BigInteger.ONE) ? BigInteger.ZERO : b(x).modInverse(b(m))); }
    public static Value BPhi(Value x) { long n = b(x).longValueExact(), r = n; for (long p = 2; p * p <= n; ++p) if (n % p == 0) { while (n % p == 0) n /= p; r -= r / p; } if (n > 1) r -= r / n; return s(BigInteger.valueOf(r)); }
    public static Value BLcm(Value x, Value y) { BigInteger p = b(x), q = b(y); return s(p.signum() == 0 || q.signum() == 0 ? BigInteger.ZERO : p.divide(p.gcd(q)).multiply(q).abs()); }
    // the characters of a string as a sequence of character codes
    public static Value Codes(Value x) { String t = ((StringValue) x).val.toString(); Value[] r = new Value[t.length()]; for (int i = 0; i < r.length; ++i) r[i] = IntValue.gen(t.charAt(i)); return new TupleValue(r); }
}
