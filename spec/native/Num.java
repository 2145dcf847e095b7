import tlc2.value.impl.*;
import java.math.BigInteger;

/* Evaluates the operators of Num.tla natively (same results; checked against the definitions by NumTest). */
public class Num {
  static final BigInteger LIMB = BigInteger.valueOf(4095);
  static int i(Value v) { return ((IntValue) v).val; }
  static Value[] t(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static BigInteger n(Value v) {            /* little-endian base-4096 limbs */
    Value[] e = t(v);
    if (e.length <= 5) { long r = 0; for (int k = e.length - 1; k >= 0; k--) r = (r << 12) | i(e[k]); return BigInteger.valueOf(r); }
    byte[] b = new byte[(e.length * 12 + 7) / 8 + 1];
    for (int k = 0; k < e.length; k++) {
      int x = i(e[k]), bit = k * 12, at = b.length - 1 - bit / 8;
      if (bit % 8 == 0) { b[at] |= x & 255; b[at - 1] |= x >> 8; } else { b[at] |= (x & 15) << 4; b[at - 1] |= x >> 4; }
    }
    return new BigInteger(b);
  }
  static Value limbs(BigInteger m) {
    int len = (m.bitLength() + 11) / 12;
    Value[] e = new Value[len];
    if (len <= 5) { long x = m.longValue(); for (int k = 0; k < len; k++) { e[k] = IntValue.gen((int) (x & 4095)); x >>= 12; } }
    else { byte[] b = m.toByteArray();
      for (int k = 0; k < len; k++) { int bit = k * 12, at = b.length - 1 - bit / 8;
        int lo = b[at] & 255, hi = at > 0 ? b[at - 1] & 255 : 0;
        e[k] = IntValue.gen(bit % 8 == 0 ? lo | (hi & 15) << 8 : lo >> 4 | hi << 4); } }
    return new TupleValue(e);
  }
  static Value d(int s, BigInteger m, int e) { return new TupleValue(new Value[] { IntValue.gen(s), limbs(m), IntValue.gen(e) }); }
  static final Value D0 = d(0, BigInteger.ZERO, 0);
  static final Value[] CMP = { IntValue.gen(-1), IntValue.gen(0), IntValue.gen(1) };

  public static Value DAdd(Value x, Value y) {
    Value[] a = t(x), b = t(y);
    int s = i(a[0]), u = i(b[0]);
    if (s == 0) return y;
    if (u == 0) return x;
    int e = i(a[2]), f = i(b[2]), g = Math.min(e, f);
    BigInteger p = n(a[1]).shiftLeft(e - g), q = n(b[1]).shiftLeft(f - g);
    if (s == u) return d(s, p.add(q), g);
    int c = p.compareTo(q);
    return c == 0 ? D0 : c > 0 ? d(s, p.subtract(q), g) : d(u, q.subtract(p), g);
  }
  public static Value DMul(Value x, Value y) {
    Value[] a = t(x), b = t(y);
    int s = i(a[0]) * i(b[0]);
    return s == 0 ? D0 : d(s, n(a[1]).multiply(n(b[1])), i(a[2]) + i(b[2]));
  }
  public static Value DCmp(Value x, Value y) {
    Value[] a = t(x), b = t(y);
    int s = i(a[0]), u = i(b[0]);
    if (s != u) return CMP[s < u ? 0 : 2];
    if (s == 0) return CMP[1];
    int e = i(a[2]), f = i(b[2]), g = Math.min(e, f);
    return CMP[s * n(a[1]).shiftLeft(e - g).compareTo(n(b[1]).shiftLeft(f - g)) + 1];
  }
  public static Value DFloor(Value x) {
    Value[] a = t(x);
    int s = i(a[0]), e = i(a[2]);
    if (s == 0 || e >= 0) return x;
    BigInteger m = n(a[1]), q = m.shiftRight(-e);
    if (s < 0 && m.getLowestSetBit() < -e) return d(-1, q.add(BigInteger.ONE), 0);
    return q.signum() == 0 ? D0 : d(s, q, 0);
  }
}
