// TLC module override for spec/Big.tla: arbitrary precision integers (lower-case hex strings,
// optional leading '-'), byte strings (even-length lower-case hex) and SHA-256.
import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.value.IBoolValue;
import tlc2.value.impl.*;

public class Big {
  static BigInteger n(Value v) { return new BigInteger(((StringValue) v).val.toString(), 16); }
  static StringValue s(BigInteger b) { return new StringValue(b.toString(16)); }
  static BoolValue bo(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int in(Value v) { return ((IntValue) v).val; }
  static String str(Value v) { return ((StringValue) v).val.toString(); }

  static BigInteger fdiv(BigInteger a, BigInteger b) {
    BigInteger[] qr = a.divideAndRemainder(b);
    return (qr[1].signum() != 0 && (qr[1].signum() != b.signum())) ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  static byte[] bytes(String h) {
    byte[] r = new byte[h.length() / 2];
    for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
    return r;
  }
  static String hex(byte[] b) {
    StringBuilder sb = new StringBuilder(b.length * 2);
    for (byte x : b) { sb.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16)); }
    return sb.toString();
  }
  static byte[] be(BigInteger v, int len) {           // unsigned, len bytes, truncating high part
    byte[] r = new byte[len]; byte[] m = v.toByteArray();
    for (int i = 0; i < len && i < m.length; i++) r[len - 1 - i] = m[m.length - 1 - i];
    return r;
  }
  static byte[] rev(byte[] a) { byte[] r = new byte[a.length]; for (int i = 0; i < a.length; i++) r[i] = a[a.length - 1 - i]; return r; }

  public static Value BInt(final Value i) { return s(BigInteger.valueOf(in(i))); }
  public static Value BToInt(final Value a) { return IntValue.gen(n(a).intValueExact()); }
  public static Value BAdd(final Value a, final Value b) { return s(n(a).add(n(b))); }
  public static Value BSub(final Value a, final Value b) { return s(n(a).subtract(n(b))); }
  public static Value BMul(final Value a, final Value b) { return s(n(a).multiply(n(b))); }
  public static Value BNeg(final Value a) { return s(n(a).negate()); }
  public static Value BAbs(final Value a) { return s(n(a).abs()); }
  public static Value BDiv(final Value a, final Value b) { return s(fdiv(n(a), n(b))); }
  public static Value BMod(final Value a, final Value b) { return s(n(a).mod(n(b).abs())); }
  public static Value BLt(final Value a, final Value b) { return bo(n(a).compareTo(n(b)) < 0); }
  public static Value BLe(final Value a, final Value b) { return bo(n(a).compareTo(n(b)) <= 0); }
  public static Value BSign(final Value a) { return IntValue.gen(n(a).signum()); }
  public static Value BBits(final Value a) { return IntValue.gen(n(a).abs().bitLength()); }
  public static Value BBit(final Value a, final Value i) { return IntValue.gen(n(a).testBit(in(i)) ? 1 : 0); }
  public static Value BSetBit(final Value a, final Value i) { return s(n(a).setBit(in(i))); }
  public static Value BShl(final Value a, final Value i) { return s(n(a).shiftLeft(in(i))); }
  public static Value BShr(final Value a, final Value i) { return s(n(a).shiftRight(in(i))); }
  public static Value BPowMod(final Value a, final Value e, final Value m) { return s(n(a).modPow(n(e), n(m))); }
  public static Value BProbPrime(final Value a) { BigInteger v = n(a); return bo(v.signum() > 0 && v.isProbablePrime(60)); }
  public static Value BIsqrt(final Value a) { return s(n(a).sqrt()); }
  public static Value BGcd(final Value a, final Value b) { return s(n(a).gcd(n(b))); }
  // <<g,u,v>> with u*a + v*b = g = gcd(a,b) >= 0
  static BigInteger[] ext(BigInteger a, BigInteger b) {
    BigInteger r0 = a, r1 = b, u0 = BigInteger.ONE, u1 = BigInteger.ZERO, v0 = BigInteger.ZERO, v1 = BigInteger.ONE;
    while (r1.signum() != 0) {
      BigInteger[] qr = r0.divideAndRemainder(r1);
      BigInteger t = u0.subtract(qr[0].multiply(u1)); u0 = u1; u1 = t;
      t = v0.subtract(qr[0].multiply(v1)); v0 = v1; v1 = t;
      r0 = r1; r1 = qr[1];
    }
    if (r0.signum() < 0) { r0 = r0.negate(); u0 = u0.negate(); v0 = v0.negate(); }
    return new BigInteger[] { r0, u0, v0 };
  }
  public static Value BExt(final Value a, final Value b) {
    BigInteger[] r = ext(n(a), n(b));
    return new TupleValue(new Value[] { s(r[0]), s(r[1]), s(r[2]) });
  }
  // byte strings
  public static Value HLen(final Value h) { return IntValue.gen(str(h).length() / 2); }
  public static Value HSub(final Value h, final Value from, final Value len) {
    int f = in(from), l = in(len); return new StringValue(str(h).substring(2 * f, 2 * (f + l)));
  }
  public static Value HCat(final Value a, final Value b) { return new StringValue(str(a) + str(b)); }
  public static Value HByte(final Value h, final Value i) {
    int f = in(i); return IntValue.gen(Integer.parseInt(str(h).substring(2 * f, 2 * f + 2), 16));
  }
  public static Value HZeros(final Value n) { return new StringValue("00".repeat(in(n))); }
  public static Value HOfByte(final Value b) { return new StringValue(hex(new byte[] { (byte) in(b) })); }
  public static Value HSha256(final Value h) throws Exception {
    return new StringValue(hex(MessageDigest.getInstance("SHA-256").digest(bytes(str(h)))));
  }
  public static Value BOfBE(final Value h) { String t = str(h); return s(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, 16)); }
  public static Value BOfLE(final Value h) { return s(new BigInteger(1, rev(bytes(str(h))))); }
  public static Value BToBE(final Value a, final Value len) { return new StringValue(hex(be(n(a), in(len)))); }
  public static Value BToLE(final Value a, final Value len) { return new StringValue(hex(rev(be(n(a), in(len))))); }
  public static Value BOfDec(final Value d) { return s(new BigInteger(str(d), 10)); }
  static final java.util.concurrent.ConcurrentHashMap<String, Value> memo = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value MemoHas(final Value k) { return bo(memo.containsKey(str(k))); }
  public static Value MemoGet(final Value k) { return memo.get(str(k)); }
  public static Value MemoPut(final Value k, final Value v) { memo.put(str(k), v); return v; }
}
