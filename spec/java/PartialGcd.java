// Native evaluation of Cofactor in spec/PartialGcd.tla.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class PartialGcd {
  static int ln(BigInteger x) { return x.signum() == 0 ? 1 : x.bitLength(); }
  static BigInteger cof(BigInteger a, BigInteger b) {
    BigInteger L = a.sqrt(), r2 = a, r1 = b, co2 = BigInteger.ZERO, co1 = BigInteger.ONE.negate();
    while (r1.signum() != 0 && r1.compareTo(L) > 0) {
      int sh = Math.max(Math.max(ln(r2), ln(r1)) - 63, 0);
      long x2 = r2.shiftRight(sh).longValueExact(), x1 = r1.shiftRight(sh).longValueExact(), bb = L.shiftRight(sh).longValueExact();
      long a2 = 0, a1 = 1, b2 = 1, b1 = 0; int i;
      for (i = 0; x1 != 0 && x1 > bb; i++) {
        long q = x2 / x1, t1 = x2 - q * x1, t2 = a2 - q * a1, t3 = b2 - q * b1;
        if ((i & 1) != 0) { if (t1 < -t3 || x1 - t1 < t2 - a1) break; }
        else if (t1 < -t2 || x1 - t1 < t3 - b1) break;
        x2 = x1; x1 = t1; a2 = a1; a1 = t2; b2 = b1; b1 = t3;
      }
      if (i == 0) {
        BigInteger[] qr = r2.divideAndRemainder(r1);
        BigInteger c = co2.subtract(qr[0].multiply(co1));
        r2 = r1; r1 = qr[1]; co2 = co1; co1 = c;
      } else {
        BigInteger A2 = BigInteger.valueOf(a2), A1 = BigInteger.valueOf(a1), B2 = BigInteger.valueOf(b2), B1 = BigInteger.valueOf(b1);
        BigInteger n2 = r2.multiply(B2).add(r1.multiply(A2)), n1 = r1.multiply(A1).add(r2.multiply(B1));
        BigInteger c2 = co2.multiply(B2).add(co1.multiply(A2)), c1 = co1.multiply(A1).add(co2.multiply(B1));
        co2 = n2.signum() < 0 ? c2.negate() : c2; co1 = n1.signum() < 0 ? c1.negate() : c1;
        r2 = n2.abs(); r1 = n1.abs();
      }
    }
    return co1.negate();
  }
  public static Value Cofactor(final Value a, final Value b) { return Big.s(cof(Big.n(a), Big.n(b))); }
}
