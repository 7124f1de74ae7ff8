// Native evaluation of spec/ClassGroupFast.tla (same algorithms, java.math.BigInteger).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class ClassGroupFast {
  static BigInteger[] f(Value v) { TupleValue t = (TupleValue) v.toTuple(); return new BigInteger[] { Big.n(t.elems[0]), Big.n(t.elems[1]) }; }
  static Value v(BigInteger[] f) { return new TupleValue(new Value[] { Big.s(f[0]), Big.s(f[1]) }); }
  static BigInteger c(BigInteger D, BigInteger a, BigInteger b) { return b.multiply(b).subtract(D).shiftRight(2).divide(a); }
  static BigInteger[] red(BigInteger D, BigInteger a, BigInteger b) {
    while (true) {
      BigInteger a2 = a.shiftLeft(1), r = b.mod(a2);
      if (a.compareTo(r) < 0) r = r.subtract(a2);
      BigInteger c = c(D, a, r);
      if (c.compareTo(a) < 0) { a = c; b = r.negate(); continue; }
      if (c.equals(a) && r.signum() < 0) r = r.negate();
      return new BigInteger[] { a, r };
    }
  }
  static BigInteger[] comp(BigInteger D, BigInteger[] f, BigInteger[] g) {
    BigInteger s = f[1].add(g[1]).shiftRight(1);
    BigInteger[] x1 = Big.ext(f[0], g[0]);
    BigInteger[] x2 = Big.ext(x1[0], s);
    BigInteger e = x2[0], u = x2[1].multiply(x1[1]), w = x2[1].multiply(x1[2]), q = x2[2];
    BigInteger a3 = f[0].multiply(g[0]).divide(e.multiply(e));
    BigInteger t = u.multiply(f[0]).multiply(g[1]).add(w.multiply(g[0]).multiply(f[1]))
        .add(q.multiply(f[1].multiply(g[1]).add(D).shiftRight(1)));
    return red(D, a3, Big.fdiv(t, e).mod(a3.shiftLeft(1)));
  }
  static BigInteger[] id(BigInteger D) { return new BigInteger[] { BigInteger.ONE, D.testBit(0) ? BigInteger.ONE : BigInteger.ZERO }; }
  public static Value Reduce(final Value D, final Value x) { BigInteger[] a = f(x); return v(red(Big.n(D), a[0], a[1])); }
  public static Value Compose(final Value D, final Value x, final Value y) { return v(comp(Big.n(D), f(x), f(y))); }
  public static Value Pow(final Value D, final Value x, final Value e) {
    BigInteger d = Big.n(D), k = Big.n(e); BigInteger[] b = f(x); b = red(d, b[0], b[1]);
    BigInteger[] acc = id(d);
    for (int i = k.bitLength() - 1; i >= 0; i--) { acc = comp(d, acc, acc); if (k.testBit(i)) acc = comp(d, acc, b); }
    return v(acc);
  }
  public static Value SquareN(final Value D, final Value x, final Value k) {
    BigInteger d = Big.n(D); BigInteger[] a = f(x); a = red(d, a[0], a[1]);
    for (int i = Big.in(k); i > 0; i--) a = comp(d, a, a);
    return v(a);
  }
}
