package tlc2.module;

import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * TLC module override: evaluates the operators of BigNat.tla with
 * java.math.BigInteger. The TLA+ definitions stay the reference;
 * MCBigNat compares both (see DESIGN.md), and every check also runs with the
 * overrides off on part of its trace.
 */
public class BigNat {
  private static final Value EMPTY = new TupleValue(new Value[0]);
  private static final BigInteger[] POW5 = new BigInteger[4096];
  private static final UniqueString Q = UniqueString.uniqueStringOf("q");
  private static final UniqueString R = UniqueString.uniqueStringOf("r");

  private static BigInteger big(final Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final int n = e.length;
    if (n <= 3) {
      long x = 0;
      for (int i = n - 1; i >= 0; i--) x = x << 16 | ((IntValue) e[i]).val;
      return BigInteger.valueOf(x);
    }
    final byte[] b = new byte[2 * n];
    for (int i = 0; i < n; i++) {
      final int x = ((IntValue) e[i]).val;
      b[2 * (n - i) - 1] = (byte) x;
      b[2 * (n - i) - 2] = (byte) (x >> 8);
    }
    return new BigInteger(1, b);
  }

  private static Value val(final BigInteger z) {
    final int bits = z.bitLength();
    if (bits == 0) return EMPTY;
    final int n = (bits + 15) / 16;
    final Value[] e = new Value[n];
    if (bits < 63) {
      long x = z.longValue();
      for (int i = 0; i < n; i++, x >>= 16) e[i] = IntValue.gen((int) (x & 0xFFFF));
    } else {
      final byte[] b = z.toByteArray();
      for (int i = 0; i < n; i++) {
        final int lo = b.length - 1 - 2 * i;
        int x = b[lo] & 0xFF;
        if (lo > 0) x |= (b[lo - 1] & 0xFF) << 8;
        e[i] = IntValue.gen(x);
      }
    }
    return new TupleValue(e);
  }

  private static int i(final Value v) {
    return ((IntValue) v).val;
  }

  private static BigInteger pow5(final int k) {
    if (k >= POW5.length) return BigInteger.valueOf(5).pow(k);
    BigInteger p = POW5[k];
    if (p == null) POW5[k] = p = BigInteger.valueOf(5).pow(k);
    return p;
  }

  public static Value Add(final Value a, final Value b) {
    return val(big(a).add(big(b)));
  }

  public static Value Sub(final Value a, final Value b) {
    final BigInteger d = big(a).subtract(big(b));
    if (d.signum() < 0) throw new IllegalArgumentException("BigNat!Sub: negative");
    return val(d);
  }

  public static Value Mul(final Value a, final Value b) {
    return val(big(a).multiply(big(b)));
  }

  public static Value MulAdd(final Value a, final Value n, final Value c) {
    return val(big(a).multiply(BigInteger.valueOf(i(n))).add(BigInteger.valueOf(i(c))));
  }

  public static Value DivMod(final Value a, final Value n) {
    final BigInteger[] qr = big(a).divideAndRemainder(BigInteger.valueOf(i(n)));
    return new RecordValue(new UniqueString[] {Q, R},
        new Value[] {val(qr[0]), IntValue.gen(qr[1].intValue())}, false);
  }

  public static Value DivBig(final Value a, final Value b) {
    final BigInteger[] qr = big(a).divideAndRemainder(big(b));
    return new RecordValue(new UniqueString[] {Q, R}, new Value[] {val(qr[0]), val(qr[1])}, false);
  }

  public static Value Cmp(final Value a, final Value b) {
    return IntValue.gen(big(a).compareTo(big(b)));
  }

  public static Value BitLen(final Value a) {
    return IntValue.gen(big(a).bitLength());
  }

  public static Value TrailingZeros(final Value a) {
    return IntValue.gen(big(a).getLowestSetBit());
  }

  public static Value Shl(final Value a, final Value k) {
    if (i(k) < 0) throw new IllegalArgumentException("BigNat!Shl: negative");
    return val(big(a).shiftLeft(i(k)));
  }

  public static Value Shr(final Value a, final Value k) {
    if (i(k) < 0) throw new IllegalArgumentException("BigNat!Shr: negative");
    return val(big(a).shiftRight(i(k)));
  }

  public static Value LowZero(final Value a, final Value k) {
    final int z = big(a).getLowestSetBit();
    return z < 0 || z >= i(k) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value RoundShr(final Value va, final Value vk) {
    final BigInteger a = big(va);
    final int k = i(vk);
    if (k <= 0) return val(a.shiftLeft(-k));
    if (k > a.bitLength() + 1) return EMPTY;
    BigInteger q = a.shiftRight(k);
    if (a.testBit(k - 1) && (a.getLowestSetBit() < k - 1 || q.testBit(0))) q = q.add(BigInteger.ONE);
    return val(q);
  }

  public static Value Pow2Big(final Value k) {
    return val(BigInteger.ONE.shiftLeft(i(k)));
  }

  public static Value MulPow5(final Value a, final Value k) {
    return val(big(a).multiply(pow5(i(k))));
  }

  public static Value MulPow10(final Value a, final Value k) {
    return val(big(a).multiply(pow5(i(k))).shiftLeft(i(k)));
  }

  /** Value of a sequence of digits in base n (most significant first). */
  public static Value FromDigits(final Value ds, final Value n) {
    final Value[] e = ((TupleValue) ds.toTuple()).elems;
    final BigInteger b = BigInteger.valueOf(i(n));
    BigInteger z = BigInteger.ZERO;
    for (final Value d : e) z = z.multiply(b).add(BigInteger.valueOf(i(d)));
    return val(z);
  }

  /** Digits of a in base n, most significant first; none for zero. */
  public static Value ToDigits(final Value a, final Value n) {
    final BigInteger z = big(a);
    final int b = i(n);
    if (b <= Character.MAX_RADIX) {
      if (z.signum() == 0) return EMPTY;
      final String s = z.toString(b);
      final Value[] e = new Value[s.length()];
      for (int k = 0; k < e.length; k++) e[k] = IntValue.gen(Character.digit(s.charAt(k), b));
      return new TupleValue(e);
    }
    final java.util.ArrayList<Value> l = new java.util.ArrayList<>();
    for (BigInteger t = z; t.signum() != 0; ) {
      final BigInteger[] qr = t.divideAndRemainder(BigInteger.valueOf(b));
      l.add(0, IntValue.gen(qr[1].intValue()));
      t = qr[0];
    }
    return new TupleValue(l.toArray(new Value[0]));
  }
}
