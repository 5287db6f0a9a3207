import tlc2.value.impl.*;

/* evaluates operators of Fixed.tla faster: the same digits as the definitions give (MCFixed.tla compares them) */
public class Fixed
{
  static final int B = 10000, N = 10, H = 4;

  static long[] in(final Value v)
  {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    if (e.length != N)
      throw new IllegalArgumentException("not a number: " + v);
    final long[] r = new long[N];
    for (int i = 0; i < N; i++)
      r[i] = ((IntValue) e[i]).val;
    return r;
  }

  static Value out(final long[] a)
  {
    final Value[] e = new Value[N];
    for (int i = 0; i < N; i++)
      e[i] = IntValue.gen(Math.toIntExact(a[i]));
    return new TupleValue(e);
  }

  static long[] carry(final long[] a)
  {
    for (int i = N - 1; i > 0; i--)
    {
      final long q = Math.floorDiv(a[i], (long) B);
      a[i] -= q * B;
      a[i - 1] += q;
    }
    return a;
  }

  static long[] add(final long[] a, final long[] b, final int s)
  {
    final long[] c = new long[N];
    for (int i = 0; i < N; i++)
      c[i] = a[i] + s * b[i];
    return carry(c);
  }

  static final long[] ZERO = new long[N];

  static long[] neg(final long[] a) { return add(ZERO, a, -1); }

  static long[] mul(long[] a, long[] b)
  {
    final boolean m = (a[0] < 0) != (b[0] < 0);
    if (a[0] < 0)
      a = neg(a);
    if (b[0] < 0)
      b = neg(b);
    final long[] c = new long[N];
    for (int k = 1; k <= N + 1; k++)
    {
      long s = 0;
      for (int i = Math.max(1, H + k - N); i <= Math.min(N, H + k - 1); i++)
        s += a[i - 1] * b[H + k - i - 1];
      if (k <= N)
        c[k - 1] = s;
      else
        c[N - 1] += s / B;
    }
    return m ? neg(carry(c)) : carry(c);
  }

  static long[] over(final long[] a, final int k)
  {
    final long[] c = new long[N];
    long r = 0;
    for (int i = 0; i < N; i++)
    {
      final long x = r * B + a[i];
      c[i] = Math.floorDiv(x, (long) k);
      r = Math.floorMod(x, (long) k);
    }
    return c;
  }

  static long[] unit(final long n, final int e)
  {
    final long[] c = new long[N];
    if (H - e >= 1 && H - e <= N)
      c[H - e - 1] = n;
    return carry(c);
  }

  static int lead(final long[] a)
  {
    int i = 1;
    while (a[i - 1] == 0 && i < N)
      i++;
    return i;
  }

  static long at(final long[] a, final int i) { return i <= N ? a[i - 1] : 0; }

  static long[] recip(final long[] y)
  {
    final int  l = lead(y);
    final long m = y[l - 1] * B + at(y, l + 1);
    if (m == 0)
      throw new IllegalArgumentException("one over zero");
    long[] r = unit(2000000000L / m * 500, l + 1 - H - 3);
    for (int i = 0; i < 5; i++)
      r = mul(r, add(unit(2, 0), mul(y, r), -1));
    return r;
  }

  static long[] iroot(final long[] y)
  {
    final int  l = lead(y);
    final long m = y[l - 1] * B + at(y, l + 1);
    final int  e = H - l - 1;
    long       lo = 0, hi = 10001;
    while (hi - lo > 1)
    {
      final long c = (lo + hi) / 2;
      if (c * c <= m)
        lo = c;
      else
        hi = c;
    }
    if (lo == 0)
      throw new IllegalArgumentException("one over the root of zero");
    final long k = 100000000L / lo;
    long[]     r = Math.floorMod(e, 2) == 0 ? unit(k, -Math.floorDiv(e, 2) - 2) : unit(100 * k, -Math.floorDiv(e - 1, 2) - 3);
    for (int i = 0; i < 4; i++)
      r = over(mul(r, add(unit(3, 0), mul(y, mul(r, r)), -1)), 2);
    return r;
  }

  static boolean less(final long[] a, final long[] b) { return add(a, b, -1)[0] < 0; }

  static int n(final Value v) { return ((IntValue) v).val; }

  static Value bool(final boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value Add(final Value x, final Value y) { return out(add(in(x), in(y), 1)); }
  public static Value Sub(final Value x, final Value y) { return out(add(in(x), in(y), -1)); }
  public static Value Mul(final Value x, final Value y) { return out(mul(in(x), in(y))); }
  public static Value By(final Value x, final Value k)
  {
    final long[] a = in(x);
    for (int i = 0; i < N; i++)
      a[i] *= n(k);
    return out(carry(a));
  }
  public static Value Over(final Value x, final Value k) { return out(over(in(x), n(k))); }
  public static Value RecipPos(final Value y) { return out(recip(in(y))); }
  public static Value Iroot(final Value y) { return out(iroot(in(y))); }
  public static Value Less(final Value x, final Value y) { return bool(less(in(x), in(y))); }
}
