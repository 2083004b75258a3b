import tlc2.value.impl.*;
import java.math.BigInteger;
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import java.io.*;

/** Overrides of the operators of module Rat. */
public class Rat {
  static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;
  static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
  static final MathContext MW = new MathContext(56, RoundingMode.HALF_EVEN);

  static BigInteger[] p(Value v) {
    String s = ((StringValue) v).val.toString();
    int i = s.indexOf('/');
    if (i < 0) return new BigInteger[]{new BigInteger(s), ONE};
    return new BigInteger[]{new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1))};
  }
  static StringValue mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new ArithmeticException("Rat: division by zero");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
    return new StringValue(d.equals(ONE) ? n.toString() : n + "/" + d);
  }
  static StringValue mk(BigDecimal x) {
    x = x.stripTrailingZeros();
    if (x.scale() <= 0) return mk(x.toBigIntegerExact(), ONE);
    return mk(x.unscaledValue(), BigInteger.TEN.pow(x.scale()));
  }
  static BigDecimal dec(Value v) {
    BigInteger[] a = p(v);
    return new BigDecimal(a[0]).divide(new BigDecimal(a[1]), MW);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int num(Value v) { return ((IntValue) v).val; }

  public static Value RFrac(Value n, Value d) {
    return mk(BigInteger.valueOf(num(n)), BigInteger.valueOf(num(d)));
  }
  public static Value RAdd(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return mk(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RSub(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return mk(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
  }
  public static Value RMul(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return mk(x[0].multiply(y[0]), x[1].multiply(y[1]));
  }
  public static Value RDiv(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return mk(x[0].multiply(y[1]), x[1].multiply(y[0]));
  }
  static int cmp(Value a, Value b) {
    BigInteger[] x = p(a), y = p(b);
    return x[0].multiply(y[1]).compareTo(y[0].multiply(x[1]));
  }
  public static Value RLt(Value a, Value b) { return bool(cmp(a, b) < 0); }
  public static Value RLe(Value a, Value b) { return bool(cmp(a, b) <= 0); }

  static TupleValue seq(Value v) { return (TupleValue) v.toTuple(); }
  public static Value RSum(Value s) {
    BigInteger n = ZERO, d = ONE;
    for (Value e : seq(s).elems) {
      BigInteger[] x = p(e);
      n = n.multiply(x[1]).add(x[0].multiply(d)); d = d.multiply(x[1]);
      BigInteger g = n.gcd(d); if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
    }
    return mk(n, d);
  }
  public static Value RDot(Value s, Value t) {
    Value[] u = seq(s).elems, v = seq(t).elems;
    if (u.length != v.length) throw new IllegalArgumentException("RDot: lengths differ");
    BigInteger n = ZERO, d = ONE;
    for (int i = 0; i < u.length; i++) {
      BigInteger[] x = p(u[i]), y = p(v[i]);
      BigInteger pn = x[0].multiply(y[0]), pd = x[1].multiply(y[1]);
      n = n.multiply(pd).add(pn.multiply(d)); d = d.multiply(pd);
      BigInteger g = n.gcd(d); if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
    }
    return mk(n, d);
  }
  public static Value RRound(Value a) {
    BigInteger[] x = p(a);
    if (x[0].bitLength() + x[1].bitLength() <= 400) return a;
    return mk(dec(a).round(MC));
  }
  public static Value RFloor(Value a) {
    BigInteger[] x = p(a), q = x[0].divideAndRemainder(x[1]);
    return mk(q[1].signum() < 0 ? q[0].subtract(ONE) : q[0], ONE);
  }
  static boolean sq(BigInteger n) { return n.signum() >= 0 && n.sqrt().pow(2).equals(n); }
  public static Value RIsSquare(Value a) { BigInteger[] x = p(a); return bool(sq(x[0]) && sq(x[1])); }
  public static Value RSqrt(Value a) {
    BigInteger[] x = p(a);
    if (x[0].signum() < 0) throw new ArithmeticException("RSqrt of a negative number");
    if (sq(x[0]) && sq(x[1])) return mk(x[0].sqrt(), x[1].sqrt());
    return mk(dec(a).sqrt(MC));
  }
  static BigDecimal exp(BigDecimal x) {
    // exp(x) = exp(x/2^k)^(2^k)
    int k = 0;
    BigDecimal y = x; BigDecimal half = new BigDecimal("0.5");
    MathContext m = new MathContext(70, RoundingMode.HALF_EVEN);
    while (y.abs().compareTo(new BigDecimal("0.1")) > 0) { y = y.multiply(half, m); k++; }
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int i = 1; i < 400; i++) {
      t = t.multiply(y, m).divide(new BigDecimal(i), m);
      s = s.add(t, m);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-65")) < 0) break;
    }
    for (int i = 0; i < k; i++) s = s.multiply(s, m);
    return s;
  }
  public static Value RExp(Value a) {
    if (p(a)[0].signum() == 0) return mk(ONE, ONE);
    return mk(exp(dec(a)).round(MC));
  }
  static BigDecimal ln(BigDecimal x) {
    BigDecimal y = new BigDecimal(Math.log(x.doubleValue()));
    for (int i = 0; i < 2; i++) { // Halley, from 16 digits: y += 2 (x - e^y) / (x + e^y)
      BigDecimal e = exp(y);
      y = y.add(x.subtract(e, MW).multiply(new BigDecimal(2)).divide(x.add(e, MW), MW), MW);
    }
    return y;
  }
  public static Value RLn(Value a) {
    BigInteger[] x = p(a);
    if (x[0].signum() <= 0) throw new ArithmeticException("RLn of a non-positive number");
    if (x[0].equals(x[1])) return mk(ZERO, ONE);
    return mk(ln(dec(a)).round(MC));
  }
  static final java.util.Map<String, Value> memo = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value RRoot(Value a, Value n) {
    BigInteger[] x = p(a); int k = num(n);
    if (x[0].signum() == 0 || x[0].equals(x[1]) || k == 1) return a;
    String key = a.toString() + "^" + k;
    Value c = memo.get(key);
    if (c != null) return c;
    BigDecimal x0 = dec(a), r = new BigDecimal(Math.pow(x0.doubleValue(), 1.0 / k));
    for (int i = 0; i < 3; i++) { // Newton, from about 15 digits
      BigDecimal q = r.pow(k - 1, MW);
      r = r.subtract(q.multiply(r, MW).subtract(x0, MW).divide(q.multiply(new BigDecimal(k), MW), MW), MW);
    }
    c = mk(r.round(MC));
    if (memo.size() < 200000) memo.put(key, c);
    return c;
  }
  static BigDecimal sinTaylor(BigDecimal x, boolean cos) {
    MathContext m = new MathContext(70, RoundingMode.HALF_EVEN);
    BigDecimal t = cos ? BigDecimal.ONE : x, s = t; int i = cos ? 0 : 1;
    for (int j = 0; j < 400; j++) {
      t = t.multiply(x, m).multiply(x, m).divide(new BigDecimal((i + 1) * (i + 2)), m).negate(); i += 2;
      s = s.add(t, m);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-65")) < 0) break;
    }
    return s;
  }
  public static Value RSin(Value a) { if (p(a)[0].signum()==0) return mk(ZERO, ONE); return mk(sinTaylor(dec(a), false).round(MC)); }
  public static Value RCos(Value a) { if (p(a)[0].signum()==0) return mk(ONE, ONE); return mk(sinTaylor(dec(a), true).round(MC)); }
  static BigDecimal pi() { // Machin
    return atanInv(5).multiply(new BigDecimal(16)).subtract(atanInv(239).multiply(new BigDecimal(4)));
  }
  static BigDecimal atanInv(int q) {
    MathContext m = new MathContext(70, RoundingMode.HALF_EVEN);
    BigDecimal Q = new BigDecimal(q), t = BigDecimal.ONE.divide(Q, m), s = t;
    for (int i = 3; i < 400; i += 2) {
      t = t.divide(Q, m).divide(Q, m).negate();
      s = s.add(t.divide(new BigDecimal(i), m), m);
    }
    return s;
  }
  static final StringValue PI = mk(pi().round(MC));
  public static Value RPi(Value x) { return PI; }

  // matrices: sequences of rows
  static BigInteger[][][] pm(Value v) {
    Value[] r = seq(v).elems;
    BigInteger[][][] m = new BigInteger[r.length][][];
    for (int i = 0; i < r.length; i++) {
      Value[] e = seq(r[i]).elems;
      m[i] = new BigInteger[e.length][];
      for (int j = 0; j < e.length; j++) m[i][j] = p(e[j]);
    }
    return m;
  }
  static BigInteger[] red(BigInteger n, BigInteger d) {
    BigInteger g = n.gcd(d);
    if (d.signum() < 0) g = g.negate();
    return new BigInteger[]{n.divide(g), d.divide(g)};
  }
  static BigInteger[] mul(BigInteger[] x, BigInteger[] y) { return red(x[0].multiply(y[0]), x[1].multiply(y[1])); }
  static BigInteger[] sub(BigInteger[] x, BigInteger[] y) { return red(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1])); }
  static BigInteger[] div(BigInteger[] x, BigInteger[] y) { return red(x[0].multiply(y[1]), x[1].multiply(y[0])); }
  public static Value MMul(Value a, Value b) {
    Value[] A = seq(a).elems, B = seq(b).elems;
    int r = A.length, k = B.length, c = seq(B[0]).elems.length;
    BigInteger[][][] x = pm(a), y = pm(b);
    Value[] rows = new Value[r];
    for (int i = 0; i < r; i++) {
      if (x[i].length != k) throw new IllegalArgumentException("MMul: sizes differ");
      Value[] row = new Value[c];
      for (int j = 0; j < c; j++) {
        BigInteger[] s = {ZERO, ONE};
        for (int l = 0; l < k; l++) { BigInteger[] t = mul(x[i][l], y[l][j]); s = sub(s, new BigInteger[]{t[0].negate(), t[1]}); }
        row[j] = mk(s[0], s[1]);
      }
      rows[i] = new TupleValue(row);
    }
    return new TupleValue(rows);
  }
  // Gauss-Jordan; returns the determinant, leaves the inverse in inv when not null
  static BigInteger[] gauss(BigInteger[][][] m, BigInteger[][][] inv) {
    int n = m.length;
    BigInteger[] det = {ONE, ONE};
    for (int c = 0; c < n; c++) {
      int q = c;
      while (q < n && m[q][c][0].signum() == 0) q++;
      if (q == n) return new BigInteger[]{ZERO, ONE};
      if (q != c) {
        BigInteger[][] t = m[q]; m[q] = m[c]; m[c] = t;
        t = inv[q]; inv[q] = inv[c]; inv[c] = t;
        det = new BigInteger[]{det[0].negate(), det[1]};
      }
      BigInteger[] pv = m[c][c];
      det = mul(det, pv);
      for (int j = 0; j < n; j++) { m[c][j] = div(m[c][j], pv); inv[c][j] = div(inv[c][j], pv); }
      for (int i = 0; i < n; i++) if (i != c && m[i][c][0].signum() != 0) {
        BigInteger[] f = m[i][c];
        for (int j = 0; j < n; j++) { m[i][j] = sub(m[i][j], mul(f, m[c][j])); inv[i][j] = sub(inv[i][j], mul(f, inv[c][j])); }
      }
    }
    return det;
  }
  static BigInteger[][][] ident(int n) {
    BigInteger[][][] m = new BigInteger[n][n][];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = new BigInteger[]{i == j ? ONE : ZERO, ONE};
    return m;
  }
  public static Value MDet(Value a) {
    BigInteger[][][] m = pm(a);
    BigInteger[] d = gauss(m, ident(m.length));
    return mk(d[0], d[1]);
  }
  public static Value MInv(Value a) {
    BigInteger[][][] m = pm(a);
    int n = m.length;
    BigInteger[][][] v = ident(n);
    if (gauss(m, v)[0].signum() == 0) throw new ArithmeticException("MInv of a singular matrix");
    Value[] rows = new Value[n];
    for (int i = 0; i < n; i++) {
      Value[] row = new Value[n];
      for (int j = 0; j < n; j++) row[j] = mk(v[i][j][0], v[i][j][1]);
      rows[i] = new TupleValue(row);
    }
    return new TupleValue(rows);
  }

  static final java.util.Random RND = new java.util.Random(Long.getLong("rat.seed", 1L));
  public static Value RandInt(Value lo, Value hi) {
    int a = num(lo), b = num(hi);
    synchronized (RND) { return IntValue.gen(a + RND.nextInt(b - a + 1)); }
  }

  static PrintWriter out;
  public static synchronized Value Emit(Value s) {
    try {
      if (out == null) {
        String f = System.getProperty("rat.out");
        out = new PrintWriter(new BufferedWriter(new FileWriter(f == null ? "/dev/null" : f, true)));
        Runtime.getRuntime().addShutdownHook(new Thread() { public void run() { synchronized (Rat.class) { out.flush(); } } });
      }
      out.println(((StringValue) s).val.toString());
    } catch (IOException e) { throw new RuntimeException(e); }
    return BoolValue.ValTrue;
  }
}
