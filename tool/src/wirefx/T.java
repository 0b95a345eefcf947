package wirefx;

import java.util.*;
import java.util.function.Function;

/**
 * Hash-consed abstract values. Every value the analysed code can hold is described by one of these
 * terms; the constructors normalise, so that two ways of writing the same computation give the same
 * term. Integers are linear forms over atoms; conditions are kept in negation normal form.
 */
final class T {
  final String op;
  final Object a;
  final T[] k;
  final int id;
  private int hash;

  private static final HashMap<Key, T> TAB = new HashMap<>();
  private static int next = 0;

  private static final class Key {
    final String op;
    final Object a;
    final T[] k;
    final int h;

    Key(String op, Object a, T[] k) {
      this.op = op;
      this.a = a;
      this.k = k;
      int x = op.hashCode() * 31 + (a == null ? 0 : a.hashCode());
      for (T t : k) x = x * 31 + t.id;
      h = x;
    }

    public int hashCode() {
      return h;
    }

    public boolean equals(Object o) {
      Key q = (Key) o;
      if (h != q.h || k.length != q.k.length || !op.equals(q.op) || !Objects.equals(a, q.a))
        return false;
      for (int i = 0; i < k.length; i++) if (k[i] != q.k[i]) return false;
      return true;
    }
  }

  private T(String op, Object a, T[] k, int id) {
    this.op = op;
    this.a = a;
    this.k = k;
    this.id = id;
  }

  static T mk(String op, Object a, T... k) {
    Key key = new Key(op, a, k);
    T t = TAB.get(key);
    if (t == null) {
      t = new T(op, a, k, next++);
      TAB.put(key, t);
    }
    return t;
  }

  static final T TRUE = mk("true", null), FALSE = mk("false", null), NULL = mk("null", null);
  static final T UNIT = mk("unit", null);
  static final T ZERO = num(0), ONE = num(1);

  static T num(long v) {
    return mk("num", v);
  }

  static T str(String s) {
    return mk("str", s);
  }

  static T bool(boolean b) {
    return b ? TRUE : FALSE;
  }

  private static int fresh = 0;

  static int freshId() {
    return ++fresh;
  }

  /** A value about which nothing is known. */
  static T opaque(String why, T... deps) {
    return mk("opaque", why + "#" + freshId(), deps);
  }

  boolean is(String o) {
    return op.equals(o);
  }

  boolean isNum() {
    return op.equals("num");
  }

  long n() {
    return (Long) a;
  }

  boolean isBoolConst() {
    return this == TRUE || this == FALSE;
  }

  // ---------------------------------------------------------------- integers

  static final Set<String> INTOPS =
      Set.of("num", "lin", "ext", "size", "blen", "slen", "trip", "scan", "sizeof", "psum", "min",
          "max", "shl", "shr", "ushr", "iand", "ior", "ixor", "mul", "div", "rem", "alen", "idx",
          "charAt", "fbits", "avail", "cursor0", "rd", "calc", "getb", "hash", "bswap", "floormod");

  boolean intLike() {
    if (INTOPS.contains(op)) return true;
    if (op.equals("gamma")) return k[1].intLike() && k[2].intLike();
    String t = vtype();
    return t != null && (PRIMW.containsKey(t) || t.equals("cursor"));
  }

  static final Map<String, Integer> PRIMW =
      Map.of("byte", 8, "short", 16, "char", 16, "int", 32, "long", 64, "Byte", 8, "Short", 16,
          "Integer", 32, "Long", 64, "Character", 16);

  /** Declared type of the value, for atoms that carry one. */
  String vtype() {
    if (op.equals("fld") || op.equals("param") || op.equals("get") || op.equals("sfld")
        || op.equals("phi") || op.equals("select") || op.equals("mget") || op.equals("typed")) {
      String s = (String) a;
      int i = s.lastIndexOf(':');
      return i < 0 ? null : s.substring(i + 1);
    }
    return null;
  }

  static final class Lin {
    long c;
    final TreeMap<Integer, Long> m = new TreeMap<>();
    final HashMap<Integer, T> at = new HashMap<>();

    void add(T t, long f) {
      if (f == 0) return;
      if (t.isNum()) c += f * t.n();
      else if (t.is("lin")) {
        long[] co = ((Coef) t.a).c;
        c += f * co[0];
        for (int i = 0; i < t.k.length; i++) atom(t.k[i], f * co[i + 1]);
      } else atom(t, f);
    }

    void atom(T t, long f) {
      long v = m.getOrDefault(t.id, 0L) + f;
      if (v == 0) m.remove(t.id);
      else {
        m.put(t.id, v);
        at.put(t.id, t);
      }
    }

    T build() {
      if (m.isEmpty()) return num(c);
      if (c == 0 && m.size() == 1 && m.firstEntry().getValue() == 1)
        return at.get(m.firstKey());
      T[] ks = new T[m.size()];
      long[] co = new long[m.size() + 1];
      co[0] = c;
      int i = 0;
      for (Map.Entry<Integer, Long> e : m.entrySet()) {
        ks[i] = at.get(e.getKey());
        co[++i] = e.getValue();
      }
      return mk("lin", new Coef(co), ks);
    }
  }

  static final class Coef {
    final long[] c;

    Coef(long[] c) {
      this.c = c;
    }

    public int hashCode() {
      return Arrays.hashCode(c);
    }

    public boolean equals(Object o) {
      return o instanceof Coef && Arrays.equals(c, ((Coef) o).c);
    }

    public String toString() {
      return Arrays.toString(c);
    }
  }

  static T lin(long c, Object... fs) {
    Lin l = new Lin();
    l.c = c;
    for (int i = 0; i < fs.length; i += 2) l.add((T) fs[i], ((Number) fs[i + 1]).longValue());
    return l.build();
  }

  static T add(T x, T y) {
    return lin(0, x, 1, y, 1);
  }

  static T sub(T x, T y) {
    return lin(0, x, 1, y, -1);
  }

  static T scale(T x, long f) {
    return lin(0, x, f);
  }

  /** coefficient of atom in a linear term */
  static long coef(T t, T atom) {
    if (t == atom) return 1;
    if (t.is("lin")) {
      long[] co = ((Coef) t.a).c;
      for (int i = 0; i < t.k.length; i++) if (t.k[i] == atom) return co[i + 1];
    }
    return 0;
  }

  static long konst(T t) {
    if (t.isNum()) return t.n();
    if (t.is("lin")) return ((Coef) t.a).c[0];
    return 0;
  }

  static T mul(T x, T y) {
    if (x.isNum()) return scale(y, x.n());
    if (y.isNum()) return scale(x, y.n());
    return x.id < y.id ? mk("mul", null, x, y) : mk("mul", null, y, x);
  }

  static T div(T x, T y) {
    if (x.isNum() && y.isNum() && y.n() != 0) return num(x.n() / y.n());
    if (y == ONE) return x;
    return mk("div", null, x, y);
  }

  static T rem(T x, T y) {
    if (x.isNum() && y.isNum() && y.n() != 0) return num(x.n() % y.n());
    if (y.isNum() && y.n() > 0) {
      long[] r = range(x);
      if (r[0] >= 0 && r[1] < y.n()) return x;
    }
    return mk("rem", null, x, y);
  }

  static long wrap(long v, int w) {
    switch (w) {
      case 8:
        return (byte) v;
      case 16:
        return (short) v;
      case 32:
        return (int) v;
      default:
        return v;
    }
  }

  /** the low n bits of x, read as a signed or unsigned number */
  static T ext(int n, boolean signed, T x) {
    if (n >= 64) return x;
    if (x.isNum()) {
      long v = x.n();
      if (signed) return num((v << (64 - n)) >> (64 - n));
      return num(v & ((1L << n) - 1));
    }
    if (x.is("ext")) {
      int m = Math.abs((Integer) x.a);
      if (n <= m) return ext(n, signed, x.k[0]);
    }
    if (x.is("gamma")) return gamma(x.k[0], ext(n, signed, x.k[1]), ext(n, signed, x.k[2]));
    long[] r = range(x);
    long lo = signed ? -(1L << (n - 1)) : 0, hi = signed ? (1L << (n - 1)) - 1 : (1L << n) - 1;
    if (r[0] >= lo && r[1] <= hi) return x;
    // lower bits only matter: strip inner masks that keep at least n bits
    if (x.is("iand")) {
      int mi = x.k[0].isNum() ? 0 : x.k[1].isNum() ? 1 : -1;
      if (mi >= 0) {
        long mask = (1L << n) - 1;
        if ((x.k[mi].n() & mask) == mask) return ext(n, signed, x.k[1 - mi]);
      }
    }
    return mk("ext", signed ? -n : n, x);
  }

  /** the low w bits of x with their bytes in the other order, as a signed number */
  static T bswap(int w, T x) {
    if (x.isNum()) return num(Long.reverseBytes(x.n()) >> (64 - w));
    if (x.is("gamma")) return gamma(x.k[0], bswap(w, x.k[1]), bswap(w, x.k[2]));
    while (x.is("ext") && Math.abs((Integer) x.a) >= w) x = x.k[0];
    if (x.is("bswap") && (Integer) x.a == w) return ext(w, true, x.k[0]);
    return mk("bswap", w, x);
  }

  static T bit(String op, int w, T x, T y) {
    if (x.isNum() && y.isNum()) {
      long p = x.n(), q = y.n();
      switch (op) {
        case "shl":
          return num(w == 32 ? (long) ((int) p << (int) q) : p << q);
        case "shr":
          return num(w == 32 ? (long) ((int) p >> (int) q) : p >> q);
        case "ushr":
          return num(w == 32 ? (long) ((int) p >>> (int) q) : p >>> q);
        case "iand":
          return num(p & q);
        case "ior":
          return num(p | q);
        case "ixor":
          return num(p ^ q);
      }
    }
    if (op.equals("iand") || op.equals("ior") || op.equals("ixor")) {
      if (x.id > y.id) {
        T s = x;
        x = y;
        y = s;
      }
      if (x == y) return op.equals("ixor") ? ZERO : x;
      T c = x.isNum() ? x : y.isNum() ? y : null;
      if (c != null) {
        T o = c == x ? y : x;
        long v = c.n();
        if (op.equals("iand")) {
          if (v == 0) return ZERO;
          if (v == -1) return o;
          if (v == 0xFF) return ext(8, false, o);
          if (v == 0xFFFF) return ext(16, false, o);
          if (v == 0xFFFFFFFFL) return ext(32, false, o);
        } else if (v == 0) return o;
      }
      // boolean-valued conditions of the form (x & c) != 0 stay as they are
    } else if (y == ZERO) return x;
    return mk(op, w, x, y);
  }

  static T min(T x, T y) {
    if (x == y) return x;
    T d = sub(x, y);
    long[] r = range(d);
    if (r[1] <= 0) return x;
    if (r[0] >= 0) return y;
    return x.id < y.id ? mk("min", null, x, y) : mk("min", null, y, x);
  }

  static T max(T x, T y) {
    return sub(add(x, y), min(x, y));
  }

  /** number of iterations of a counting loop whose distance is x */
  static T trip(T x) {
    if (x.isNum()) return num(Math.max(0, x.n()));
    long[] r = range(x);
    if (r[0] >= 0) return x;
    if (r[1] <= 0) return ZERO;
    if (x.is("gamma")) return gamma(x.k[0], trip(x.k[1]), trip(x.k[2]));
    return mk("trip", null, x);
  }

  static final long INF = Long.MAX_VALUE / 8;

  // facts that hold in the scenario under study: atom -> range
  static Map<T, long[]> FACTS = new HashMap<>();
  static long MAXSIZE = 65535;

  static long[] range(T t) {
    long[] f = FACTS.get(t);
    long[] r = range0(t);
    if (f == null) return r;
    return new long[] {Math.max(f[0], r[0]), Math.min(f[1], r[1])};
  }

  private static long[] prim(String ty) {
    Integer w = PRIMW.get(ty);
    if (w == null) return new long[] {-INF, INF};
    if (ty.equals("char") || ty.equals("Character")) return new long[] {0, 65535};
    if (w == 64) return new long[] {-INF, INF};
    return new long[] {-(1L << (w - 1)), (1L << (w - 1)) - 1};
  }

  private static long sat(double d) {
    return d >= INF ? INF : d <= -INF ? -INF : (long) d;
  }

  /** range of a term where a comparison with zero is known to hold or not */
  private static long[] refined(T v, T c, boolean holds) {
    long[] r = range(v);
    if (c.is("not")) return refined(v, c.k[0], !holds);
    if (c.is("and") && holds || c.is("or") && !holds) {
      long[] x = r;
      for (T q : c.k) {
        long[] y = refined(v, q, holds);
        x = new long[] {Math.max(x[0], y[0]), Math.min(x[1], y[1])};
      }
      return x;
    }
    if (!c.is("gt0") || !v.intLike()) return r;
    T d = sub(v, c.k[0]), e = add(v, c.k[0]);
    if (d.isNum()) return holds ? new long[] {Math.max(r[0], 1 + d.n()), r[1]} : new long[] {r[0], Math.min(r[1], d.n())};
    // v = e - c
    if (e.isNum()) return holds ? new long[] {r[0], Math.min(r[1], e.n() - 1)} : new long[] {Math.max(r[0], e.n()), r[1]};
    return r;
  }

  private static long[] range0(T t) {
    switch (t.op) {
      case "num":
        return new long[] {t.n(), t.n()};
      case "lin":
        {
          long[] co = ((Coef) t.a).c;
          double lo = co[0], hi = co[0];
          for (int i = 0; i < t.k.length; i++) {
            long[] r = range(t.k[i]);
            long c = co[i + 1];
            double p = r[0] <= -INF ? -1e30 : r[0], q = r[1] >= INF ? 1e30 : r[1];
            if (c > 0) {
              lo += c * p;
              hi += c * q;
            } else {
              lo += c * q;
              hi += c * p;
            }
          }
          return new long[] {sat(lo), sat(hi)};
        }
      case "ext":
        {
          int n = (Integer) t.a;
          if (n < 0) return new long[] {-(1L << (-n - 1)), (1L << (-n - 1)) - 1};
          return new long[] {0, (1L << n) - 1};
        }
      case "size":
      case "blen":
        return new long[] {0, MAXSIZE};
      case "slen":
      case "alen":
      case "cursor0":
      case "avail":
        return new long[] {0, Integer.MAX_VALUE};
      case "psum":
        {
          long[] r = range(t.k[0]);
          return new long[] {r[0] < 0 ? -(1L << 30) : 0, 1L << 30};
        }
      case "sizeof":
      case "dsize":
        return new long[] {0, 1L << 30};
      case "idx":
        return new long[] {0, Integer.MAX_VALUE};
      case "calc":
        {
          String ct = CALCTY.get(t.a);
          return ct == null ? new long[] {-INF, INF} : prim(ct);
        }
      case "scan":
        {
          long[] r = range(t.k[0]);
          return new long[] {0, Math.max(0, r[1])};
        }
      case "getb":
        return new long[] {0, 255};
      case "charAt":
        return new long[] {0, 65535};
      case "bswap":
        {
          int w = (Integer) t.a;
          if (w < 64) return new long[] {-(1L << (w - 1)), (1L << (w - 1)) - 1};
          return new long[] {-INF, INF};
        }
      case "trip":
        {
          long[] r = range(t.k[0]);
          return new long[] {Math.max(0, r[0]), Math.max(0, r[1])};
        }
      case "gamma":
        {
          long[] x = refined(t.k[1], t.k[0], true), y = refined(t.k[2], t.k[0], false);
          return new long[] {Math.min(x[0], y[0]), Math.max(x[1], y[1])};
        }
      case "min":
        {
          long[] x = range(t.k[0]), y = range(t.k[1]);
          return new long[] {Math.min(x[0], y[0]), Math.min(x[1], y[1])};
        }
      case "iand":
        {
          for (T q : t.k) if (q.isNum() && q.n() >= 0) return new long[] {0, q.n()};
          return prim((Integer) t.a == 32 ? "int" : "long");
        }
      case "ushr":
        if (t.k[1].isNum()) {
          int w = (Integer) t.a, s = (int) (t.k[1].n() & (w - 1));
          if (s > 0) return new long[] {0, w - s >= 62 ? INF : (1L << (w - s)) - 1};
        }
        return prim((Integer) t.a == 32 ? "int" : "long");
      case "shl":
      case "shr":
      case "ior":
      case "ixor":
        return prim((Integer) t.a == 32 ? "int" : "long");
      case "rem":
        if (t.k[1].isNum() && t.k[1].n() > 0) {
          long m = t.k[1].n();
          long[] r = range(t.k[0]);
          return new long[] {r[0] >= 0 ? 0 : -(m - 1), m - 1};
        }
        return new long[] {-INF, INF};
      case "floormod":
        if (t.k[1].isNum() && t.k[1].n() > 0) return new long[] {0, t.k[1].n() - 1};
        return new long[] {-INF, INF};
      default:
        {
          String ty = t.vtype();
          if (ty != null) return prim(ty);
          return new long[] {-INF, INF};
        }
    }
  }

  // ---------------------------------------------------------------- conditions

  static T gt0(T x) {
    long[] r = range(x);
    if (r[0] > 0) return TRUE;
    if (r[1] <= 0) return FALSE;
    if (x.is("gamma")) return gamma(x.k[0], gt0(x.k[1]), gt0(x.k[2]));
    if (x.is("lin") && x.k.length == 1 && x.k[0].is("gamma")) {
      T g = x.k[0];
      long c = ((Coef) x.a).c[0], f = ((Coef) x.a).c[1];
      return gamma(g.k[0], gt0(lin(c, g.k[1], f)), gt0(lin(c, g.k[2], f)));
    }
    // emptiness tests have one spelling:  n > 0  is  not(n == 0)  for n >= 0
    if (r[0] == 0) return not(eq0(x));
    if (r[1] == 1) return eq0(sub(x, ONE)); // x <= 1 and x > 0
    return mk("gt0", null, x);
  }

  static T eq0(T x) {
    long[] r = range(x);
    if (x.isNum()) return bool(x.n() == 0);
    if (r[0] > 0 || r[1] < 0) return FALSE;
    if (x.is("gamma")) return gamma(x.k[0], eq0(x.k[1]), eq0(x.k[2]));
    // no bit differs
    if (x.is("ixor") && x.k.length == 2 && !x.k[0].isNum() && !x.k[1].isNum()) return eq0(sub(x.k[0], x.k[1]));
    if (x.is("lin")) {
      // divide by the common factor; make the leading coefficient positive
      long[] co = ((Coef) x.a).c;
      long g = 0;
      for (int i = 1; i < co.length; i++) g = gcd(g, Math.abs(co[i]));
      if (co[0] % g != 0) return FALSE;
      long s = co[1] < 0 ? -g : g;
      if (s != 1) {
        Lin l = new Lin();
        l.c = co[0] / s;
        for (int i = 0; i < x.k.length; i++) l.atom(x.k[i], co[i + 1] / s);
        return eq0(l.build());
      }
      if (x.k.length == 1 && x.k[0].is("gamma")) {
        T y = x.k[0];
        return gamma(
            y.k[0], eq0(lin(co[0], y.k[1], co[1])), eq0(lin(co[0], y.k[2], co[1])));
      }
      if (x.k.length == 1 && x.k[0].is("compare") && co[0] == 0) return eq0(x.k[0]);
    }
    if (x.is("compare")) return (T) eqTerm(x.k[0], x.k[1], (String) x.a);
    if (x.is("blen")) return eq0(mk("slen", null, x.k[0]));
    return mk("eq0", null, x);
  }

  static T eqTerm(T x, T y, String kind) {
    if (kind.equals("float") || kind.equals("double")) return objEq(x, y);
    return eq0(sub(x, y));
  }

  private static long gcd(long a, long b) {
    return b == 0 ? a : gcd(b, a % b);
  }

  static T lt(T x, T y) {
    return gt0(sub(y, x));
  }

  static T le(T x, T y) {
    return gt0(add(sub(y, x), ONE));
  }

  static T not(T c) {
    switch (c.op) {
      case "true":
        return FALSE;
      case "false":
        return TRUE;
      case "not":
        return c.k[0];
      case "and":
      case "or":
        {
          known();
          T r = NOT.get(c);
          if (r != null) return r;
          boolean and = c.is("and");
          r = bool(!and);
          for (T x : c.k) r = and ? or(r, not(x)) : and(r, not(x));
          known();
          NOT.put(c, r);
          return r;
        }
      case "gt0":
        return gt0(lin(1, c.k[0], -1));
      case "gamma":
        return gamma(c.k[0], not(c.k[1]), not(c.k[2]));
      default:
        return mk("not", null, c);
    }
  }

  // what conditions put together came to, as long as the same is known
  private static final Map<T, T> NOT = new HashMap<>();
  private static final Map<Long, T> AND = new HashMap<>(), OR = new HashMap<>();
  private static Object knownF, knownN;
  private static int knownFs, knownNs;

  private static void known() {
    if (knownF == FACTS && knownN == NONNULL && knownFs == FACTS.size() && knownNs == NONNULL.size() && AND.size() + OR.size() + NOT.size() < 1000000) return;
    forget();
  }

  static void forget() {
    NOT.clear();
    AND.clear();
    OR.clear();
    knownF = FACTS;
    knownN = NONNULL;
    knownFs = FACTS.size();
    knownNs = NONNULL.size();
  }

  static T and(T x, T y) {
    return ac("and", x, y);
  }

  static T or(T x, T y) {
    return ac("or", x, y);
  }

  private static T ac(String op, T x, T y) {
    boolean and = op.equals("and");
    T unit = and ? TRUE : FALSE, zero = and ? FALSE : TRUE;
    if (x == unit) return y;
    if (y == unit) return x;
    if (x == zero || y == zero) return zero;
    if (x == y) return x;
    if (x.k.length < 2 && y.k.length < 2) return ac1(op, x, y);
    known();
    long key = (long) x.id << 32 | y.id;
    T r = (and ? AND : OR).get(key);
    if (r != null) return r;
    r = ac1(op, x, y);
    known();
    (and ? AND : OR).put(key, r);
    return r;
  }

  private static T ac1(String op, T x, T y) {
    boolean and = op.equals("and");
    T unit = and ? TRUE : FALSE, zero = and ? FALSE : TRUE;
    TreeMap<Integer, T> m = new TreeMap<>();
    for (T t : new T[] {x, y}) {
      if (t.is(op)) for (T q : t.k) m.put(q.id, q);
      else m.put(t.id, t);
    }
    String dual = and ? "or" : "and";
    for (T t : new ArrayList<>(m.values())) {
      T n = not(t);
      if (m.containsKey(n.id)) return zero;
    }
    // absorption and unit resolution: a && (a || b) = a ; a && (!a || b) = a && b
    boolean changed = true;
    while (changed) {
      changed = false;
      for (T t : new ArrayList<>(m.values())) {
        if (!t.is(dual)) continue;
        boolean absorbed = false;
        T rest = and ? FALSE : TRUE;
        boolean shrunk = false;
        for (T q : t.k) {
          if (m.containsKey(q.id)) absorbed = true;
          else if (m.containsKey(not(q).id)) shrunk = true;
          else rest = ac(dual, rest, q);
        }
        if (absorbed) {
          m.remove(t.id);
          changed = true;
        } else if (shrunk) {
          m.remove(t.id);
          if (rest == zero) return zero;
          if (rest != unit) {
            if (rest.is(op)) for (T q : rest.k) m.put(q.id, q);
            else m.put(rest.id, rest);
          }
          changed = true;
        }
        if (changed) break;
      }
    }
    if (m.isEmpty()) return unit;
    if (m.size() == 1) return m.firstEntry().getValue();
    return mk(op, null, m.values().toArray(new T[0]));
  }

  boolean boolLike() {
    switch (op) {
      case "true":
      case "false":
      case "and":
      case "or":
      case "not":
      case "gt0":
      case "eq0":
      case "isnull":
      case "objeq":
      case "same":
      case "classis":
        return true;
      case "gamma":
        return k[1].boolLike() && k[2].boolLike();
      default:
        String t = vtype();
        return "boolean".equals(t) || "Boolean".equals(t);
    }
  }

  static T gamma(T c, T x, T y) {
    if (c == TRUE) return x;
    if (c == FALSE) return y;
    if (x == y) return x;
    if (c.is("not")) return gamma(c.k[0], y, x);
    if (x.is("gamma") && x.k[0] == c) x = x.k[1];
    if (y.is("gamma") && y.k[0] == c) y = y.k[2];
    if (x == y) return x;
    // what is left between two places that meet is nothing
    if (x.is("str") && "".equals(x.a) && meets(c, y)) return y;
    if (y.is("str") && "".equals(y.a) && meets(not(c), x)) return x;
    if (x.boolLike() && y.boolLike() && (x.isBoolConst() || y.isBoolConst()))
      return or(and(c, x), and(not(c), y));
    if (x.boolLike() && y.boolLike()) return or(and(c, x), and(not(c), y));
    if (y.is("gamma") && y.k[1] == x) return gamma(or(c, y.k[0]), x, y.k[2]);
    if (y.is("gamma") && y.k[2] == x) return gamma(or(c, not(y.k[0])), x, y.k[1]);
    // the same where it makes a difference which of two equal numbers it is
    if (x.intLike() && y.intLike() && !(x.isNum() && y.isNum()) && (c.is("eq0") || c.is("not") && c.k[0].is("eq0"))) {
      T d = c.is("eq0") ? c.k[0] : c.k[0].k[0], e = sub(x, y);
      if (e == d || scale(e, -1) == d) return c.is("eq0") ? y : x;
    }
    // share the common linear part
    if ((x.is("lin") || y.is("lin")) && x.intLike() && y.intLike()) {
      Lin common = new Lin();
      Lin lx = new Lin(), ly = new Lin();
      lx.add(x, 1);
      ly.add(y, 1);
      for (Map.Entry<Integer, Long> e : lx.m.entrySet()) {
        Long o = ly.m.get(e.getKey());
        if (o != null && o.equals(e.getValue())) common.atom(lx.at.get(e.getKey()), o);
      }
      if (!common.m.isEmpty()) {
        common.c = ly.c;
        T cm = common.build();
        return add(cm, gamma(c, sub(x, cm), sub(y, cm)));
      }
    }
    if (x.is("lapp") && y.is("lapp") && x.k[0] == y.k[0]) return mk("lapp", null, x.k[0], gamma(c, x.k[1], y.k[1]));
    return mk("gamma", null, c, x, y);
  }

  // ---------------------------------------------------------------- objects

  static T isnull(T x) {
    switch (x.op) {
      case "null":
        return TRUE;
      case "new":
      case "enum":
      case "str":
      case "clo":
      case "decstr":
      case "encstr":
      case "rbytes":
      case "rfix":
      case "created":
      case "roview":
      case "substr":
      case "cat":
      case "view":
      case "boxed":
      case "num":
      case "lin":
      case "class":
      case "this":
      case "getclass":
      case "ext":
      case "lrep":
      case "charset":
        return FALSE;
      case "gamma":
        return gamma(x.k[0], isnull(x.k[1]), isnull(x.k[2]));
      case "typed":
        return FALSE;
      default:
        if (x.intLike() && !(x.vtype() != null && Character.isUpperCase(x.vtype().charAt(0))))
          return FALSE;
        if (NONNULL.contains(x)) return FALSE;
        return mk("isnull", null, x);
    }
  }

  static Set<T> NONNULL = new HashSet<>();

  /** reference identity */
  static T same(T x, T y) {
    if (x == y) return TRUE;
    if (x == NULL) return isnull(y);
    if (y == NULL) return isnull(x);
    if (x.is("gamma")) return gamma(x.k[0], same(x.k[1], y), same(x.k[2], y));
    if (y.is("gamma")) return gamma(y.k[0], same(x, y.k[1]), same(x, y.k[2]));
    if (x.is("enum") && y.is("enum")) return FALSE;
    if (x.is("class") && y.is("class")) return FALSE;
    if (x.is("str") && y.is("str")) return FALSE;
    if (x.is("new") || y.is("new")) {
      if (x.is("new") && y.is("new")) return FALSE;
    }
    if (x.is("clo") && y.is("clo")) return FALSE;
    return x.id < y.id ? mk("same", null, x, y) : mk("same", null, y, x);
  }

  /** value equality, as Objects.equals sees it */
  static T objEq(T x, T y) {
    if (x == y) return TRUE;
    if (x == NULL) return isnull(y);
    if (y == NULL) return isnull(x);
    if (x.is("str") && y.is("str")) return bool(x.a.equals(y.a));
    if (x.isNum() && y.isNum()) return bool(x.n() == y.n());
    if (x.is("enum") && y.is("enum")) return FALSE;
    if (x.is("clo") && y.is("clo")) return FALSE;
    if (x.is("class") && y.is("class")) return FALSE;
    if (x.is("str") && y.intLike() || y.is("str") && x.intLike()) return FALSE;
    if (x.is("str") && x.a.equals("")) return and(not(isnull(y)), eq0(slen(y)));
    if (y.is("str") && y.a.equals("")) return and(not(isnull(x)), eq0(slen(x)));
    if (x.is("gamma")) return gamma(x.k[0], objEq(x.k[1], y), objEq(x.k[2], y));
    if (y.is("gamma")) return gamma(y.k[0], objEq(x, y.k[1]), objEq(x, y.k[2]));
    return x.id < y.id ? mk("objeq", null, x, y) : mk("objeq", null, y, x);
  }

  static T substr(T s, T lo, T hi) {
    if (lo == hi) return str("");
    if (lo == ZERO && hi == slen(s)) return s;
    if (s.is("str") && lo.isNum() && hi.isNum() && lo.n() >= 0 && lo.n() <= hi.n() && hi.n() <= ((String) s.a).length())
      return str(((String) s.a).substring((int) lo.n(), (int) hi.n()));
    if (s.is("cat")) {
      // whole characters of the literal ends
      T first = s.k[0], last = s.k[s.k.length - 1], cut = sub(slen(s), hi);
      if (lo == ZERO && last.is("str") && cut.isNum() && cut.n() > 0 && cut.n() <= ((String) last.a).length()) {
        T r = str("");
        for (int i = 0; i < s.k.length - 1; i++) r = cat(r, s.k[i]);
        return cat(r, str(((String) last.a).substring(0, (int) (((String) last.a).length() - cut.n()))));
      }
      if (first.is("str") && lo.isNum() && lo.n() > 0 && lo.n() <= ((String) first.a).length()) {
        T r = str(((String) first.a).substring((int) lo.n()));
        for (int i = 1; i < s.k.length; i++) r = cat(r, s.k[i]);
        return substr(r, ZERO, sub(hi, lo));
      }
    }
    if (s.is("gamma") && s.any(x -> x.is("cat"))) return gamma(s.k[0], substr(s.k[1], lo, hi), substr(s.k[2], lo, hi));
    return mk("substr", null, s, lo, hi);
  }

  /** c holds exactly where the part of a text after (or before) a search that stops within the text is empty */
  private static boolean meets(T c, T y) {
    if (!y.is("substr")) return false;
    T w = sub(y.k[2], y.k[1]), neg = sub(y.k[1], y.k[2]);
    boolean within = false;
    for (T q : neg.is("lin") ? neg.k : new T[] {neg}) if (q.is("scan") && coef(neg, q) == 1 && sub(add(neg, q.k[0]), q) == ZERO) within = true;
    return within && (c == gt0(add(neg, ONE)) || c == eq0(w));
  }

  static T charAt(T s, T i) {
    if (s.is("str") && i.isNum() && i.n() >= 0 && i.n() < ((String) s.a).length()) return num(((String) s.a).charAt((int) i.n()));
    if (s.is("cat")) {
      T first = s.k[0], last = s.k[s.k.length - 1], back = sub(slen(s), i);
      if (first.is("str") && i.isNum() && i.n() >= 0 && i.n() < ((String) first.a).length()) return charAt(first, i);
      if (last.is("str") && back.isNum() && back.n() > 0 && back.n() <= ((String) last.a).length())
        return charAt(last, num(((String) last.a).length() - back.n()));
    }
    if (s.is("gamma") && s.any(x -> x.is("cat"))) return gamma(s.k[0], charAt(s.k[1], i), charAt(s.k[2], i));
    return mk("charAt", null, s, i);
  }

  static T slen(T s) {
    if (s.is("str")) return num(((String) s.a).length());
    if (s.is("gamma")) return gamma(s.k[0], slen(s.k[1]), slen(s.k[2]));
    if (s.is("substr")) return sub(s.k[2], s.k[1]);
    if (s.is("cat") && s.k.length > 1) {
      T r = ZERO;
      for (T x : s.k) r = add(r, slen(x.is("str") || nulstr(x) == x ? x : mk("cat", null, x)));
      return r;
    }
    return mk("slen", null, s);
  }

  /** bytes of s in charset cs */
  static T encstr(T s, T cs) {
    if (s.is("gamma")) return gamma(s.k[0], encstr(s.k[1], cs), encstr(s.k[2], cs));
    if (s.is("decstr") && s.k[1] == cs) return s.k[0];
    return mk("encstr", null, s, cs);
  }

  static T decstr(T b, T cs) {
    if (b.is("encstr") && b.k[1] == cs) return b.k[0];
    if (b.is("gamma")) return gamma(b.k[0], decstr(b.k[1], cs), decstr(b.k[2], cs));
    if (b.is("nobytes")) return str("");
    return mk("decstr", null, b, cs);
  }

  /** length of a byte block */
  static T blen(T b) {
    switch (b.op) {
      case "encstr":
        {
          T s = b.k[0];
          if (s.is("str") && ((String) s.a).chars().allMatch(c -> c < 128))
            return num(((String) s.a).length());
          T sl = slen(s);
          if (sl.isNum() && sl.n() == 0) return ZERO;
          if (b.k[1].a.equals("UTF-8")) return mk("blen", null, s);
          return mk("blen", b.k[1].a, s);
        }
      case "rbytes":
        return b.k[0];
      case "gbytes":
        return b.k[2];
      case "nobytes":
        return ZERO;
      case "gamma":
        return gamma(b.k[0], blen(b.k[1]), blen(b.k[2]));
      case "alit":
        return num(b.k.length);
      case "astore":
        return blen(b.k[0]);
      case "arep":
        return blen(b.k[0]);
      case "sub":
      case "bufpart":
        return b.k[2];
      case "bfill":
        return b.k[1];
      case "chars":
        return slen(b.k[0]);
      case "bcat":
        {
          T n = ZERO;
          for (T x : b.k) n = add(n, blen(x));
          return n;
        }
      default:
        return mk("alen", null, b);
    }
  }

  /** the characters of a text as the contents of an array */
  static T chars(T s) {
    if (s.is("gamma")) return gamma(s.k[0], chars(s.k[1]), chars(s.k[2]));
    return mk("chars", null, s);
  }

  /** the text of an array of characters; null when that is not known */
  static T ofChars(T b) {
    if (b.is("chars")) return b.k[0];
    if (b.is("nobytes") || blen(b) == ZERO) return str("");
    if (b.is("gamma")) {
      T x = ofChars(b.k[1]), y = ofChars(b.k[2]);
      return x == null || y == null ? null : gamma(b.k[0], x, y);
    }
    if (b.is("bcat")) {
      T r = str("");
      for (T x : b.k) {
        T y = ofChars(x);
        if (y == null) return null;
        r = cat(r, y);
      }
      return r;
    }
    return null;
  }

  /** part of a byte block */
  static T part(T b, T off, T len) {
    if (off == ZERO && len == blen(b)) return b;
    if (len == ZERO) return mk("nobytes", null);
    if (b.is("chars")) return chars(substr(b.k[0], off, add(off, len)));
    if (b.is("bfill")) return mk("bfill", b.a, b.k[0], len);
    if (b.is("sub")) return part(b.k[0], add(b.k[1], off), len);
    if (b.is("gamma")) return gamma(b.k[0], part(b.k[1], off, len), part(b.k[2], off, len));
    if (b.is("bcat")) {
      List<T> out = new ArrayList<>();
      T at = off, rem = len;
      for (T x : b.k) {
        T n = blen(x);
        if (rem == ZERO) break;
        // does the part start after this piece?
        if (at != ZERO && (at == n || range(sub(at, n))[0] >= 0)) {
          at = sub(at, n);
          continue;
        }
        T here = sub(n, at);
        if (at != ZERO && !(range(at)[0] >= 0 && range(here)[0] >= 0)) return mk("sub", null, b, off, len);
        if (rem == here || range(sub(rem, here))[0] >= 0) {
          out.add(part(x, at, here));
          rem = sub(rem, here);
          at = ZERO;
        } else if (range(sub(here, rem))[0] >= 0) {
          out.add(part(x, at, rem));
          rem = ZERO;
        } else return mk("sub", null, b, off, len);
      }
      if (rem == ZERO) return bcat(out);
    }
    return mk("sub", null, b, off, len);
  }

  /** byte blocks one after the other */
  static T bcat(List<T> parts) {
    List<T> out = new ArrayList<>();
    bflat(parts, out);
    if (out.isEmpty()) return mk("nobytes", null);
    if (out.size() == 1) return out.get(0);
    return mk("bcat", null, out.toArray(new T[0]));
  }

  private static void bflat(List<T> parts, List<T> out) {
    for (T x : parts) {
      if (x.is("bcat")) {
        bflat(Arrays.asList(x.k), out);
        continue;
      }
      if (x.is("nobytes") || blen(x) == ZERO) continue;
      if (!out.isEmpty()) {
        T l = out.get(out.size() - 1);
        T j = null;
        if (l.is("bfill") && x.is("bfill") && l.k[0] == x.k[0]) j = mk("bfill", l.a, l.k[0], add(l.k[1], x.k[1]));
        else if (l.is("sub") && x.is("sub") && l.k[0] == x.k[0] && add(l.k[1], l.k[2]) == x.k[1]) j = part(l.k[0], l.k[1], add(l.k[2], x.k[2]));
        if (j != null) {
          out.remove(out.size() - 1);
          if (blen(j) != ZERO) out.add(j);
          continue;
        }
      }
      out.add(x);
    }
  }

  /** the block made of v for each idx below trip, when v steps through a block */
  static T copied(T v, T idx, T trip) {
    while (v.is("ext") && Math.abs((Integer) v.a) >= 8) v = v.k[0];
    if (!v.is("select") || v.k[0].any(x -> x == idx) || coef(v.k[1], idx) != 1) return null;
    if (!":byte".equals(v.a)) return null;
    T c = sub(v.k[1], idx);
    if (c.any(x -> x == idx)) return null;
    return part(v.k[0], c, trip);
  }

  /** dst with n elements of src from soff put at off */
  static T splice(T dst, T off, T src, T soff, T n) {
    if (dst.is("opaque")) return dst;
    T end = add(off, n);
    return bcat(Arrays.asList(part(dst, ZERO, off), part(src, soff, n), part(dst, end, sub(blen(dst), end))));
  }

  static T fbits(int w, T x) {
    if (x.is("bitsf") && (Integer) x.a == w) return x.k[0];
    return mk("fbits", w, x);
  }

  static T bitsf(int w, T x) {
    if (x.is("fbits") && (Integer) x.a == w) return x.k[0];
    if (x.is("ext") && Math.abs((Integer) x.a) == w) return bitsf(w, x.k[0]);
    return mk("bitsf", w, x);
  }

  /** number of entries of a map */
  /** whether a value is among those of a map */
  static T mhas(T m, T v) {
    if (m.is("mempty")) return FALSE;
    return along(mk("mhas", null, v), m, x -> mhas0(x, v));
  }

  private static T mhas0(T m, T v) {
    switch (m.op) {
      case "mempty":
        return FALSE;
      case "gamma":
        return gamma(m.k[0], mhas(m.k[1], v), mhas(m.k[2], v));
      case "mput":
        {
          T c = m.k[2].is("new") && v.is("new") ? same(m.k[2], v) : objEq(m.k[2], v);
          if (c == TRUE) return TRUE;
          if (c == FALSE && mhas(m.k[0], v) == FALSE) return FALSE;
          break;
        }
      case "mrem":
        if (mhas(m.k[0], v) == FALSE) return FALSE;
        break;
      default:
        break;
    }
    return mk("mhas", null, m, v);
  }

  static T msize(T m) {
    if (m.is("mempty")) return ZERO;
    return along("size", m, T::msize0);
  }

  private static T msize0(T m) {
    switch (m.op) {
      case "mempty":
        return ZERO;
      case "mput":
      case "mrem":
        {
          T n = msize(m.k[0]), c = isnull(mget(m.k[0], m.k[1]));
          if (!n.is("typed") && c.isBoolConst()) return m.is("mput") ? c == TRUE ? add(n, ONE) : n : c == TRUE ? n : sub(n, ONE);
          break;
        }
      case "gamma":
        {
          T a = msize(m.k[1]), b = msize(m.k[2]);
          if (a.isNum() && b.isNum()) return gamma(m.k[0], a, b);
          break;
        }
      default:
        break;
    }
    return mk("typed", "msize:int", m);
  }

  static T size(T l) {
    switch (l.op) {
      case "lempty":
        return ZERO;
      case "lapp":
        return add(size(l.k[0]), ONE);
      case "lcat":
        return add(size(l.k[0]), size(l.k[1]));
      case "lrep":
      case "lrev":
        return l.k[0];
      case "lperm":
        return size(l.k[0]);
      case "lprepart":
        return add(size(l.k[0]), l.k[2]);
      case "lsub":
        return l.k[2];
      case "gamma":
        return gamma(l.k[0], size(l.k[1]), size(l.k[2]));
      case "lof":
        return mk("size", null, l.k[0]);
      case "lpart":
        return add(size(l.k[0]), l.k[2]);
      default:
        return mk("size", null, l);
    }
  }

  // lists: contents terms. lof(o): the contents of list object o as it was on entry
  /** n elements of a list from the given one on */
  static T lsub(T l, T from, T n) {
    if (n == ZERO) return mk("lempty", null);
    if (from == ZERO && n == size(l)) return l;
    return mk("lsub", null, l, from, n);
  }

  static final Map<Object, String> ELEM = new java.util.concurrent.ConcurrentHashMap<>(); // declared element types of list fields

  static T lget(T l, T i, String ty) {
    switch (l.op) {
      case "lof":
        return mk("get", ":" + (l.k[0].is("fld") ? ELEM.getOrDefault(l.k[0].a, ty) : ty), l.k[0], i);
      case "lapp":
        {
          T n = size(l.k[0]);
          T d = sub(i, n);
          if (d == ZERO) return l.k[1];
          if (range(d)[1] < 0) return lget(l.k[0], i, ty);
          return mk("opaque", "lget", l, i);
        }
      case "lcat":
        {
          T n = size(l.k[0]), d = sub(i, n);
          if (range(d)[1] < 0) return lget(l.k[0], i, ty);
          if (range(d)[0] >= 0) return lget(l.k[1], d, ty);
          return mk("opaque", "lget", l, i);
        }
      case "lrep":
        return subst(l.k[2], Map.of(l.k[1], i));
      case "lsub":
        return lget(l.k[0], add(l.k[1], i), ty);
      case "lrev":
        return subst(l.k[2], Map.of(l.k[1], sub(sub(l.k[0], ONE), i)));
      case "gamma":
        return gamma(l.k[0], lget(l.k[1], i, ty), lget(l.k[2], i, ty));
      default:
        return mk("get", ":" + ty, l, i);
    }
  }

  /** sum of d over the iterations 0..n-1 of loop tag */
  static T psum(Object tag, T d, T n) {
    if (n == ZERO) return ZERO;
    boolean vary = d.any(q -> q.is("idx") || q.is("sizeof") || q.is("dsize") || q.is("get") || q.is("opaque") || q.is("rd") || q.is("rbytes") || q.is("rfix") || q.is("calc"));
    return vary ? mk("psum", tag, d, n) : mul(d, n);
  }

  static final Map<Object, String> CALCTY = new HashMap<>();

  static T lcat(T x, T y) {
    if (x.is("lempty")) return y;
    if (y.is("lempty")) return x;
    return mk("lcat", null, x, y);
  }

  static T lrep(T n, T idx, T elem) {
    if (n == ZERO) return mk("lempty", null);
    if (elem.is("get") && elem.k[1] == idx && n == mk("size", null, elem.k[0]))
      return mk("lof", null, elem.k[0]);
    return mk("lrep", null, n, idx, elem);
  }

  /** element of an array contents term */
  static T select(T c, T i, String ty) {
    switch (c.op) {
      case "chars":
        return charAt(c.k[0], i);
      case "alit":
        if (i.isNum() && i.n() >= 0 && i.n() < c.k.length) return c.k[(int) i.n()];
        break;
      case "bfill":
        return c.k[0];
      case "gbytes":
        return ext(8, true, mk("getb", null, c.k[0], add(c.k[1], i)));
      case "astore":
        {
          T d = sub(c.k[1], i);
          if (d == ZERO) return c.k[2];
          long[] r = range(d);
          if (r[0] > 0 || r[1] < 0) return select(c.k[0], i, ty);
          break;
        }
      case "gamma":
        return gamma(c.k[0], select(c.k[1], i, ty), select(c.k[2], i, ty));
      case "sub":
        return select(c.k[0], add(c.k[1], i), ty);
      case "bcat":
        {
          T at = i;
          for (T x : c.k) {
            T n = blen(x);
            long[] r = range(sub(at, n));
            if (r[0] >= 0) {
              at = sub(at, n);
              continue;
            }
            if (r[1] < 0 && range(at)[0] >= 0) return select(x, at, ty);
            break;
          }
          break;
        }
      default:
        break;
    }
    return mk("select", ":" + ty, c, i);
  }

  // maps
  /** entries of a map that go away by themselves */
  private static boolean weak(T m) {
    while (m.is("mput") || m.is("mrem") || m.is("mfilter") || m.is("mrem1") || m.is("mrit") || m.is("mapall")) m = m.k[0];
    return m.is("map0") && m.k[0].is("new") && ((String) m.k[0].a).startsWith("java.util.WeakHashMap") || m.is("mempty") && "weak".equals(m.a);
  }

  /** whether two keys are one for this map */
  private static T keyEq(T m, T a, T b) {
    while (m.is("mput") || m.is("mrem") || m.is("mfilter") || m.is("mrem1") || m.is("mrit") || m.is("mapall")) m = m.k[0];
    if (m.is("map0") && m.k[0].is("new") && ((String) m.k[0].a).startsWith("java.util.IdentityHashMap") || m.is("mempty") && "ident".equals(m.a)) return same(a, b);
    if (m.is("mempty") && "nocase".equals(m.a)) return pure("String.equalsIgnoreCase", a, b);
    return objEq(a, b);
  }

  /** answers about the map a look-up is at present working through: parts of it can be shared */
  private static Map<T, T> under;
  private static Object underKey;

  private static T along(Object key, T m, java.util.function.Function<T, T> f) {
    Map<T, T> u = under;
    Object k = underKey;
    boolean top = u == null || !key.equals(k);
    if (top) {
      under = new HashMap<>();
      underKey = key;
    }
    try {
      T r = under.get(m);
      if (r == null) under.put(m, r = f.apply(m));
      return r;
    } finally {
      if (top) {
        under = u;
        underKey = k;
      }
    }
  }

  static T mget(T m, T key) {
    if (m.is("mempty")) return NULL;
    if (m.is("map0")) return mk("mget", "", m, key);
    return along(key, m, x -> mget0(x, key));
  }

  /** the stored key is an equal object, not the one a look-up names: for boxed numbers and texts that matters */
  private static T stored(T pr) {
    T bk = mk("bk", null);
    if (!pr.any(x -> x.is("same") && (x.k[0] == bk || x.k[1] == bk))) return pr;
    return new Rebuild(x -> {
      if (!x.is("same") || x.k[0] != bk && x.k[1] != bk) return null;
      T o = x.k[0] == bk ? x.k[1] : x.k[0];
      String t = o.vtype();
      if (!o.isNum() && !o.is("str")) if (t == null || !t.equals("java.lang.String") && !(Character.isUpperCase(t.charAt(0)) && PRIMW.containsKey(t)) && !t.matches("java\\.lang\\.(Integer|Long|Short|Byte|Character)")) return null;
      return samekey(o, bk);
    }).go(pr);
  }

  /** whether a value handed in and a stored key are one object: small numbers are, others need not be */
  static T samekey(T x, T key) {
    if (x.isNum() && key.isNum()) return bool(x.n() == key.n() && x.n() >= -128 && x.n() <= 127);
    if (x.is("str") && key.is("str")) return FALSE;
    return mk("samekey", null, x, key);
  }

  private static T mget0(T m, T key) {
    switch (m.op) {
      case "mempty":
        return NULL;
      case "mput":
        {
          T c = keyEq(m, m.k[1], key);
          T v = m.k[2];
          if (weak(m)) v = gamma(eq0(mk("env", "garbage collection")), v, NULL);
          return gamma(c, v, mget(m.k[0], key));
        }
      case "mrem":
        {
          T c = keyEq(m, m.k[1], key);
          return gamma(c, NULL, mget(m.k[0], key));
        }
      case "gamma":
        return gamma(m.k[0], mget(m.k[1], key), mget(m.k[2], key));
      case "mfilter":
        {
          T v = mget(m.k[0], key);
          T pr = subst(stored(m.k[1]), Map.of(mk("bk", null), key, mk("bvl", null), v));
          return gamma(or(isnull(v), pr), NULL, v);
        }
      case "mapall":
        {
          T v = mget(m.k[0], key);
          return gamma(isnull(v), NULL, subst(stored(m.k[1]), Map.of(mk("bk", null), key, mk("bvl", null), v)));
        }
      case "mrem1":
      case "mrit":
        // at most less than before
        if (mget(m.k[0], key) == NULL) return NULL;
        return mk("mget", "", m, key);
      default:
        return mk("mget", "", m, key);
    }
  }

  /** a text, or "null" where it is absent */
  static T nulstr(T v) {
    return gamma(isnull(v), str("null"), v);
  }

  static T cat(T x, T y) {
    List<T> l = new ArrayList<>();
    for (T t : new T[] {x, y}) {
      if (t.is("cat")) l.addAll(Arrays.asList(t.k));
      else l.add(t);
    }
    l.removeIf(t -> t.is("str") && ((String) t.a).isEmpty());
    if (l.size() == 1 && l.get(0) == nulstr(l.get(0).is("gamma") ? l.get(0).k[2] : l.get(0))) return l.get(0);
    List<T> o = new ArrayList<>();
    for (T t : l) {
      // in a concatenation an absent text reads "null" anyway
      if (t.is("gamma") && t == nulstr(t.k[2])) t = t.k[2];
      if (!o.isEmpty() && t.is("str") && o.get(o.size() - 1).is("str"))
        o.set(o.size() - 1, str((String) o.get(o.size() - 1).a + t.a));
      else o.add(t);
    }
    if (o.isEmpty()) return str("");
    if (o.size() == 1 && o.get(0).is("str")) return o.get(0);
    return mk("cat", null, o.toArray(new T[0]));
  }

  // ---------------------------------------------------------------- rebuilding

  static T subst(T t, Map<T, T> m) {
    return new Rebuild(m::get).go(t);
  }

  static final class Rebuild {
    final Function<T, T> f;
    final HashMap<T, T> memo = new HashMap<>();

    Rebuild(Function<T, T> f) {
      this.f = f;
    }

    T go(T t) {
      T r = memo.get(t);
      if (r != null) return r;
      r = f.apply(t);
      if (r == null) {
        boolean ch = false;
        T[] ks = new T[t.k.length];
        if (t.is("gamma")) {
          ks[0] = go(t.k[0]);
          if (ks[0] == TRUE) {
            r = go(t.k[1]);
            memo.put(t, r);
            return r;
          }
          if (ks[0] == FALSE) {
            r = go(t.k[2]);
            memo.put(t, r);
            return r;
          }
        }
        for (int i = 0; i < ks.length; i++) {
          ks[i] = go(t.k[i]);
          ch |= ks[i] != t.k[i];
        }
        // facts may have changed since the term was built, so conditions are rebuilt anyway
        r = ks.length == 0 ? t : rebuild(t, ks, ch);
      }
      // the result may itself be bound
      T r2 = r == t ? null : f.apply(r);
      if (r2 != null) r = r2;
      memo.put(t, r);
      return r;
    }
  }

  /** a library function of its arguments alone; on constants the few plain text functions are folded */
  static T pure(String n, T... k) {
    if (k.length == 2 && k[0] == k[1] && (n.equals("String.equalsIgnoreCase") || n.equals("List.containsAll") || n.equals("String.contains"))) return TRUE;
    if (k.length > 0 && k[0].is("str")) {
      String a = (String) k[0].a;
      boolean two = k.length > 1 && k[1].is("str");
      String b = two ? (String) k[1].a : null;
      switch (n) {
        case "String.trim":
          return str(a.trim());
        case "String.strip":
          return str(a.strip());
        case "String.stripLeading":
          return str(a.stripLeading());
        case "String.stripTrailing":
          return str(a.stripTrailing());
        case "String.isBlank":
          return bool(a.isBlank());
        case "toUpperCase":
          return str(a.toUpperCase(Locale.ROOT));
        case "toLowerCase":
          return str(a.toLowerCase(Locale.ROOT));
        case "String.intern":
          return k[0];
        case "String.equalsIgnoreCase":
          if (two) return bool(a.equalsIgnoreCase(b));
          break;
        case "String.startsWith":
          if (two && k.length == 2) return bool(a.startsWith(b));
          break;
        case "String.endsWith":
          if (two) return bool(a.endsWith(b));
          break;
        case "String.contains":
          if (two) return bool(a.contains(b));
          break;
        case "String.compareToIgnoreCase":
          if (two) return num(a.compareToIgnoreCase(b));
          break;
        case "compareTo":
        case "String.compareTo":
          if (two) return num(a.compareTo(b));
          break;
        default:
          break;
      }
    }
    return mk("pure", n, k);
  }

  /** functions that are known not to be the identity, and not to determine their argument */
  static final Set<String> LOSSY =
      new HashSet<>(
          Arrays.asList(
              "getSimpleName", "getName", "getTypeName", "getCanonicalName", "java.text.Normalizer.normalize", "String.trim", "String.strip", "String.stripLeading", "String.stripTrailing", "String.isBlank", "toUpperCase", "toLowerCase",
              "String.replace", "String.replaceAll", "String.replaceFirst", "String.equalsIgnoreCase", "String.startsWith", "String.endsWith",
              "String.contains", "String.compareToIgnoreCase", "List.containsAll", "List.contains", "List.subList", "List.indexOf", "List.lastIndexOf"));

  /** whether a library function is known not to be the identity */
  static boolean lossy(Object name) {
    String n = (String) name;
    if (LOSSY.contains(n)) return true;
    if (n.startsWith("java.lang.Math.") || n.startsWith("java.lang.StrictMath.")) return true;
    int d = n.indexOf('.');
    if (d < 0) return false;
    String c = n.substring(0, d), m = n.substring(d + 1);
    return BOXES.contains(c) && !m.startsWith("parse") && !m.equals("valueOf") && !m.equals("decode") && !m.startsWith("to");
  }

  static final Set<String> BOXES = new HashSet<>(Arrays.asList("Integer", "Long", "Short", "Byte", "Character", "Float", "Double", "Boolean"));

  static T rebuild(T t, T[] k, boolean changed) {
    switch (t.op) {
      case "lin":
        {
          Lin l = new Lin();
          long[] co = ((Coef) t.a).c;
          l.c = co[0];
          for (int i = 0; i < k.length; i++) l.add(k[i], co[i + 1]);
          return l.build();
        }
      case "mul":
        return mul(k[0], k[1]);
      case "div":
        return div(k[0], k[1]);
      case "rem":
        return rem(k[0], k[1]);
      case "ext":
        {
          int n = (Integer) t.a;
          return ext(Math.abs(n), n < 0, k[0]);
        }
      case "shl":
      case "shr":
      case "ushr":
      case "iand":
      case "ior":
      case "ixor":
        return bit(t.op, (Integer) t.a, k[0], k[1]);
      case "min":
        return min(k[0], k[1]);
      case "trip":
        return trip(k[0]);
      case "gt0":
        return gt0(k[0]);
      case "eq0":
        return eq0(k[0]);
      case "not":
        return not(k[0]);
      case "and":
        {
          T r = TRUE;
          for (T x : k) r = and(r, x);
          return r;
        }
      case "or":
        {
          T r = FALSE;
          for (T x : k) r = or(r, x);
          return r;
        }
      case "gamma":
        return gamma(k[0], k[1], k[2]);
      case "isnull":
        return isnull(k[0]);
      case "same":
        return same(k[0], k[1]);
      case "objeq":
        return objEq(k[0], k[1]);
      case "slen":
        return slen(k[0]);
      case "encstr":
        return encstr(k[0], k[1]);
      case "decstr":
        return decstr(k[0], k[1]);
      case "blen":
        if (k[0].is("gamma") || k[0].is("str") || k[0].is("decstr") || slen(k[0]) == ZERO)
          return blen(encstr(k[0], charset(t.a == null ? "UTF-8" : (String) t.a)));
        break;
      case "alen":
        return blen(k[0]);
      case "chars":
        return chars(k[0]);
      case "sub":
        return part(k[0], k[1], k[2]);
      case "bcat":
        return bcat(Arrays.asList(k));
      case "bswap":
        return bswap((Integer) t.a, k[0]);
      case "fbits":
        return fbits((Integer) t.a, k[0]);
      case "bitsf":
        return bitsf((Integer) t.a, k[0]);
      case "size":
        if (k[0].is("this") || !changed) break;
        return k[0].is("fld") || k[0].is("get") ? mk("size", null, k[0]) : size(k[0]);
      case "get":
        if (!changed) break;
        if (k[0].is("fld") || k[0].is("get") || k[0].is("param")) break;
        return lget(k[0], k[1], t.vtype());
      case "psum":
        return psum(t.a, k[0], k[1]);
      case "lcat":
        return lcat(k[0], k[1]);
      case "lsub":
        return lsub(k[0], k[1], k[2]);
      case "lfilter":
        // k = trip, idx, cond, elem
        if (k[2] == TRUE) return lrep(k[0], k[1], k[3]);
        if (k[2] == FALSE || k[0] == ZERO) return mk("lempty", null);
        break;
      case "select":
        return select(k[0], k[1], t.vtype());
      case "lrep":
        return lrep(k[0], k[1], k[2]);
      case "lrev":
        if (k[0] == ZERO) return mk("lempty", null);
        if (k[0] == ONE) return mk("lapp", null, mk("lempty", null), subst(k[2], Map.of(k[1], ZERO)));
        break;
      case "mget":
        return mget(k[0], k[1]);
      case "typed":
        if ("msize:int".equals(t.a)) return msize(k[0]);
        break;
      case "pure":
        return pure((String) t.a, k);
      case "substr":
        return substr(k[0], k[1], k[2]);
      case "charAt":
        return charAt(k[0], k[1]);
      case "scan":
        if (k[0] == ZERO) return ZERO;
        if (k[0] == ONE) return gamma(subst(k[1], Map.of(mk("bv", 0), ZERO)), ONE, ZERO);
        break;
      case "mhas":
        return mhas(k[0], k[1]);
      case "samekey":
        return samekey(k[0], k[1]);
      case "cat":
        {
          T r = str("");
          for (T x : k) r = cat(r, x);
          return r;
        }
      default:
        break;
    }
    return changed ? mk(t.op, t.a, k) : t;
  }

  static T charset(String name) {
    return mk("charset", name);
  }

  // ---------------------------------------------------------------- queries

  boolean any(java.util.function.Predicate<T> p) {
    return any(p, new HashSet<>());
  }

  private boolean any(java.util.function.Predicate<T> p, Set<T> seen) {
    if (!seen.add(this)) return false;
    if (p.test(this)) return true;
    for (T x : k) if (x.any(p, seen)) return true;
    return false;
  }

  boolean has(T x) {
    return any(y -> y == x);
  }

  void each(java.util.function.Consumer<T> c) {
    each(c, new HashSet<>());
  }

  /** the term and everything in it */
  Set<T> all() {
    Set<T> r = new LinkedHashSet<>();
    each(r::add);
    return r;
  }

  private void each(java.util.function.Consumer<T> c, Set<T> seen) {
    if (!seen.add(this)) return;
    c.accept(this);
    for (T x : k) x.each(c, seen);
  }

  @Override
  public String toString() {
    return show(this, 6);
  }

  static String show(T t, int d) {
    if (d == 0) return "..";
    switch (t.op) {
      case "num":
        return String.valueOf(t.a);
      case "str":
        return "\"" + t.a + "\"";
      case "true":
      case "false":
      case "null":
        return t.op;
      case "lin":
        {
          StringBuilder sb = new StringBuilder("(");
          long[] co = ((Coef) t.a).c;
          for (int i = 0; i < t.k.length; i++) {
            long c = co[i + 1];
            sb.append(c < 0 ? "-" : i == 0 ? "" : "+");
            if (Math.abs(c) != 1) sb.append(Math.abs(c)).append("*");
            sb.append(show(t.k[i], d - 1));
          }
          if (co[0] != 0) sb.append(co[0] < 0 ? "" : "+").append(co[0]);
          return sb.append(")").toString();
        }
      case "fld":
        {
          String s = (String) t.a;
          int i = s.lastIndexOf(':');
          s = i < 0 ? s : s.substring(0, i);
          return show(t.k[0], d - 1) + "." + s.substring(s.lastIndexOf('.') + 1);
        }
      case "this":
        return "this";
      case "param":
        {
          String s = (String) t.a;
          int i = s.lastIndexOf(':');
          return i < 0 ? s : s.substring(0, i);
        }
      case "get":
        return show(t.k[0], d - 1) + "[" + show(t.k[1], d - 1) + "]";
      default:
        {
          StringBuilder sb = new StringBuilder(t.op);
          if (t.a != null && !(t.a.toString().isEmpty())) sb.append("<").append(t.a).append(">");
          if (t.k.length > 0) {
            sb.append("(");
            for (int i = 0; i < t.k.length; i++)
              sb.append(i == 0 ? "" : ",").append(show(t.k[i], d - 1));
            sb.append(")");
          }
          return sb.toString();
        }
    }
  }
}
