package wirefx;

import java.util.*;

/**
 * Numbers as 64 bits, each a boolean function of unknown bits in canonical form (ordered decision
 * diagrams), for terms made of masks, shifts, comparisons and choices.
 */
final class Bools {
  static final class Fn {
    final int var;
    final Fn lo, hi;
    final int id;

    Fn(int var, Fn lo, Fn hi, int id) {
      this.var = var;
      this.lo = lo;
      this.hi = hi;
      this.id = id;
    }
  }

  private record Key(int v, int lo, int hi) {}

  private final Map<Key, Fn> nodes = new HashMap<>();
  private final Map<Key, Fn> memo = new HashMap<>();
  private int next = 2;
  static final int MAX = 200000;
  final Fn O = new Fn(Integer.MAX_VALUE, null, null, 0), I = new Fn(Integer.MAX_VALUE, null, null, 1);

  private Fn node(int v, Fn lo, Fn hi) {
    if (lo == hi) return lo;
    if (next > MAX) throw new Sums.Out("too many cases");
    return nodes.computeIfAbsent(new Key(v, lo.id, hi.id), k -> new Fn(v, lo, hi, next++));
  }

  Fn var(int v) {
    return node(v, O, I);
  }

  Fn ite(Fn c, Fn a, Fn b) {
    if (c == I || a == b) return a;
    if (c == O) return b;
    if (a == I && b == O) return c;
    Key k = new Key(c.id, a.id, b.id);
    Fn m = memo.get(k);
    if (m != null) return m;
    int v = Math.min(c.var, Math.min(a.var, b.var));
    m = node(v, ite(c.var == v ? c.lo : c, a.var == v ? a.lo : a, b.var == v ? b.lo : b), ite(c.var == v ? c.hi : c, a.var == v ? a.hi : a, b.var == v ? b.hi : b));
    memo.put(k, m);
    return m;
  }

  Fn not(Fn x) {
    return ite(x, O, I);
  }

  Fn and(Fn x, Fn y) {
    return ite(x, y, O);
  }

  Fn or(Fn x, Fn y) {
    return ite(x, I, y);
  }

  Fn xor(Fn x, Fn y) {
    return ite(x, not(y), y);
  }

  boolean konst(Fn x) {
    return x == O || x == I;
  }

  Fn[] num(long v) {
    Fn[] r = new Fn[64];
    for (int i = 0; i < 64; i++) r[i] = (v >>> i & 1) != 0 ? I : O;
    return r;
  }

  Fn[] cut(Fn[] x, int w, boolean signed) {
    if (w >= 64) return x;
    Fn[] r = new Fn[64];
    for (int i = 0; i < 64; i++) r[i] = i < w ? x[i] : signed ? x[w - 1] : O;
    return r;
  }

  Fn[] add(Fn[] x, Fn[] y) {
    Fn[] r = new Fn[64];
    Fn c = O;
    for (int i = 0; i < 64; i++) {
      Fn h = xor(x[i], y[i]);
      r[i] = xor(h, c);
      c = or(and(x[i], y[i]), and(h, c));
    }
    return r;
  }

  Fn[] neg(Fn[] x) {
    Fn[] n = new Fn[64];
    for (int i = 0; i < 64; i++) n[i] = not(x[i]);
    return add(n, num(1));
  }

  Fn[] mul(Fn[] x, long f) {
    if (f < 0) return neg(mul(x, -f));
    Fn[] s = num(0);
    for (int b = 0; b < 63; b++) {
      if ((f >>> b & 1) == 0) continue;
      Fn[] z = new Fn[64];
      for (int j = 0; j < 64; j++) z[j] = j < b ? O : x[j - b];
      s = add(s, z);
    }
    return s;
  }

  boolean isConst(Fn[] x) {
    for (Fn b : x) if (!konst(b)) return false;
    return true;
  }

  long value(Fn[] x) {
    long v = 0;
    for (int i = 0; i < 64; i++) if (x[i] == I) v |= 1L << i;
    return v;
  }

  /** values of terms, given the bits of some of them */
  final class Val {
    final Map<T, Fn[]> vars;
    final Map<T, Fn[]> memo = new HashMap<>();
    final Eval ev;

    Val(Eval ev, Map<T, Fn[]> vars) {
      this.ev = ev;
      this.vars = vars;
    }

    Fn[] of(T t) {
      Fn[] m = memo.get(t);
      if (m == null) memo.put(t, m = of0(t));
      return m;
    }

    private Fn[] of0(T t) {
      Fn[] v = vars.get(t);
      if (v != null) return v;
      if (t.boolLike()) {
        Fn[] z = num(0);
        z[0] = cond(t);
        return z;
      }
      if (t.isNum()) return num(t.n());
      switch (t.op) {
        case "ext":
          return cut(of(t.k[0]), Sums.width(t), Sums.signed(t));
        case "ixor":
        case "iand":
        case "ior":
          {
            Fn[] x = of(t.k[0]);
            for (int i = 1; i < t.k.length; i++) {
              Fn[] y = of(t.k[i]), z = new Fn[64];
              for (int j = 0; j < 64; j++) z[j] = t.is("ixor") ? xor(x[j], y[j]) : t.is("iand") ? and(x[j], y[j]) : or(x[j], y[j]);
              x = z;
            }
            return cut(x, Sums.width(t), true);
          }
        case "shl":
        case "shr":
        case "ushr":
          {
            int w = Sums.width(t);
            Fn[] x = cut(of(t.k[0]), w, !t.is("ushr")), z = new Fn[64], by = of(t.k[1]);
            if (!isConst(by)) throw new Sums.Out("shift by " + t.k[1]);
            int n = (int) (value(by) & (w - 1));
            if (t.is("shl")) for (int j = 0; j < 64; j++) z[j] = j < n ? O : x[j - n];
            else for (int j = 0; j < 64; j++) z[j] = j + n < 64 ? x[j + n] : t.is("ushr") ? O : x[63];
            return cut(z, w, !(t.is("ushr") && n > 0));
          }
        case "lin":
          {
            Fn[] s = num(T.konst(t));
            for (T a : t.k) s = add(s, mul(of(a), T.coef(t, a)));
            return s;
          }
        case "min":
          {
            Fn[] x = of(t.k[0]), y = of(t.k[1]);
            return pick(negative(add(x, neg(y))), x, y);
          }
        case "div":
        case "rem":
          {
            Fn[] x = of(t.k[0]), d = of(t.k[1]);
            if (!isConst(d) || Long.bitCount(value(d)) != 1 || value(d) < 0 || x[63] != O) throw new Sums.Out("division " + t);
            int n = Long.numberOfTrailingZeros(value(d));
            if (t.is("rem")) return cut(x, n, false);
            Fn[] z = new Fn[64];
            for (int j = 0; j < 64; j++) z[j] = j + n < 64 ? x[j + n] : O;
            return z;
          }
        case "gamma":
          return pick(cond(t.k[0]), of(t.k[1]), of(t.k[2]));
        case "select":
          {
            Fn[] ix = of(t.k[1]);
            if (!isConst(ix)) throw new Sums.Out("index " + t.k[1]);
            T e = ev.aselect(t.k[0], T.num(value(ix)), t.vtype());
            if (e == t || e.is("select")) throw new Sums.Out("table entry " + t);
            return of(e);
          }
        default:
          throw new Sums.Out("term " + t);
      }
    }

    private Fn[] pick(Fn c, Fn[] x, Fn[] y) {
      Fn[] z = new Fn[64];
      for (int j = 0; j < 64; j++) z[j] = ite(c, x[j], y[j]);
      return z;
    }

    private Fn negative(Fn[] x) {
      return x[63];
    }

    private Fn some(Fn[] x) {
      Fn o = O;
      for (int j = 63; j >= 0; j--) o = or(x[j], o);
      return o;
    }

    Fn cond(T c) {
      Fn r;
      Fn[] own = vars.get(c);
      if (own != null) return own[0];
      switch (c.op) {
        case "true":
          return I;
        case "false":
          return O;
        case "not":
          return not(cond(c.k[0]));
        case "and":
          r = I;
          for (T x : c.k) r = and(r, cond(x));
          return r;
        case "or":
          r = O;
          for (T x : c.k) r = or(r, cond(x));
          return r;
        case "gamma":
          return ite(cond(c.k[0]), cond(c.k[1]), cond(c.k[2]));
        case "eq0":
          return not(some(of(c.k[0])));
        case "gt0":
          {
            T t = c.k[0];
            if (t.is("lin") && t.k.length == 1) {
              // comparisons with zero do not wrap
              long[] co = ((T.Coef) t.a).c;
              if (co[1] == -1 && co[0] == 0) return negative(of(t.k[0]));
              if (co[1] == -1 && co[0] == 1) {
                Fn[] y = of(t.k[0]);
                return or(negative(y), not(some(y)));
              }
              if (co[1] == 1 && co[0] == 1) return not(negative(of(t.k[0])));
            }
            Fn[] x = of(t);
            return and(not(negative(x)), some(x));
          }
        default:
          throw new Sums.Out("condition " + c);
      }
    }
  }
}
