package wirefx;

import java.util.*;

/**
 * Numbers as routed bits: each of the 64 bits of a term is a constant or one bit, possibly inverted, of an
 * unknown. Putting a number together from its pieces, or taking it apart, is exact here.
 */
final class Bits {
  final T[] atom = new T[64]; // null: constant
  final int[] idx = new int[64]; // bit of the atom, or the constant
  final boolean[] inv = new boolean[64];

  private static final Set<String> OPS = Set.of("shl", "shr", "ushr", "ior", "iand", "ixor", "bswap");

  private static Bits num(long v) {
    Bits b = new Bits();
    for (int i = 0; i < 64; i++) b.idx[i] = (int) (v >>> i & 1);
    return b;
  }

  private void put(int i, Bits o, int j) {
    atom[i] = o.atom[j];
    idx[i] = o.idx[j];
    inv[i] = o.inv[j];
  }

  private void konst(int i, boolean v) {
    atom[i] = null;
    idx[i] = v ? 1 : 0;
    inv[i] = false;
  }

  private boolean is(int i, boolean v) {
    return atom[i] == null && idx[i] == (v ? 1 : 0);
  }

  private boolean same(int i, Bits o, int j) {
    return atom[i] == o.atom[j] && idx[i] == o.idx[j] && inv[i] == o.inv[j];
  }

  private Bits cut(int w, boolean signed) {
    if (w >= 64) return this;
    Bits r = new Bits();
    for (int i = 0; i < 64; i++)
      if (i < w) r.put(i, this, i);
      else if (signed) r.put(i, this, w - 1);
      else r.konst(i, false);
    return r;
  }

  private static Bits atom(T t) {
    Bits b = new Bits();
    long[] r = T.range(t);
    int n = 64;
    boolean signed = true;
    if (r[0] >= 0) {
      signed = false;
      n = 64 - Long.numberOfLeadingZeros(r[1]);
      if (r[1] >= T.INF) n = 64;
    } else if (r[0] > -T.INF && r[1] < T.INF) n = 65 - Math.min(Long.numberOfLeadingZeros(~r[0]), r[1] < 0 ? 64 : Long.numberOfLeadingZeros(r[1]));
    for (int i = 0; i < 64; i++) {
      b.atom[i] = t;
      b.idx[i] = i;
    }
    return n == 0 ? num(0) : b.cut(n, signed);
  }

  static Bits of(T t) {
    if (t.isNum()) return num(t.n());
    switch (t.op) {
      case "ext":
        {
          Bits b = of(t.k[0]);
          return b == null ? null : b.cut(Sums.width(t), Sums.signed(t));
        }
      case "shl":
      case "shr":
      case "ushr":
        {
          if (!t.k[1].isNum()) return null;
          int w = Sums.width(t), n = (int) (t.k[1].n() & (w - 1));
          Bits x = of(t.k[0]);
          if (x == null) return null;
          x = x.cut(w, !t.is("ushr"));
          Bits r = new Bits();
          for (int i = 0; i < 64; i++)
            if (t.is("shl")) {
              if (i < n) r.konst(i, false);
              else r.put(i, x, i - n);
            } else if (i + n < 64) r.put(i, x, i + n);
            else if (t.is("shr")) r.put(i, x, 63);
            else r.konst(i, false);
          return r.cut(w, !(t.is("ushr") && n > 0));
        }
      case "ior":
      case "iand":
      case "ixor":
        {
          Bits r = null;
          for (T k : t.k) {
            Bits x = of(k);
            if (x == null) return null;
            r = r == null ? x : join(t.op, r, x);
            if (r == null) return null;
          }
          return r;
        }
      case "lin":
        {
          Bits r = num(T.konst(t));
          if (T.konst(t) < 0) return null;
          for (T a : t.k) {
            long f = T.coef(t, a);
            if (f <= 0 || Long.bitCount(f) != 1) return null;
            int n = Long.numberOfTrailingZeros(f);
            Bits x = of(a);
            if (x == null) return null;
            Bits s = new Bits();
            for (int i = 0; i < 64; i++)
              if (i < n) s.konst(i, false);
              else s.put(i, x, i - n);
            // no bit of both: the sum has no carries
            for (int i = 0; i < 64; i++)
              if (s.is(i, false)) s.put(i, r, i);
              else if (!r.is(i, false)) return null;
            r = s;
          }
          return r;
        }
      case "bswap":
        {
          int w = (Integer) t.a;
          Bits x = of(t.k[0]);
          if (x == null) return null;
          Bits r = new Bits();
          for (int i = 0; i < 64; i++) {
            if (i < w) r.put(i, x, (w / 8 - 1 - i / 8) * 8 + i % 8);
            else r.put(i, r, w - 1);
          }
          return r;
        }
      case "gamma":
        return null;
      default:
        return t.intLike() ? atom(t) : null;
    }
  }

  private static Bits join(String op, Bits x, Bits y) {
    Bits r = new Bits();
    for (int i = 0; i < 64; i++) {
      boolean eq = x.same(i, y, i);
      if (x.atom[i] == null || y.atom[i] == null) {
        Bits k = x.atom[i] == null ? x : y, o = k == x ? y : x;
        boolean one = k.idx[i] == 1;
        if (op.equals("iand")) {
          if (one) r.put(i, o, i);
          else r.konst(i, false);
        } else if (op.equals("ior")) {
          if (one) r.konst(i, true);
          else r.put(i, o, i);
        } else {
          r.put(i, o, i);
          if (one) {
            if (r.atom[i] == null) r.idx[i] ^= 1;
            else r.inv[i] = !r.inv[i];
          }
        }
      } else if (eq) {
        if (op.equals("ixor")) r.konst(i, false);
        else r.put(i, x, i);
      } else return null;
    }
    return r;
  }

  /** the term these bits are, when they are one unknown, cut or whole */
  T back(int w) {
    boolean allConst = true;
    long v = 0;
    for (int i = 0; i < 64; i++) {
      allConst &= atom[i] == null;
      if (atom[i] == null) v |= (long) idx[i] << i;
    }
    if (allConst) return T.num(v);
    T a = atom[0];
    if (a == null || idx[0] != 0) return null;
    Bits own = atom(a);
    boolean neg = inv[0];
    int n = 0;
    while (n < 64 && atom[n] == a && idx[n] == own.idx[n] && own.atom[n] == a && inv[n] == neg) n++;
    if (n == 64) return neg ? T.sub(T.num(-1), a) : a;
    if (neg || n == 0) return null;
    boolean zero = true, sign = true;
    for (int i = n; i < 64; i++) {
      zero &= is(i, false);
      sign &= same(i, this, n - 1);
    }
    // the unknown itself may end in zeros
    if (zero && own.cut(n, false).equal(own)) return a;
    if (zero) return T.ext(n, false, a);
    if (sign) return T.ext(n, true, a);
    return null;
  }

  private boolean equal(Bits o) {
    for (int i = 0; i < 64; i++) if (!same(i, o, i)) return false;
    return true;
  }

  /** puts together what was taken apart, anywhere in a term */
  static T simp(T t) {
    if (t == null || !t.any(x -> OPS.contains(x.op))) return t;
    return new T.Rebuild(
            x -> {
              if (!OPS.contains(x.op) && !(x.is("ext") || x.is("lin")) || !x.any(y -> OPS.contains(y.op))) return null;
              Bits b = of(x);
              T r = b == null ? null : b.back(64);
              return r == x ? null : r;
            })
        .go(t);
  }

  /** the number of w bits whose bytes, most significant first, are these pieces of the given widths */
  static T glue(List<T> pieces, List<Integer> widths, int w) {
    Bits r = num(0);
    int at = w;
    for (int k = 0; k < pieces.size(); k++) {
      Bits x = of(pieces.get(k));
      if (x == null) return null;
      at -= widths.get(k);
      for (int i = 0; i < widths.get(k); i++) r.put(at + i, x, i);
    }
    boolean fixed = true;
    long c = 0;
    for (int i = 0; i < w; i++) {
      fixed &= r.atom[i] == null;
      c |= (long) (r.idx[i] & 1) << i;
    }
    if (fixed) return T.num(w == 64 ? c : c << 64 - w >> 64 - w);
    // all of one unknown, bit by bit
    T a = r.atom[0];
    if (a == null || r.idx[0] != 0) return null;
    Bits own = atom(a);
    for (int i = 0; i < w; i++) if (r.inv[i] || !r.same(i, own, i)) return null;
    return a;
  }
}
