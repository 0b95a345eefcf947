package wirefx;

import java.util.*;
import java.util.function.Function;

/**
 * A symbolic scenario: which of a message's text and list fields are null, empty or non-empty, and
 * which further conditions are assumed. Terms and effects are specialised under it.
 */
final class Scn {
  final String label;
  final HashMap<T, T> map = new HashMap<>();
  final List<Function<T, T>> rules = new ArrayList<>();
  final HashMap<T, long[]> facts = new HashMap<>();
  final HashSet<T> nonnull = new HashSet<>();
  T.Rebuild memo;

  Scn(Scn o, String label) {
    this.label = label;
    if (o != null) {
      map.putAll(o.map);
      rules.addAll(o.rules);
      facts.putAll(o.facts);
      nonnull.addAll(o.nonnull);
    }
  }

  /** makes this the scenario under which the term constructors simplify */
  void enter() {
    T.FACTS = facts;
    T.NONNULL = nonnull;
    memo = new T.Rebuild(this::f);
  }

  static void leave() {
    T.FACTS = new HashMap<>();
    T.NONNULL = new HashSet<>();
  }

  T f(T t) {
    T r = map.get(t);
    if (r != null) return r;
    for (Function<T, T> g : rules) {
      r = g.apply(t);
      if (r != null) return r;
    }
    return null;
  }

  T spec(T t) {
    if (memo == null) memo = new T.Rebuild(this::f);
    return t == null ? null : memo.go(t);
  }

  void fact(T t, long lo, long hi) {
    long[] o = facts.get(t);
    T.forget();
    facts.put(t, o == null ? new long[] {lo, hi} : new long[] {Math.max(o[0], lo), Math.min(o[1], hi)});
  }

  /** adds a condition to what is assumed */
  void assume(T c, boolean v) {
    if (!v) {
      T n = T.not(c);
      if (n.is("not")) {
        map.put(c, T.FALSE);
        map.put(n, T.TRUE);
        refine(c, false);
        return;
      }
      c = n;
    }
    if (c.is("and")) {
      for (T x : c.k) assume(x, true);
      return;
    }
    map.put(c, T.TRUE);
    map.put(T.not(c), T.FALSE);
    refine(c, true);
  }

  private void refine(T c, boolean v) {
    if (c.is("not")) {
      refine(c.k[0], !v);
      return;
    }
    if (c.is("isnull")) {
      if (v) map.put(c.k[0], T.NULL);
      else nonnull.add(c.k[0]);
      return;
    }
    boolean gt = c.is("gt0"), eq = c.is("eq0");
    if (!gt && !eq) return;
    T x = c.k[0];
    T atom = x;
    long k = 0, f = 1;
    if (x.is("lin")) {
      if (eq && v && x.k.length == 2) {
        // one of two equal numbers stands for both
        T a = x.k[0], b = x.k[1];
        if (Math.abs(T.coef(x, a)) == 1 && T.coef(x, a) == -T.coef(x, b) && !a.has(b) && !b.has(a)) map.put(a, T.add(b, T.num(-T.konst(x) * T.coef(x, a))));
        return;
      }
      if (x.k.length != 1) return;
      atom = x.k[0];
      k = T.konst(x);
      f = T.coef(x, atom);
    }
    if (f != 1 && f != -1) return;
    if (eq && v) {
      map.put(atom, T.num(f == 1 ? -k : k));
      return;
    }
    long lo = -T.INF, hi = T.INF;
    if (gt) {
      // f*a + k > 0 (v) or <= 0
      if (f == 1) {
        if (v) lo = 1 - k;
        else hi = -k;
      } else {
        if (v) hi = k - 1;
        else lo = k;
      }
      fact(atom, lo, hi);
    } else {
      // a != n: only useful at the ends of the range
      long n = f == 1 ? -k : k;
      long[] r = T.range(atom);
      if (r[0] == n) fact(atom, n + 1, T.INF);
      else if (r[1] == n) fact(atom, -T.INF, n - 1);
    }
  }
}
