package wirefx;

import java.util.*;

/**
 * Constant propagation through the loops of a checksum: what the terms of the analysis come to when
 * the readable bytes are given numbers. Used to refute what the affine domain cannot express.
 */
final class Folds {
  /** the terms do not come to a number */
  static final class Stuck extends RuntimeException {
    Stuck(String m) {
      super(m, null, false, false);
    }
  }

  /** a failure at run time that the numbers lead to */
  static final class Fails extends RuntimeException {
    Fails(String m) {
      super(m, null, false, false);
    }
  }

  static final int START = 5; // where the content begins in the buffer

  final Eval ev;
  final T buf;
  final int[] content;
  final Map<T, T> at = new HashMap<>(); // positions of the reads that move the reader
  final Map<T, T> given = new HashMap<>();
  int steps;

  Folds(Eval ev, T buf, int[] content, List<Eff> tr) {
    this.ev = ev;
    this.buf = buf;
    this.content = content;
    Eff.walk(tr, e -> {
      if (e.is("RD") && e.width == 8 && e.buf != null && Lib.root(e.buf) == buf) at.put(e.res, Lib.abs(e.buf, e.pos0));
    });
    given.put(T.mk("avail", null, buf), T.num(content.length));
    given.put(T.mk("cursor0", "r", buf), T.num(START));
  }

  long number(T t) {
    T v = go(t, Map.of());
    if (!v.isNum()) throw new Stuck("" + v);
    return v.n();
  }

  T go(T t, Map<T, T> env) {
    return new T.Rebuild(x -> one(x, env)).go(t);
  }

  private T one(T x, Map<T, T> env) {
    T v = env.get(x);
    if (v != null) return v;
    v = given.get(x);
    if (v != null) return v;
    if (x.is("getb") && x.k[0] == buf) return read(go(x.k[1], env));
    if (x.is("rd") && at.containsKey(x)) return read(go(at.get(x), env));
    if (x.is("fold")) return fold(x, env);
    if (x.is("psum")) {
      Eval.LoopInfo li = ev.loops.get(((String) x.a).substring(1));
      T n = go(x.k[1], env), s = T.ZERO;
      if (li == null || !n.isNum()) throw new Stuck("" + n);
      for (long i = 0; i < n.n(); i++) s = T.add(s, go(x.k[0], with(env, li.idx, T.num(i))));
      return s;
    }
    if (x.is("last")) throw new Stuck("last");
    if (x.is("select")) {
      T i = go(x.k[1], env);
      if (!i.isNum()) return null;
      T n = x.k[0].is("alit") || x.k[0].is("bfill") ? T.blen(x.k[0]) : null;
      if (n != null && n.isNum() && (i.n() < 0 || i.n() >= n.n())) throw new Fails("the index " + i + " is outside the table");
      return ev.aselect(n != null ? x.k[0] : go(x.k[0], env), i, x.vtype());
    }
    return null;
  }

  private static Map<T, T> with(Map<T, T> m, T k, T v) {
    Map<T, T> r = new HashMap<>(m);
    r.put(k, v);
    return r;
  }

  private T read(T p) {
    if (!p.isNum()) throw new Stuck("position " + p);
    long i = p.n() - START;
    if (i < 0) throw new Stuck("a byte before the content");
    if (i >= content.length) throw new Fails("reads byte " + i + " of " + content.length);
    return T.num(content[(int) i]);
  }

  private T fold(T x, Map<T, T> env) {
    String a = (String) x.a;
    int dot = a.indexOf('.');
    Eval.LoopInfo li = ev.loops.get(a.substring(0, dot));
    if (li == null) throw new Stuck("loop");
    T n = go(x.k[0], env);
    if (!n.isNum()) throw new Stuck("rounds " + n);
    List<T> s = new ArrayList<>();
    for (int i = 0; i < li.phis.size(); i++) s.add(go(x.k[i + 1], env));
    for (long r = 0; r < n.n(); r++) {
      if (++steps > 4000) throw new Stuck("too long");
      Map<T, T> in = new HashMap<>(env);
      in.put(li.idx, T.num(r));
      for (int i = 0; i < s.size(); i++) in.put(li.phis.get(i), s.get(i));
      List<T> z = new ArrayList<>();
      for (int i = 0; i < s.size(); i++) z.add(go(li.steps.get(i), in));
      s = z;
    }
    T key = null;
    int j = Integer.parseInt(a.substring(dot + 1));
    if (j >= 0 && j < li.cells.size()) key = li.cells.get(j);
    if (key == null) throw new Stuck("value");
    return s.get(j);
  }
}
