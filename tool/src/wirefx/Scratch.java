package wirefx;

import java.util.*;

/**
 * Buffers a method makes for itself: what is written to one and then copied as a whole to another
 * buffer is the same as if it had been written there at once.
 */
final class Scratch {
  final Lib lib;

  Scratch(Lib lib) {
    this.lib = lib;
  }

  static boolean is(T b) {
    return b != null && b.is("new") && ((String) b.a).startsWith("io.netty.buffer.ByteBuf#");
  }

  private T of(Eff e) {
    if (e.buf == null) return null;
    T r = lib.root(e.buf);
    return is(r) ? r : null;
  }

  List<Eff> process(List<Eff> tr, St st, T[] ret) {
    if (!Eff.anyOf(tr, e -> of(e) != null || e.is("COPYBUF"))) return tr;
    List<Eff> l = expand(tr, List.of());
    // sizes measured by encoding into a buffer that is thrown away
    Map<T, T> sub = new HashMap<>();
    Map<T, T> enc = new HashMap<>();
    Set<T> moved = new HashSet<>();
    Eff.walk(l, e -> {
      if (e.is("ENC") && of(e) == null) {
        enc.putIfAbsent(e.obj, e.res);
        moved.add(e.res);
      }
    });
    Eff.walk(l, e -> {
      if (e.is("ENC") && of(e) != null && !moved.contains(e.res) && enc.containsKey(e.obj)) sub.put(e.res, enc.get(e.obj));
    });
    l = drop(l);
    if (!sub.isEmpty()) {
      l = subst(l, sub);
      for (Map.Entry<T, T> c : new ArrayList<>(st.cells.entrySet())) st.cells.put(c.getKey(), T.subst(c.getValue(), sub));
      if (ret[0] != null) ret[0] = T.subst(ret[0], sub);
    }
    return l;
  }

  private List<Eff> expand(List<Eff> tr, List<Eff> before) {
    List<Eff> r = new ArrayList<>();
    for (Eff e : tr) {
      if (e.is("COPYBUF")) {
        List<Eff> prior = new ArrayList<>(before);
        prior.addAll(r);
        List<Eff> body = extract(prior, e.obj, e.buf, e.pos0);
        if (body != null) r.addAll(body);
        else {
          Eff u = new Eff("UNK", e.pos);
          u.name = "copy of a buffer";
          u.buf = e.buf;
          r.add(u);
        }
      } else if (!e.a.isEmpty() || !e.b.isEmpty() || !e.handlers.isEmpty()) {
        List<Eff> prior = new ArrayList<>(before);
        prior.addAll(r);
        Eff c = e.copy();
        c.a = expand(e.a, prior);
        c.b = expand(e.b, prior);
        c.handlers = new ArrayList<>();
        for (Eff.Handler h : e.handlers) {
          List<Eff> p2 = new ArrayList<>(prior);
          c.handlers.add(with(h, expand(h.body, p2)));
        }
        r.add(c);
      } else r.add(e);
    }
    return r;
  }

  private static Eff.Handler with(Eff.Handler h, List<Eff> body) {
    Eff.Handler q = new Eff.Handler();
    q.types = h.types;
    q.body = body;
    q.rethrows = h.rethrows;
    q.pos = h.pos;
    q.throwsTypes = h.throwsTypes;
    return q;
  }

  /** what was written to src so far, as written to dst from base on; null when it is not only written */
  private List<Eff> extract(List<Eff> l, T src, T dst, T base) {
    List<Eff> r = new ArrayList<>();
    for (Eff e : l) {
      if (e.buf != null && lib.root(e.buf) == src) {
        switch (e.kind) {
          case "W":
          case "WB":
          case "WFIX":
          case "ENC":
          case "SETAT":
          case "CALC":
            {
              Eff c = e.copy();
              c.pos0 = T.add(lib.abs(e.buf, e.pos0), base);
              c.buf = dst;
              r.add(c);
              continue;
            }
          case "SEEK":
            if ("w".equals(e.name)) {
              Eff c = e.copy();
              c.pos0 = T.add(lib.abs(e.buf, e.pos0), base);
              c.val = T.add(lib.abs(e.buf, e.val), base);
              c.buf = dst;
              r.add(c);
              continue;
            }
            if ("r".equals(e.name)) continue;
            return null;
          case "RB":
          case "SKIP":
            continue;
          case "BUFOP":
            if ("release".equals(e.name) || "retain".equals(e.name)) continue;
            return null;
          default:
            return null;
        }
      }
      if (e.a.isEmpty() && e.b.isEmpty() && e.handlers.isEmpty()) continue;
      List<Eff> a = extract(e.a, src, dst, base), b = extract(e.b, src, dst, base);
      if (a == null || b == null) return null;
      for (Eff.Handler h : e.handlers) {
        List<Eff> hb = extract(h.body, src, dst, base);
        if (hb == null || !hb.isEmpty()) return null;
      }
      if (a.isEmpty() && b.isEmpty()) continue;
      if (e.is("TRY")) {
        r.addAll(a);
        continue;
      }
      Eff c = e.copy();
      c.a = a;
      c.b = b;
      r.add(c);
    }
    return r;
  }

  private List<Eff> drop(List<Eff> l) {
    List<Eff> r = new ArrayList<>();
    for (Eff e : l) {
      if (of(e) != null && !e.is("UNK")) continue;
      if (e.a.isEmpty() && e.b.isEmpty() && e.handlers.isEmpty()) {
        r.add(e);
        continue;
      }
      Eff c = e.copy();
      c.a = drop(e.a);
      c.b = drop(e.b);
      c.handlers = new ArrayList<>();
      for (Eff.Handler h : e.handlers) c.handlers.add(with(h, drop(h.body)));
      if (c.a.isEmpty() && c.b.isEmpty() && (e.is("CHO") || e.is("REP") || e.is("TRY"))) continue;
      r.add(c);
    }
    return r;
  }

  private List<Eff> subst(List<Eff> l, Map<T, T> m) {
    List<Eff> r = new ArrayList<>();
    for (Eff e : l) {
      Eff c = e.copy();
      c.val = s(e.val, m);
      c.len = s(e.len, m);
      c.res = e.res;
      c.pos0 = s(e.pos0, m);
      c.cond = s(e.cond, m);
      c.obj = s(e.obj, m);
      c.trip = s(e.trip, m);
      c.a = subst(e.a, m);
      c.b = subst(e.b, m);
      c.handlers = new ArrayList<>();
      for (Eff.Handler h : e.handlers) c.handlers.add(with(h, subst(h.body, m)));
      r.add(c);
    }
    return r;
  }

  private static T s(T t, Map<T, T> m) {
    return t == null ? null : T.subst(t, m);
  }
}
