package wirefx;

import java.util.*;

/** the checksum classes of java.util.zip, as the recurrences their documentation names */
final class Zips {
  private Zips() {}

  private static final Map<String, Long> POLY = Map.of("java.util.zip.CRC32", 0xEDB88320L, "java.util.zip.CRC32C", 0x82F63B78L);
  private static final Map<String, T> TABLES = new HashMap<>();

  static boolean is(String c) {
    return c != null && (POLY.containsKey(c) || c.equals("java.util.zip.Adler32"));
  }

  private static T cell(String f, T o) {
    return T.mk("heap", "java.util.zip." + f + ":int", o);
  }

  static void reset(Eval ev, String c, T o, St st, String pos) {
    if (POLY.containsKey(c)) st.cells.put(cell("state", o), T.num(-1));
    else {
      st.cells.put(cell("a", o), T.ONE);
      st.cells.put(cell("b", o), T.ZERO);
    }
  }

  private static T table(String c) {
    return TABLES.computeIfAbsent(c, x -> {
      T[] k = new T[256];
      for (int i = 0; i < 256; i++) {
        int s = i;
        for (int j = 0; j < 8; j++) s = (s & 1) != 0 ? s >>> 1 ^ (int) (long) POLY.get(c) : s >>> 1;
        k[i] = T.num(s);
      }
      return T.mk("alit", null, k);
    });
  }

  private static T[] step(String c, T[] s, T b) {
    T low = T.bit("iand", 32, b, T.num(255));
    if (POLY.containsKey(c))
      return new T[] {
        T.bit("ixor", 32, T.bit("ushr", 32, s[0], T.num(8)), T.select(table(c), T.bit("iand", 32, T.bit("ixor", 32, s[0], b), T.num(255)), "int"))
      };
    T a = T.rem(T.add(s[0], low), T.num(65521));
    return new T[] {a, T.rem(T.add(s[1], a), T.num(65521))};
  }

  static T call(Eval ev, String c, String n, T o, T[] av, com.sun.tools.javac.tree.JCTree.JCExpression e, St st, String pos) {
    List<T> cells = POLY.containsKey(c) ? List.of(cell("state", o)) : List.of(cell("a", o), cell("b", o));
    List<T> init = new ArrayList<>();
    for (T x : cells) {
      T v = st.cells.get(x);
      if (v == null) return null;
      init.add(v);
    }
    switch (n) {
      case "reset":
        reset(ev, c, o, st, pos);
        return T.UNIT;
      case "getValue":
        if (cells.size() == 1) return T.ext(32, false, T.bit("ixor", 32, init.get(0), T.num(-1)));
        return T.add(T.scale(init.get(1), 65536), init.get(0));
      case "update":
        {
          if (av.length == 0) return null;
          T bytes, from, len;
          if (av[0].is("nio") && av.length == 1) {
            bytes = null;
            from = av[0].k[1];
            len = av[0].k[2];
          } else if (av.length == 1 && isNumber(e)) {
            T[] s = step(c, init.toArray(new T[0]), av[0]);
            for (int i = 0; i < s.length; i++) st.cells.put(cells.get(i), s[i]);
            return T.UNIT;
          } else {
            bytes = av[0].is("backing") ? av[0] : ev.content(st, "arr", av[0]);
            from = av.length == 3 ? av[1] : T.ZERO;
            len = av.length == 3 ? av[2] : T.blen(bytes);
            if (len == null || av.length == 2) return null;
          }
          int id = T.freshId();
          Eval.LoopInfo li = new Eval.LoopInfo();
          li.id = id;
          li.idx = T.mk("idx", id);
          li.trip = len;
          li.pos = pos;
          li.cond = T.lt(li.idx, len);
          List<T> phis = new ArrayList<>();
          for (int i = 0; i < cells.size(); i++) phis.add(T.mk("phi", id + "." + i + ".heap:int"));
          T at = T.add(from, li.idx);
          T b = bytes == null ? T.ext(8, true, T.mk("getb", null, Lib.root(av[0].k[0]), Lib.abs(av[0].k[0], at))) : ev.aselect(bytes, at, "byte");
          T[] s = step(c, phis.toArray(new T[0]), b);
          li.cells.addAll(cells);
          li.phis.addAll(phis);
          li.inits.addAll(init);
          li.steps.addAll(Arrays.asList(s));
          ev.loops.put("" + id, li);
          T[] k = new T[1 + init.size()];
          k[0] = len;
          for (int i = 0; i < init.size(); i++) k[i + 1] = init.get(i);
          for (int i = 0; i < cells.size(); i++) st.cells.put(cells.get(i), T.mk("fold", id + "." + i, k));
          return T.UNIT;
        }
      default:
        return null;
    }
  }

  private static boolean isNumber(com.sun.tools.javac.tree.JCTree.JCExpression e) {
    if (!(e instanceof com.sun.tools.javac.tree.JCTree.JCMethodInvocation)) return false;
    com.sun.tools.javac.code.Type t = ((com.sun.tools.javac.tree.JCTree.JCMethodInvocation) e).args.head.type;
    return t != null && t.isNumeric();
  }
}
