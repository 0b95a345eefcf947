package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.nio.file.*;
import java.util.*;
import java.util.regex.*;

/** Which class a type code stands for: tables left by the static initialisers, and the factories. */
final class Dispatch {
  /** one dispatching decoder: the nested field, the field holding the code, code to class */
  static final class Table {
    String msg, field, by;
    int no;
    final Map<T, String> classes = new LinkedHashMap<>();
  }

  /** a frame: header, body, trailer */
  static final class Frame {
    String msg, code, body, length, checksum, algorithm;
  }

  final Ctx cx;

  Dispatch(Ctx cx) {
    this.cx = cx;
  }

  // ------------------------------------------------------------------ spec

  static List<Table> tables(Path f) throws Exception {
    List<Table> r = new ArrayList<>();
    Table t = null;
    int no = 0;
    for (String l : Files.readAllLines(f)) {
      no++;
      if (l.isBlank() || l.startsWith("#")) continue;
      if (l.startsWith("dispatch ")) {
        String[] w = l.split("\\s+");
        t = new Table();
        t.msg = w[1];
        t.field = w[2];
        t.by = w[4];
        t.no = no;
        r.add(t);
      } else if (t != null && l.startsWith("  ")) {
        String[] w = l.trim().split(" -> ");
        t.classes.put(code(w[0]), w[1]);
      }
    }
    return r;
  }

  static T code(String s) {
    return s.startsWith("\"") ? T.str(s.substring(1, s.length() - 1)) : T.num(Long.parseLong(s));
  }

  static List<Frame> frames(Path f) throws Exception {
    List<Frame> r = new ArrayList<>();
    for (String l : Files.readAllLines(f)) {
      if (!l.startsWith("frame ")) continue;
      String[] w = l.split("\\s+");
      Frame x = new Frame();
      x.msg = w[1];
      for (int i = 2; i + 1 < w.length; i += 2)
        switch (w[i]) {
          case "code":
            x.code = w[i + 1];
            break;
          case "body":
            x.body = w[i + 1];
            break;
          case "length":
            x.length = w[i + 1];
            break;
          case "checksum":
            x.checksum = w[i + 1];
            break;
          case "algorithm":
            x.algorithm = w[i + 1];
            break;
          default:
            throw new IllegalStateException("frames: " + l);
        }
      r.add(x);
    }
    return r;
  }

  VarSymbol field(Ctx.Msg m, String prop) {
    for (VarSymbol f : m.fields) if (m.prop.get(f).equals(prop)) return f;
    return null;
  }

  private final Map<String, ClassSymbol> byName = new HashMap<>();

  Ctx.Msg msg(String name) {
    if (byName.isEmpty()) for (ClassSymbol c : cx.p.messages()) byName.put(c.flatName().toString(), c);
    ClassSymbol c = byName.get(name);
    return c == null ? null : cx.msg(c);
  }

  // ------------------------------------------------------------------ tables in the code

  /** map contents left by the static initialisers */
  T initial(T t) {
    return new T.Rebuild(
            x -> {
              if (!x.is("map0")) return null;
              T c = cx.ev.sw.cells.get(T.mk("map", null, x.k[0]));
              return c == null ? null : c;
            })
        .go(t);
  }

  static void keys(T map, Set<T> out) {
    keys(map, out, new HashSet<>());
  }

  private static void keys(T map, Set<T> out, Set<T> seen) {
    if (!seen.add(map)) return;
    if (map.is("mput")) out.add(map.k[1]);
    for (T x : map.k) if (x.is("mput") || x.is("mrem") || x.is("gamma") || x.is("mfilter") || x.is("mapall")) keys(x, out, seen);
  }

  /** the object the decoder builds for its nested field, before specialisation */
  T nested(Ctx.Msg m, VarSymbol f) {
    return cx.ev.readHeap(m.decSt, f, m.that);
  }

  /** what the nested object term is when the code field holds c */
  T with(T obj, T codeTerm, T c) {
    T key = codeTerm;
    while (key.is("ext")) key = key.k[0];
    Map<T, T> sub = new HashMap<>();
    sub.put(codeTerm, c);
    if (key.is("rd")) sub.put(key, c);
    T.Rebuild rb = new T.Rebuild(sub::get);
    return initial(rb.go(obj));
  }

  /** class of the instance a supplier term makes; "" when it is null, null when unknown */
  String made(T o, boolean[] fresh) {
    fresh[0] = true;
    if (o.is("null")) return "";
    if (o.is("created")) {
      T s = o.k[0];
      if (s.is("null")) return "";
      St st = new St();
      if (s.is("new")) {
        // an instance of a class of its own
        ClassSymbol k = cx.p.cls(Wire.cls(s, null));
        MethodSymbol g = null;
        if (k != null)
          for (Symbol q : k.members().getSymbols())
            if (q instanceof MethodSymbol && q.name.contentEquals("get") && ((MethodSymbol) q).params().isEmpty() && cx.p.methods.containsKey(q)) g = (MethodSymbol) q;
        if (g == null) return null;
        return made(cx.ev.invoke(g, s, List.of(), st, cx.p.pos(g), true), fresh);
      }
      if (!cx.ev.clos.containsKey(s)) return null;
      T r = cx.ev.closure(s, List.of(), st, "");
      return made(r, fresh);
    }
    if (o.is("new")) {
      if (cx.ev.isStaticObj(o)) fresh[0] = false;
      return Wire.cls(o, null);
    }
    if (o.is("sfld") || o.is("fld")) fresh[0] = false;
    return null;
  }

  /** all dispatching decoders as the code has them, in the form of the spec file */
  List<String> print() {
    List<String> r = new ArrayList<>();
    for (Ctx.Msg m : cx.all())
      for (VarSymbol f : m.fields) {
        if (m.kind(f) != Ctx.Kind.MSG) continue;
        T o = nested(m, f);
        T[] g = {null};
        o.each(x -> {
          if (x.is("mget") && g[0] == null) g[0] = x;
        });
        if (g[0] == null) continue;
        String by = "?";
        for (VarSymbol k : m.fields) if (cx.ev.readHeap(m.decSt, k, m.that) == g[0].k[1]) by = m.prop.get(k);
        r.add("dispatch " + m.name() + " " + m.prop.get(f) + " by " + by);
        Set<T> ks = new LinkedHashSet<>();
        keys(initial(g[0].k[0]), ks);
        List<T> l = new ArrayList<>(ks);
        Collections.reverse(l);
        for (T k : l) r.add("  " + k + " -> " + made(with(o, g[0].k[1], k), new boolean[1]));
      }
    return r;
  }
}
