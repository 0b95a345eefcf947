package wirefx;

import java.util.*;

/** One observable action of the analysed code. */
final class Eff {
  final String kind;
  final String pos;
  T buf, val, len, res, pos0, cond, obj;
  T idx, trip;
  int width;
  boolean little, left;
  String name;
  List<Eff> a = List.of(), b = List.of();
  List<Handler> handlers = List.of();
  int loop;
  Map<T, T> curs; // read positions when the condition of a CHO was tested
  boolean narrow; // loop counter can wrap before the loop ends

  static final class Handler {
    List<String> types;
    List<Eff> body;
    boolean rethrows; // every path through the handler throws
    String pos;
    List<String> throwsTypes = new ArrayList<>();
  }

  Eff(String kind, String pos) {
    this.kind = kind;
    this.pos = pos;
  }

  Eff copy() {
    Eff e = new Eff(kind, pos);
    e.buf = buf;
    e.val = val;
    e.len = len;
    e.res = res;
    e.pos0 = pos0;
    e.cond = cond;
    e.obj = obj;
    e.idx = idx;
    e.trip = trip;
    e.width = width;
    e.little = little;
    e.left = left;
    e.name = name;
    e.a = a;
    e.b = b;
    e.handlers = handlers;
    e.loop = loop;
    e.curs = curs;
    e.narrow = narrow;
    return e;
  }

  boolean is(String k) {
    return kind.equals(k);
  }

  static void walk(List<Eff> l, java.util.function.Consumer<Eff> c) {
    for (Eff e : l) {
      c.accept(e);
      walk(e.a, c);
      walk(e.b, c);
      for (Handler h : e.handlers) walk(h.body, c);
    }
  }

  /** like walk, but with the conditions under which the effect happens */
  static void walkC(List<Eff> l, List<T> pc, java.util.function.BiConsumer<Eff, List<T>> c) {
    for (Eff e : l) {
      c.accept(e, pc);
      if (e.is("CHO")) {
        List<T> p = new ArrayList<>(pc);
        p.add(e.cond);
        walkC(e.a, p, c);
        p = new ArrayList<>(pc);
        p.add(T.not(e.cond));
        walkC(e.b, p, c);
      } else {
        walkC(e.a, pc, c);
        walkC(e.b, pc, c);
      }
      for (Handler h : e.handlers) walkC(h.body, pc, c);
    }
  }

  /** a recursion no condition can stop: the same call again, or one on the way to which nothing is tested */
  boolean endless(List<T> pc) {
    for (T c : pc) if (width == 0 || c.any(x -> x.is("avail") || x.is("cursor0") || x.is("getb") || x.is("getn") || x.is("rd") || x.is("map0") || x.is("sfld") || Wire.opaque(x))) return false;
    return true;
  }

  static boolean anyOf(List<Eff> l, java.util.function.Predicate<Eff> p) {
    boolean[] r = {false};
    walk(l, e -> r[0] |= p.test(e));
    return r[0];
  }

  List<T> terms() {
    List<T> r = new ArrayList<>();
    for (T t : new T[] {val, len, res, pos0, cond, obj, trip}) if (t != null) r.add(t);
    return r;
  }

  @Override
  public String toString() {
    StringBuilder sb = new StringBuilder(kind);
    if (name != null) sb.append(" ").append(name);
    if (width != 0) sb.append(" ").append(width).append(little ? "LE" : "BE");
    if (obj != null) sb.append(" obj=").append(obj);
    if (pos0 != null) sb.append(" at=").append(pos0);
    if (len != null) sb.append(" len=").append(len);
    if (val != null) sb.append(" val=").append(val);
    if (cond != null) sb.append(" if ").append(cond);
    if (trip != null) sb.append(" x").append(trip);
    if (res != null) sb.append(" -> ").append(res);
    sb.append("  @").append(pos);
    return sb.toString();
  }

  static String dump(List<Eff> l, String ind) {
    StringBuilder sb = new StringBuilder();
    for (Eff e : l) {
      sb.append(ind).append(e).append("\n");
      if (!e.a.isEmpty()) sb.append(dump(e.a, ind + "    "));
      if (!e.b.isEmpty()) sb.append(ind).append("  else\n").append(dump(e.b, ind + "    "));
      for (Handler h : e.handlers)
        sb.append(ind).append("  catch ").append(h.types).append("\n")
            .append(dump(h.body, ind + "    "));
    }
    return sb.toString();
  }
}
