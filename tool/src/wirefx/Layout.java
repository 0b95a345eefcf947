package wirefx;

import com.sun.tools.javac.code.Symbol.*;
import java.nio.file.*;
import java.util.*;
import java.util.regex.*;

/** The wire layout of each message: printed from the code, and read back from the committed spec. */
final class Layout {
  static final class Line {
    String kind; // int text utf8 message repeat
    int width;
    String order = "", pad = "", val;
    List<Line> body = new ArrayList<>();
    int no;

    String head() {
      switch (kind) {
        case "int":
          return "int" + width + (width > 8 ? " " + order : "") + " " + val;
        case "text":
          return "text[" + width + "] " + pad + " " + val;
        default:
          return kind + " " + val;
      }
    }
  }

  final Ctx cx;

  Layout(Ctx cx) {
    this.cx = cx;
  }

  // ------------------------------------------------------------------ printing

  static T low(T v, int w) {
    while (v.is("ext") && Math.abs((Integer) v.a) >= w) v = v.k[0];
    return v;
  }

  String val(Wire w, T t, Ctx.Msg m, T idx) {
    if (t.is("fld") && t.k[0] == m.self) {
      for (VarSymbol f : m.fields) if (m.fld(f, m.self) == t) return m.prop.get(f);
    }
    if (t == idx) return "i";
    if (t.is("num")) return "" + t.n();
    if (t.is("null")) return "null";
    if (t.is("str")) return Report.q((String) t.a);
    if (t.is("get")) return val(w, t.k[0], m, idx) + "[" + val(w, t.k[1], m, idx) + "]";
    if (t.is("size")) return "count(" + val(w, t.k[0], m, idx) + ")";
    if (t.is("blen") && t.a == null) return "bytes(" + val(w, t.k[0], m, idx) + ")";
    if (t.is("encstr") && "UTF-8".equals(t.k[1].a)) return val(w, t.k[0], m, idx);
    if (t.is("fbits")) return "float" + t.a + "(" + val(w, t.k[0], m, idx) + ")";
    if (t.is("sizeof")) {
      String[] r = {null};
      Wire.each(w.items, i -> {
        if (i.kind.equals("MSG") && i.size == t) r[0] = "wire(" + val(w, i.obj, m, idx) + ")";
      });
      if (r[0] != null) return r[0];
    }
    if (t.is("calc")) for (Eff e : w.calcs) if (e.res == t) {
      T o = e.obj;
      if (o.is("mget") && o.k[1].is("str")) return "checksum(" + o.k[1].a + ")";
    }
    StringBuilder sb = new StringBuilder(t.op);
    if (t.a != null && !t.is("lin")) sb.append("<").append(t.a).append(">");
    if (t.is("lin")) return T.show(t, 12);
    sb.append("(");
    for (int i = 0; i < t.k.length; i++) sb.append(i == 0 ? "" : ",").append(val(w, t.k[i], m, idx));
    return sb.append(")").toString();
  }

  /** nested messages that may be absent, when printing */
  final Set<T> optional = new HashSet<>();

  void findOptional(Ctx.Msg m) {
    optional.clear();
    for (Ctx.Variation v : cx.variations(m, true)) {
      if (m.kind(v.f) != Ctx.Kind.MSG) continue;
      try {
        new Wire(m, cx.vary(m, null, v)).build();
        optional.add(m.fld(v.f, m.self));
      } catch (Wire.Mismatch e) {
        // not optional
      } finally {
        Scn.leave();
      }
    }
  }

  List<String> print(Wire w, Ctx.Msg m) {
    List<String> r = new ArrayList<>();
    print(w, w.items, m, null, "  ", r);
    return r;
  }

  String line(Wire w, Wire.Item i, Ctx.Msg m, T idx) {
    switch (i.kind) {
      case "INT":
        return "int" + i.width + (i.width > 8 ? i.little ? " LE" : " BE" : "") + " " + val(w, low(i.val, i.width), m, idx);
      case "BYTES":
        return "utf8 " + val(w, i.val, m, idx);
      case "FIX":
        return "text[" + val(w, i.len, m, idx) + "] " + i.name + " " + val(w, i.val, m, idx);
      case "MSG":
        return (optional.contains(i.obj) ? "message? " : "message ") + val(w, i.obj, m, idx);
      default:
        return "repeat " + val(w, i.trip, m, idx);
    }
  }

  private void print(Wire w, List<Wire.Item> l, Ctx.Msg m, T idx, String ind, List<String> out) {
    for (Wire.Item i : l) {
      out.add(ind + line(w, i, m, idx));
      if (i.kind.equals("REP")) print(w, i.body, m, i.idx, ind + "  ", out);
    }
  }

  // ------------------------------------------------------------------ the committed spec

  static Map<String, List<Line>> read(Path f) throws Exception {
    Map<String, List<Line>> r = new LinkedHashMap<>();
    Deque<List<Line>> st = new ArrayDeque<>();
    int no = 0;
    Pattern it = Pattern.compile("int(\\d+)(?: (LE|BE))? (.+)"), tx = Pattern.compile("text\\[(\\d+)\\] (pad:\\S+ \\S+) (.+)");
    for (String s : Files.readAllLines(f)) {
      no++;
      if (s.isBlank() || s.startsWith("#")) continue;
      if (s.startsWith("message ")) {
        List<Line> top = new ArrayList<>();
        r.put(s.substring(8).trim(), top);
        st.clear();
        st.push(top);
        continue;
      }
      int ind = 0;
      while (s.charAt(ind) == ' ') ind++;
      while (st.size() > ind / 2) st.pop();
      String b = s.trim();
      Line l = new Line();
      l.no = no;
      Matcher k = it.matcher(b), t = tx.matcher(b);
      if (k.matches()) {
        l.kind = "int";
        l.width = Integer.parseInt(k.group(1));
        l.order = k.group(2) == null ? "" : k.group(2);
        l.val = k.group(3);
      } else if (t.matches()) {
        l.kind = "text";
        l.width = Integer.parseInt(t.group(1));
        l.pad = t.group(2);
        l.val = t.group(3);
      } else {
        int sp = b.indexOf(' ');
        l.kind = b.substring(0, sp);
        l.val = b.substring(sp + 1);
      }
      st.peek().add(l);
      if (l.kind.equals("repeat")) st.push(l.body);
    }
    return r;
  }

  /** the term a spec value stands for in a scenario, or null when it is not a plain one */
  T term(String v, Wire w, Ctx.Msg m, T idx) {
    Scn s = w.s;
    if (v.matches("-?\\d+")) return T.num(Long.parseLong(v));
    Matcher k = Pattern.compile("(count|bytes|wire)\\((.+)\\)").matcher(v);
    if (k.matches()) {
      T x = term(k.group(2), w, m, idx);
      if (x == null) return null;
      if (x.is("null")) return T.ZERO;
      switch (k.group(1)) {
        case "count":
          return s.spec(T.mk("size", null, x));
        case "bytes":
          if (x.is("str") && x.a.equals("")) return T.ZERO;
          return s.spec(T.mk("blen", null, x));
        default:
          {
            T[] r = {null};
            Wire.each(w.items, i -> {
              if (i.kind.equals("MSG") && i.obj == x) r[0] = i.size;
            });
            return r[0];
          }
      }
    }
    k = Pattern.compile("checksum\\((.+)\\)").matcher(v);
    if (k.matches()) {
      for (Eff e : w.calcs) {
        T o = s.spec(e.obj);
        if (o.is("mget") && o.k[1].is("str") && o.k[1].a.equals(k.group(1))) return s.spec(e.res);
      }
      return T.mk("checksum", k.group(1));
    }
    k = Pattern.compile("(\\w+)\\[i\\]").matcher(v);
    if (k.matches()) {
      T x = term(k.group(1), w, m, idx);
      if (x == null || idx == null) return null;
      for (VarSymbol f : m.fields)
        if (m.prop.get(f).equals(k.group(1)))
          return s.spec(T.mk("get", ":" + cx.ev.ty(f.type.getTypeArguments().isEmpty() ? f.type : f.type.getTypeArguments().head), m.fld(f, m.self), idx));
      return null;
    }
    k = Pattern.compile("float(\\d+)\\((.+)\\)").matcher(v);
    if (k.matches()) {
      T x = term(k.group(2), w, m, idx);
      return x == null ? null : s.spec(T.fbits(Integer.parseInt(k.group(1)), x));
    }
    for (VarSymbol f : m.fields) if (m.prop.get(f).equals(v)) return s.spec(m.fld(f, m.self));
    return null;
  }

  interface Sink {
    void bad(String pos, String detail, Line l, Wire.Item i, String what);

    void undecided(String pos, String detail, Line l);

    void ok(Line l);
  }

  /** the items written in a scenario against the spec */
  void compare(Wire w, Ctx.Msg m, List<Line> spec, List<Wire.Item> items, T idx, String end, Sink k) {
    w.s.enter();
    int j = 0;
    for (Line l : spec) {
      if (l.kind.equals("utf8")) {
        T x = term(l.val, w, m, idx);
        if (x != null && (x.is("null") || w.s.spec(T.slen(x)) == T.ZERO)) continue;
      }
      if (l.kind.equals("repeat")) {
        T n = term(l.val, w, m, idx);
        if (n == T.ZERO) continue;
      }
      if (l.kind.equals("message?")) {
        T x = term(l.val, w, m, idx);
        if (x != null && x.is("null")) continue;
      }
      if (j >= items.size()) {
        k.bad(end, "nothing is written for `" + l.head() + "` (spec line " + l.no + ")", l, null, "kind");
        return;
      }
      Wire.Item i = items.get(j++);
      if (l.kind.equals("text") && !i.kind.equals("FIX")) {
        List<Wire.Item> its = new ArrayList<>(items);
        Wire.Item f = Wire.blank(its, j - 1, T.num(l.width), l.pad);
        if (f != null) {
          items = its;
          i = f;
        }
      }
      Wire.Item[] cut = pieces(w, m, l, i, idx);
      if (cut != null) {
        // two numbers written as one
        items = new ArrayList<>(items);
        items.set(j - 1, cut[0]);
        items.add(j, cut[1]);
        i = cut[0];
      }
      String got = line(w, i, m, idx);
      String d = differs(w, m, l, i, idx);
      if (d == null) {
        k.ok(l);
        if (l.kind.equals("repeat")) compare(w, m, l.body, i.body, i.idx, i.pos(), k);
        w.s.enter();
      } else if (d.startsWith("?")) k.undecided(i.pos(), "writes `" + got + "`, specified `" + l.head() + "` (spec line " + l.no + ")", l);
      else {
        k.bad(i.pos(), d + ": writes `" + got + "`, specified `" + l.head() + "` (spec line " + l.no + ")", l, i, d);
        if (d.equals("another kind of field")) return;
      }
    }
    if (j < items.size()) k.bad(items.get(j).pos(), "writes `" + line(w, items.get(j), m, idx) + "`, which the layout does not have", null, items.get(j), "kind");
  }

  /** the number cut in two behind the width asked for, when its first part is the value asked for */
  private Wire.Item[] pieces(Wire w, Ctx.Msg m, Line l, Wire.Item i, T idx) {
    if (!l.kind.equals("int") || !i.kind.equals("INT") || i.width <= l.width) return null;
    Wire.Item a = new Wire.Item(), b = new Wire.Item();
    for (Wire.Item x : new Wire.Item[] {a, b}) {
      x.kind = "INT";
      x.e = i.e;
      x.little = i.little;
      x.width = x == a ? l.width : i.width - l.width;
      x.size = T.num(x.width / 8);
      x.pos0 = x == a || i.pos0 == null ? i.pos0 : T.add(i.pos0, a.size);
    }
    Wire.Item low = i.little ? a : b, high = i.little ? b : a;
    low.val = Bits.simp(T.ext(low.width, true, i.val));
    high.val = Bits.simp(T.ext(high.width, true, T.bit("shr", 64, i.val, T.num(low.width))));
    return differs(w, m, l, a, idx) == null ? new Wire.Item[] {a, b} : null;
  }

  private String differs(Wire w, Ctx.Msg m, Line l, Wire.Item i, T idx) {
    switch (l.kind) {
      case "int":
        {
          if (!i.kind.equals("INT")) return "another kind of field";
          if (i.width != l.width) return "another width";
          if (i.width > 8 && !Wire.palin(low(i.val, i.width)) && !l.order.equals(i.little ? "LE" : "BE")) return "another byte order";
          return value(low(i.val, i.width), l, w, m, idx, true);
        }
      case "text":
        {
          if (!i.kind.equals("FIX")) return "another kind of field";
          if (!i.len.isNum()) return Wire.opaque(i.len) ? "?" : "another width";
          if (i.len.n() != l.width) return "another width";
          if (!i.name.equals(l.pad)) return "another padding";
          return value(i.val, l, w, m, idx, false);
        }
      case "utf8":
        if (!i.kind.equals("BYTES")) return "another kind of field";
        if (i.val.is("encstr")) {
          if (!"UTF-8".equals(i.val.k[1].a)) return "another character set";
          return value(i.val.k[0], l, w, m, idx, false);
        }
        return Wire.opaque(i.val) ? "?" : "another value";
      case "message":
      case "message?":
        if (!i.kind.equals("MSG")) return "another kind of field";
        return value(i.obj, l, w, m, idx, false);
      default:
        if (!i.kind.equals("REP")) return "another kind of field";
        return value(i.trip, l, w, m, idx, false);
    }
  }

  private String value(T got, Line l, Wire w, Ctx.Msg m, T idx, boolean num) {
    T want = term(l.val, w, m, idx);
    if (want != null) {
      if (num) want = low(want, l.width);
      if (want == got) return null;
      if (l.kind.equals("text") && Rt.normText(got) == Rt.normText(want)) return null;
      return Wire.opaque(got) ? "?" : "another value";
    }
    if (val(w, got, m, idx).equals(l.val)) return null;
    return Wire.opaque(got) ? "?" : "another value";
  }
}
