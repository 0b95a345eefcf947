package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;

/** Encoders against decoders, scenario by scenario. */
final class Rt {
  static final class Run {
    Scn s;
    Wire w;
    String status; // ok, bad, undecided
    String msg = "", pos = "";
    Wire.Item item;
    Eff eff;
    boolean encodeSide;
  }

  final Ctx cx;
  static final int MAXSPLIT = 7;

  Rt(Ctx cx) {
    this.cx = cx;
  }

  List<Run> explore(Ctx.Msg m, Scn s, boolean decode) {
    List<Run> r = new ArrayList<>();
    go(m, s, decode, 0, r);
    return r;
  }

  static boolean feasible(Scn s) {
    for (long[] f : s.facts.values()) if (f[0] > f[1]) return false;
    for (Map.Entry<T, long[]> e : s.facts.entrySet()) {
      T v = s.map.get(e.getKey());
      if (v != null && v.isNum() && (v.n() < e.getValue()[0] || v.n() > e.getValue()[1])) return false;
    }
    for (Map.Entry<T, T> e : s.map.entrySet())
      if (e.getKey().is("isnull") && e.getValue() == T.TRUE && s.nonnull.contains(e.getKey().k[0])) return false;
    return true;
  }

  private void go(Ctx.Msg m, Scn s, boolean decode, int d, List<Run> out) {
    Run r = new Run();
    r.s = s;
    try {
      r.w = new Wire(m, s);
      r.w.decPosS = cx.p.pos(m.decM);
      r.w.build();
      if (decode) r.w.match(m.decTr);
      r.status = "ok";
      out.add(r);
    } catch (Wire.NeedSplit n) {
      if (d >= MAXSPLIT || Wire.opaque(n.cond) || n.cond.isBoolConst()) {
        r.status = "undecided";
        r.msg = "condition " + n.cond;
        r.pos = n.pos;
        out.add(r);
        return;
      }
      for (boolean v : new boolean[] {true, false}) {
        Scn x = new Scn(s, s.label + (v ? ", " : ", not ") + n.cond);
        x.enter();
        x.assume(n.cond, v);
        Scn.leave();
        if (feasible(x)) go(m, x, decode, d + 1, out);
      }
    } catch (Wire.Undecided u) {
      r.status = "undecided";
      r.msg = u.getMessage();
      r.pos = u.pos;
      out.add(r);
    } catch (Wire.Mismatch u) {
      r.status = "bad";
      r.msg = u.getMessage();
      r.pos = u.pos;
      r.item = r.w.curItem;
      r.eff = r.w.curEff;
      r.encodeSide = !r.w.built;
      out.add(r);
    } finally {
      Scn.leave();
    }
  }

  /** the scenario in which decode runs on an instance fresh from the constructor */
  void fresh(Ctx.Msg m, Scn s) {
    m.ctor();
    for (VarSymbol f : m.all) s.map.put(m.fld(f, m.that), m.fresh.get(f));
    s.rules.add(
        t -> {
          if (t.k.length == 0 || !t.k[0].is("new")) return null;
          T c = m.freshLists.get(t.k[0]);
          if (c == null) return null;
          if (t.is("lof")) return c;
          if (t.is("size")) return T.size(c);
          return null;
        });
  }

  static T norm(T t) {
    return new T.Rebuild(x -> x.is("fixtext") ? normText(x.k[0]) : null).go(t);
  }

  static T normText(T t) {
    while (t.is("fixtext")) t = t.k[0];
    if (t.is("null")) return T.str("");
    if (t.is("gamma")) return T.gamma(t.k[0], normText(t.k[1]), normText(t.k[2]));
    return t;
  }

  static final T I = T.mk("param", "i:int");

  /** null when the decoded field equals what was encoded, otherwise why not */
  String differs(Run r, Ctx.Msg m, VarSymbol f) {
    Wire w = r.w;
    r.s.enter();
    try {
      T rawE = cx.ev.readHeap(m.enc.st, f, m.self), rawD = cx.ev.readHeap(m.decSt, f, m.that);
      T e = r.s.spec(rawE), d = w.dv(rawD);
      String p = m.prop.get(f);
      switch (m.kind(f)) {
        case STR:
          {
            T a = normText(d), b = normText(e);
            if (r.s.spec(T.slen(b)) == T.ZERO && r.s.spec(T.slen(a)) == T.ZERO) return null;
            return same(a, b, p);
          }
        case LSTR:
        case LOBJ:
        case LPRIM:
          {
            String shared = shared(cx.ev.content(m.decSt, "lst", rawD), r.s, p);
            if (shared != null) return shared;
            T ce = list(r.s.spec(cx.ev.content(m.enc.st, "lst", rawE)), r.s), cd = list(w.dv(cx.ev.content(m.decSt, "lst", rawD)), r.s);
            if (ce == cd) return null;
            String left = leftOut(cx.ev.content(m.decSt, "lst", rawD), r, p);
            if (left != null) return left;
            T ne = r.s.spec(T.size(ce)), nd = r.s.spec(T.size(cd));
            if (ne == T.ZERO && nd == T.ZERO) return null;
            if (ne != nd) return same(nd, ne, "number of elements of " + p);
            String et = cx.ev.ty(f.type.getTypeArguments().head);
            r.s.fact(I, 0, T.MAXSIZE - 1);
            T a = r.s.spec(T.lget(cd, I, et)), b = r.s.spec(T.lget(ce, I, et));
            if (m.kind(f) == Ctx.Kind.LSTR) {
              a = normText(a);
              b = normText(b);
            }
            return same(a, b, "element of " + p);
          }
        default:
          return same(norm(d), norm(e), p);
      }
    } finally {
      Scn.leave();
    }
  }

  /** a loop that adds what it decodes under a condition on what it decoded */
  private String leftOut(T c, Run r, String p) {
    for (T x : c.all()) {
      if (!x.is("fold")) continue;
      String a = (String) x.a;
      Eval.LoopInfo li = cx.ev.loops.get(a.substring(0, a.indexOf('.')));
      int j = Integer.parseInt(a.substring(a.indexOf('.') + 1));
      if (li == null || li.idx == null || j < 0 || j >= li.phis.size()) continue;
      T n = r.w.dv(x.k[0]);
      if (!n.is("size") && !n.isNum() || n == T.ZERO) continue;
      String w = leftOut(li.steps.get(j), li.phis.get(j), li, r, p, null, 0);
      if (w != null) return w;
    }
    return null;
  }

  private String leftOut(T t, T phi, Eval.LoopInfo li, Run r, String p, T why, int d) {
    if (t == phi) return why == null ? null : "an element of " + p + " is left out after decode, depending on " + why;
    if (!t.is("gamma") || d > 4) return null;
    T c = r.s.spec(t.k[0]);
    if (c.isBoolConst()) return leftOut(c == T.TRUE ? t.k[1] : t.k[2], phi, li, r, p, why, d + 1);
    // only what the element itself holds may decide: then there is one for which it does
    boolean own = c.any(x -> x.is("new") && Eval.freshNo(x) > (Integer) li.idx.a) && !c.any(x -> x.is("opaque") || x.is("exits") || x.is("last") || x.is("rd") || x == li.idx);
    for (T q : li.phis) if (q != phi && c.has(q)) own = false;
    if (!own) return null;
    String w = leftOut(t.k[1], phi, li, r, p, c, d + 1);
    return w != null ? w : leftOut(t.k[2], phi, li, r, p, c, d + 1);
  }

  /** a list filled with one and the same object, made before the loop that fills it */
  private static String shared(T c, Scn s, String p) {
    String[] w = new String[1];
    c.each(
        x -> {
          if (!x.is("lrep") && !x.is("lrev") || s.spec(x.k[0]) == T.ONE || s.spec(x.k[0]) == T.ZERO) return;
          T e = x.k[2];
          if (e.is("new") && Eval.freshNo(e) < (Integer) x.k[1].a) w[0] = "every element of " + p + " is one and the same object after decode";
        });
    return w[0];
  }

  private static T list(T c, Scn s) {
    if (c.is("lof")) {
      if (c.k[0].is("null")) return T.mk("lempty", null);
      if (s.spec(T.size(c)) == T.ZERO) return T.mk("lempty", null);
    }
    return c;
  }

  private static String same(T d, T e, String what) {
    if (d == e) return null;
    d = Bits.simp(d);
    e = Bits.simp(e);
    if (d == e) return null;
    String x = what + " is " + e + " when encoded and " + d + " after decode";
    if (Wire.opaque(d) || Wire.opaque(e)) return "?" + x;
    return x;
  }

  /** null when a decoded field does not depend on what the decoding instance held before */
  String stale(Run used, Ctx.Msg m, VarSymbol f) {
    used.s.enter();
    try {
      T raw = cx.ev.readHeap(m.decSt, f, m.that);
      T d = used.w.dv(raw);
      String p = m.prop.get(f);
      if (m.kind(f) == Ctx.Kind.LSTR || m.kind(f) == Ctx.Kind.LOBJ || m.kind(f) == Ctx.Kind.LPRIM) {
        T c = used.w.dv(cx.ev.content(m.decSt, "lst", raw));
        if (c.any(x -> x == m.that)) return p + " keeps " + c + " from before the decode";
        // presence of the list must not depend on it either
        if (T.isnull(d).any(x -> x == m.that)) return p + " keeps " + d + " from before the decode";
        return null;
      }
      if (d.any(x -> x == m.that)) return p + " keeps " + d + " from before the decode";
      // an object of a class that depends on the input must not be the earlier one
      if (m.kind(f) == Ctx.Kind.MSG && f.type.tsym instanceof ClassSymbol && (f.type.tsym.isInterface() || (f.type.tsym.flags() & Flags.ABSTRACT) != 0)) {
        T o = used.s.spec(raw);
        if (o.any(x -> x == m.that)) {
          boolean kind = o.any(x -> x.is("getclass") || x.is("instof") || x.is("opaque"));
          return (kind ? "?" : "") + p + " keeps the object " + o + " from before the decode, whatever the input says";
        }
      }
      return null;
    } finally {
      Scn.leave();
    }
  }
}
