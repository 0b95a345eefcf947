package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;
import java.util.regex.*;

/** equals, hashCode, toString and the accessors of the message classes. */
final class ObjectChecks {
  final Ctx cx;
  final Prog p;
  final Eval ev;
  final Report r;

  ObjectChecks(Ctx cx, Report r) {
    this.cx = cx;
    this.p = cx.p;
    this.ev = cx.ev;
    this.r = r;
  }

  MethodSymbol declared(ClassSymbol c, String name, String... params) {
    MethodSymbol m = p.method(c, name, params);
    return m != null && p.methods.containsKey(m) ? m : null;
  }

  /** the first effect of a kind that certainly (or possibly) happens in a scenario */
  static Eff reach(List<Eff> l, Scn s, java.util.function.Predicate<Eff> q, boolean maybe) {
    for (Eff e : l) {
      if (e.is("CHO")) {
        T c = s.spec(e.cond);
        if (c == T.TRUE || c != T.FALSE && maybe) {
          Eff x = reach(e.a, s, q, maybe);
          if (x != null) return x;
        }
        if (c == T.FALSE || c != T.TRUE && maybe) {
          Eff x = reach(e.b, s, q, maybe);
          if (x != null) return x;
        }
        continue;
      }
      if (q.test(e)) return e;
      Eff x = reach(e.a, s, q, maybe);
      if (x == null) x = reach(e.b, s, q, maybe);
      if (x == null) for (Eff.Handler h : e.handlers) if (maybe && x == null) x = reach(h.body, s, q, maybe);
      if (x != null) return x;
    }
    return null;
  }

  /** the scenario in which nothing is assumed */
  static Scn open() {
    Scn s = new Scn(null, "");
    s.enter();
    return s;
  }

  /** does the code fail for this message? The construct that does, or null */
  static String fails(List<Eff> tr, T ret, Scn x, String[] at) {
    x.enter();
    try {
      Eff no = reach(tr, x, e -> e.is("DEREF") && x.spec(e.obj).is("null") || e.is("THROW"), false);
      if (no != null) {
        at[0] = no.pos;
        return no.is("THROW") ? "throws " + no.name : no.obj + " is null";
      }
      T v = ret == null ? null : x.spec(ret);
      if (v == null) return null;
      for (T t : v.all()) {
        if (t.is("charAt") && t.k[0].is("str") && t.k[1].isNum() && (t.k[1].n() < 0 || t.k[1].n() >= ((String) t.k[0].a).length())) return "charAt(" + t.k[1] + ") of " + t.k[0];
        if (t.is("substr") && t.k[0].is("str") && t.k[1].isNum() && t.k[2].isNum()
            && (t.k[1].n() < 0 || t.k[2].n() > ((String) t.k[0].a).length() || t.k[1].n() > t.k[2].n())) return "substring(" + t.k[1] + ", " + t.k[2] + ") of " + t.k[0];
      }
      return null;
    } finally {
      Scn.leave();
    }
  }

  /** messages with an empty list, an empty text or a short one */
  private List<Scn> thin(Ctx.Msg m) {
    List<Scn> l = new ArrayList<>();
    for (VarSymbol f : m.fields) {
      T a = m.fld(f, m.self);
      String n = m.prop.get(f);
      if (m.kind(f) == Ctx.Kind.STR)
        for (String w : new String[] {"", "a", " "}) {
          Scn x = new Scn(null, n + " is \"" + w + "\"");
          x.map.put(a, T.str(w));
          l.add(x);
        }
      else if (f.type.tsym.flatName().contentEquals("java.util.List")) {
        Scn x = new Scn(null, n + " is empty");
        x.nonnull.add(a);
        x.map.put(T.mk("size", null, a), T.ZERO);
        x.map.put(T.mk("lof", null, a), T.mk("lempty", null));
        l.add(x);
      }
    }
    return l;
  }

  static final Set<String> MUTATES = Set.of("FSET", "SWRITE", "LMUT", "AMUT", "MPUT", "MREM", "MCLR", "W", "WB", "SETAT", "RD", "RB", "ENC", "DEC", "WFIX", "RFIX", "SKIP", "SEEK", "BUFOP");

  /** no effect on anything that outlives the call */
  void quiet(String rule, String site, List<Eff> tr) {
    boolean[] bad = {false};
    Eff.walk(
        tr,
        e -> {
          if (e.is("UNK")) r.undecided(rule, site, e.pos, e.name);
          if (!MUTATES.contains(e.kind) || bad[0]) return;
          bad[0] = true;
          r.bad(rule, site, e.pos, "has an effect: " + e.kind + (e.name == null ? "" : " " + e.name));
        });
    if (!bad[0]) r.ok(rule, site);
  }

  // ------------------------------------------------------------------ equals

  final class Eq {
    final Ctx.Msg m;
    final MethodSymbol q;
    final Eval.Summary s;
    final T obj;

    Eq(Ctx.Msg m, MethodSymbol q) {
      this.m = m;
      this.q = q;
      obj = Factories.par("other$", q.params().head.type, ev);
      ev.watch = obj;
      s = ev.run(m.c, q, List.of(obj), null);
      ev.watch = null;
      T ho = T.mk("hash", null, obj);
      if (s.ret != null && s.ret.has(ho)) {
        // a message of this class computes its hash code as this one does
        MethodSymbol hm = p.method(m.c, "hashCode");
        if (hm != null) s.ret = T.subst(s.ret, Map.of(ho, T.subst(ev.run(m.c, hm).ret, Map.of(m.self, obj))));
      }
    }

    T a(VarSymbol f) {
      return m.fld(f, m.self);
    }

    T b(VarSymbol f) {
      return m.fld(f, obj);
    }

    Scn scn(String l) {
      Scn x = new Scn(null, l);
      T cl = T.mk("class", m.name());
      x.rules.add(t -> t.is("getclass") && t.k[0] == m.self ? cl : null);
      return x;
    }

    boolean classTest(T t) {
      if (t.is("same")) return t.any(y -> y.is("getclass") && y.k[0] == obj) && t.any(y -> y.is("class"));
      if (t.is("objeq")) return t.any(y -> y.is("getclass") && y.k[0] == obj) && t.any(y -> y.is("class"));
      return t.is("classis") && t.k[t.k.length - 1] == obj;
    }

    /** obj is another object of the class */
    Scn sameClass(String l) {
      Scn x = scn(l);
      x.nonnull.add(obj);
      x.map.put(T.same(m.self, obj), T.FALSE);
      T cl = T.mk("class", m.name());
      x.rules.add(
          t -> {
            if (t.is("getclass") && t.k[0] == obj) return cl;
            if (t.is("classis") && t.k[t.k.length - 1] == obj) {
              ClassSymbol c = p.byName.get((String) t.a);
              return T.bool(c == null ? t.a.equals("java.lang.Object") || t.a.equals(Ctx.CODEC) : p.types.isSubtype(p.types.erasure(m.c.type), p.types.erasure(c.type)));
            }
            return null;
          });
      return x;
    }

    void equalField(Scn x, VarSymbol f) {
      x.map.put(b(f), a(f));
    }

    T value(Scn x) {
      x.enter();
      try {
        return x.spec(s.ret);
      } finally {
        Scn.leave();
      }
    }

    void expect(String rule, Scn x, boolean want) {
      T v = value(x);
      String site = m.name() + ".equals (" + x.label + ")";
      x.enter();
      Eff no = reach(s.tr, x, e -> e.is("DEREF") && x.spec(e.obj).is("null"), false);
      Eff ca = wrongClass ? reach(s.tr, x, e -> e.is("CAST") && !e.name.equals("java.lang.Object"), false) : null;
      Eff th = reach(s.tr, x, e -> e.is("THROW"), false);
      Eff un = reach(s.tr, x, e -> e.is("UNK"), true);
      Scn.leave();
      if (no != null) r.bad(rule, site, no.pos, "fails: " + no.obj + " is null here");
      else if (ca != null) r.bad(rule, site, ca.pos, "casts an object of another class");
      else if (th != null) r.bad(rule, site, th.pos, "throws " + th.name);
      else if (v == T.bool(want)) r.ok(rule, site);
      else if (un != null) r.undecided(rule, site, un.pos, un.name);
      else if (v.isBoolConst()) r.bad(rule, site, p.pos(q), "gives " + v + ", expected " + want);
      else if (Wire.opaque(v)) r.undecided(rule, site, p.pos(q), "gives " + v);
      else r.bad(rule, site, p.pos(q), "gives " + T.show(v, 6) + ", expected " + want);
    }

    boolean wrongClass;

    /** the two values of f differ, nothing is known about the other fields */
    void differ(String rule, VarSymbol f, Set<VarSymbol> taking) {
      List<Scn> l = new ArrayList<>();
      T a = a(f), b = b(f);
      String n = m.prop.get(f);
      boolean prim = f.type.isPrimitive();
      // the comparison of the two values says no
      Scn d = sameClass(n + " differs");
      d.nonnull.add(a);
      d.nonnull.add(b);
      d.rules.add(
          t -> {
            if ((t.is("objeq") || t.is("same") || t.is("feq")) && pair(t, a, b)) return T.FALSE;
            if (t.is("eq0") && prim && t.k[0] == T.sub(a, b)) return T.FALSE;
            if (t.is("eq0") && prim && t.k[0] == T.sub(b, a)) return T.FALSE;
            return null;
          });
      l.add(d);
      if (!prim) {
        // whatever two different values may have in common does not make them equal
        Scn w = sameClass(n + " differs in what only the full comparison sees");
        w.nonnull.add(a);
        w.nonnull.add(b);
        w.rules.add(d.rules.get(d.rules.size() - 1));
        w.rules.add(
            t -> {
              if (t.is("pure") && WEAK.contains(t.a) && over(t, a, b)) return T.TRUE;
              if (t.is("hash") && t.k.length > 1 && t.has(b)) return w.spec(T.subst(t, Map.of(b, a)));
              if (t.k.length == 1 && t.k[0] == b && (t.is("hash") || t.is("size") || t.is("slen") || t.is("blen"))) return T.mk(t.op, t.a, a);
              if (t.is("pure") && t.k.length > 0 && t.k[0] == b && (t.a.equals("String.trim") || t.a.equals("toLowerCase") || t.a.equals("toUpperCase"))) {
                T[] k = t.k.clone();
                k[0] = a;
                return T.mk("pure", t.a, k);
              }
              return null;
            });
        l.add(w);
        Scn x = sameClass(n + " absent in one");
        x.map.put(a, T.NULL);
        x.nonnull.add(b);
        l.add(x);
        x = sameClass(n + " absent in the other");
        x.map.put(b, T.NULL);
        x.nonnull.add(a);
        l.add(x);
      }
      // values that differ in one particular respect
      for (T[] w : witnesses(f)) {
        Scn x = sameClass(n + " is " + w[0] + " and " + w[1]);
        x.map.put(a, w[0]);
        x.map.put(b, w[1]);
        l.add(x);
      }
      if (m.kind(f) == Ctx.Kind.LSTR || m.kind(f) == Ctx.Kind.LOBJ || m.kind(f) == Ctx.Kind.LPRIM) {
        for (boolean one : new boolean[] {true, false}) {
          T no = one ? a : b, em = one ? b : a;
          Scn y = sameClass(n + (one ? " absent in one, empty in the other" : " empty in one, absent in the other"));
          y.map.put(no, T.NULL);
          y.nonnull.add(em);
          y.map.put(T.mk("size", null, em), T.ZERO);
          y.map.put(T.mk("lof", null, em), T.mk("lempty", null));
          l.add(y);
        }
        Scn x = sameClass(n + " has other elements");
        x.nonnull.add(a);
        x.nonnull.add(b);
        x.map.put(T.mk("size", null, a), T.num(3));
        x.map.put(T.mk("size", null, b), T.num(3));
        x.rules.add(d.rules.get(d.rules.size() - 1));
        l.add(x);
      }
      boolean first = true, sees = false;
      for (Scn x : l) {
        T v = value(x);
        String site = m.name() + ".equals (" + x.label + ")";
        x.enter();
        Eff no = reach(s.tr, x, e -> e.is("DEREF") && x.spec(e.obj).is("null"), true);
        Scn.leave();
        if (no != null && x.map.containsValue(T.NULL)) {
          // reached when the fields compared before it are equal
          Scn y = new Scn(x, x.label);
          for (VarSymbol g : m.fields) if (g != f) equalField(y, g);
          y.enter();
          no = reach(s.tr, y, e -> e.is("DEREF") && y.spec(e.obj).is("null"), false);
          Scn.leave();
          if (no != null) {
            r.bad(rule, site, no.pos, "fails: " + no.obj + " is null here");
            continue;
          }
        }
        if (v == T.FALSE) {
          r.ok(rule, site);
          if (first) sees = true;
        } else {
          Scn y = new Scn(x, x.label);
          for (VarSymbol g : m.fields) if (g != f) equalField(y, g);
          T u = value(y);
          if (u == T.FALSE) {
            // no answer without the other fields; at least with them equal it is right
            if (Wire.opaque(v)) r.undecided(rule, site, p.pos(q), "gives " + T.show(v, 6));
            else if (pairs(f, x)) r.ok(rule, site);
            else r.bad(rule, site, p.pos(q), "gives true when another field differs too");
            if (first) sees = true;
          } else if (u == T.TRUE) {
            r.bad(rule, site, p.pos(q), "messages that differ in " + n + " are equal");
          } else if (u.any(t -> t.is("hash")) && hashed(x, f)) {
            r.bad(rule, site, p.pos(q), "messages that differ in " + n + " are equal when their hash codes happen to be");
          } else if (Wire.opaque(u) || !first) {
            r.undecided(rule, site, p.pos(q), "gives " + T.show(u, 6));
          } else if (!u.any(t -> t == a) || !u.any(t -> t == b)) {
            r.bad(rule, site, p.pos(q), "does not compare " + n + " with " + n + ": " + T.show(u, 6));
          } else residue.put(f, site + ": " + T.show(u, 6));
        }
        first = false;
      }
      if (sees) taking.add(f);
      else if (residue.containsKey(f)) {
        boolean bad = r.obs.stream().anyMatch(o -> o.status.equals("violation") && o.site.startsWith(m.name() + ".equals (" + n));
        if (!bad) r.undecided(rule, m.name() + ".equals", p.pos(q), residue.get(f));
        taking.add(f);
      }
    }

    /** the other fields equal and the hash codes too: the answer is still yes */
    boolean hashed(Scn x, VarSymbol f) {
      if (f.type.isPrimitive() || x.map.containsKey(a(f)) || x.map.containsKey(b(f))) return false;
      T a = a(f), b = b(f);
      Scn y = new Scn(x, x.label);
      for (VarSymbol g : m.fields) if (g != f) equalField(y, g);
      y.rules.add(t -> t.is("hash") && t.has(b) ? y.spec(T.subst(t, Map.of(b, a))) : null);
      return value(y) == T.TRUE;
    }

    final Map<VarSymbol, String> residue = new HashMap<>();

    /** still unequal whichever other field differs as well */
    boolean pairs(VarSymbol f, Scn x) {
      for (VarSymbol g : m.fields) {
        if (g == f) continue;
        Scn y = new Scn(x, x.label);
        for (VarSymbol h : m.fields) if (h != f && h != g) equalField(y, h);
        T a = a(g), b = b(g);
        y.rules.add(t -> (t.is("objeq") || t.is("same") || t.is("feq")) && pair(t, a, b) || t.is("eq0") && (t.k[0] == T.sub(a, b) || t.k[0] == T.sub(b, a)) ? T.FALSE : null);
        if (value(y) != T.FALSE) return false;
      }
      return true;
    }

    boolean pair(T t, T a, T b) {
      return t.k.length == 2 && (t.k[0] == a && t.k[1] == b || t.k[0] == b && t.k[1] == a);
    }

    private final Set<String> WEAK = Set.of("String.equalsIgnoreCase", "String.startsWith", "String.endsWith", "String.contains", "List.containsAll");

    boolean over(T t, T a, T b) {
      return t.k.length == 2 && (t.k[0].any(y -> y == a) && t.k[1].any(y -> y == b) || t.k[0].any(y -> y == b) && t.k[1].any(y -> y == a));
    }

    List<T[]> witnesses(VarSymbol f) {
      List<T[]> l = new ArrayList<>();
      if (m.kind(f) == Ctx.Kind.STR) {
        for (String x : new String[] {"", " ", "0", "null"}) {
          l.add(new T[] {T.NULL, T.str(x)});
          l.add(new T[] {T.str(x), T.NULL});
        }
        String[][] w = {{"a", "A"}, {"a", "a "}, {"a", " a"}, {"ab", "ac"}, {"ab", "cb"}, {"a", "ab"}, {"", "a"}, {"", " "}, {"1", "01"}, {"1", "1.0"}};
        for (String[] x : w) {
          l.add(new T[] {T.str(x[0]), T.str(x[1])});
          l.add(new T[] {T.str(x[1]), T.str(x[0])});
        }
      } else if (f.type.isPrimitive() && T.PRIMW.containsKey(f.type.toString())) {
        int wd = T.PRIMW.get(f.type.toString());
        long[] v = {0, 1, -1, 2, 128, 256, 127, 200, 1L << 15, 1L << 16, 1L << 31, 1L << 32, 1L << 62, -2};
        for (long x : v)
          for (long y : v) {
            long p = T.wrap(x, wd), q = T.wrap(y, wd);
            if (p != q) l.add(new T[] {T.num(p), T.num(q)});
          }
      }
      return l;
    }

    /** all fields equal */
    void same(String rule) {
      Scn x = sameClass("all fields equal");
      for (VarSymbol f : m.fields) equalField(x, f);
      expectTrue(rule, x, null);
      for (VarSymbol f : m.fields) {
        if (f.type.isPrimitive()) continue;
        String n = m.prop.get(f);
        // both absent
        Scn y = sameClass("all fields equal, " + n + " absent");
        for (VarSymbol g : m.fields) equalField(y, g);
        y.map.put(a(f), T.NULL);
        y.map.put(b(f), T.NULL);
        expectTrue(rule, y, f);
        // both empty, or texts of one character
        boolean list = f.type.tsym.flatName().contentEquals("java.util.List");
        for (String w : m.kind(f) == Ctx.Kind.STR ? new String[] {"", "a"} : list ? new String[] {""} : new String[0]) {
          Scn e = sameClass("all fields equal, " + n + (w.isEmpty() ? " empty" : " of one character"));
          for (VarSymbol g : m.fields) equalField(e, g);
          for (T o : new T[] {a(f), b(f)}) {
            if (list) {
              e.nonnull.add(o);
              e.map.put(T.mk("size", null, o), T.ZERO);
              e.map.put(T.mk("lof", null, o), T.mk("lempty", null));
            } else e.map.put(o, T.str(w));
          }
          T a1 = a(f), b1 = b(f);
          e.rules.add(0, t -> t.is("same") && pair(t, a1, b1) ? T.FALSE : null);
          String[] at = {p.pos(q)};
          String no = fails(s.tr, s.ret, e, at);
          r.check(no == null, rule, m.name() + ".equals (" + e.label + ")", at[0], "fails: " + no);
        }
        // equal but not the same object
        Scn z = sameClass("all fields equal, " + n + " another object");
        for (VarSymbol g : m.fields) if (g != f) equalField(z, g);
        T a = a(f), b = b(f);
        z.nonnull.add(a);
        z.nonnull.add(b);
        z.rules.add(
            t -> {
              if (t.is("objeq") && pair(t, a, b)) return T.TRUE;
              if (t.is("pure") && WEAK.contains(t.a) && over(t, a, b)) return T.TRUE;
              if (t.is("same") && pair(t, a, b)) return T.FALSE;
              if (t.is("hash") && t.k.length > 1 && t.has(b)) return z.spec(T.subst(t, Map.of(b, a)));
              if (t.k.length == 1 && t.k[0] == b && (t.is("slen") || t.is("size") || t.is("hash") || t.is("lof") || t.is("blen"))) return T.mk(t.op, t.a, a);
              if ((t.is("charAt") || t.is("substr") || t.is("encstr") || t.is("pure")) && Arrays.asList(t.k).contains(b)) return z.spec(T.subst(t, Map.of(b, a)));
              return null;
            });
        expectTrue(rule, z, f);
      }
    }

    private void expectTrue(String rule, Scn x, VarSymbol f) {
      T v = value(x);
      String site = m.name() + ".equals (" + x.label + ")";
      x.enter();
      Eff no = reach(s.tr, x, e -> e.is("DEREF") && x.spec(e.obj).is("null"), false);
      Eff th = reach(s.tr, x, e -> e.is("THROW"), false);
      Scn.leave();
      if (no != null) r.bad(rule, site, no.pos, "fails: " + no.obj + " is null here");
      else if (th != null) r.bad(rule, site, th.pos, "throws " + th.name);
      else if (v == T.TRUE) r.ok(rule, site);
      else if (v == T.FALSE) r.bad(rule, site, p.pos(q), "gives false");
      else if (Wire.opaque(v)) r.undecided(rule, site, p.pos(q), "gives " + T.show(v, 6));
      else if (v.any(t -> t.is("feq"))) r.bad(rule, site, p.pos(q), "compares floating-point values with ==, which no NaN satisfies: " + T.show(v, 6));
      else r.bad(rule, site, p.pos(q), "gives " + T.show(v, 6) + ", expected true");
    }
  }

  /** fields that equals takes into account */
  Set<VarSymbol> equality(Ctx.Msg m) {
    Set<VarSymbol> taking = new LinkedHashSet<>();
    MethodSymbol q = declared(m.c, "equals", "java.lang.Object");
    if (q == null) return taking;
    Eq e = new Eq(m, q);
    for (VarSymbol f : m.fields) e.differ("-", f, taking);
    return taking;
  }

  void equalsRules() {
    int n = 0;
    for (Ctx.Msg m : cx.messages()) {
      MethodSymbol q = declared(m.c, "equals", "java.lang.Object");
      if (q == null) {
        r.bad("has equals", m.name(), p.pos(m.c), "no equals of its own: equal contents are not equal");
        continue;
      }
      n++;
      Eq e = new Eq(m, q);
      quiet("equals changes nothing", m.name() + ".equals", e.s.tr);
      Scn x = e.scn("null");
      x.map.put(e.obj, T.NULL);
      e.expect("unequal to null", x, false);
      x = e.scn("itself");
      x.map.put(e.obj, m.self);
      e.expect("equal to itself", x, true);
      x = e.scn("another class");
      x.nonnull.add(e.obj);
      x.map.put(T.same(m.self, e.obj), T.FALSE);
      x.rules.add(t -> e.classTest(t) ? T.FALSE : null);
      e.wrongClass = true;
      e.expect("unequal to other classes", x, false);
      Scn y = new Scn(x, "another class of the same simple name");
      y.rules.add(t -> {
        boolean simple = t.any(z -> z.is("pure") && "getSimpleName".equals(z.a) && z.any(v -> v == e.obj));
        if (!simple) return null;
        if (t.is("objeq")) return T.TRUE;
        return t.is("isnull") ? T.FALSE : null;
      });
      if (e.value(x).any(t -> t.is("pure") && "getSimpleName".equals(t.a)) && e.value(y) != T.FALSE)
        r.bad("unequal to other classes", m.name() + ".equals (" + y.label + ")", p.pos(q), "a class of the same simple name in another package passes as this one");
      e.wrongClass = false;
      e.same("equal fields, equal messages");
      Set<VarSymbol> t = new HashSet<>();
      for (VarSymbol f : m.fields) e.differ("a differing field, unequal messages", f, t);
      if (n <= 2) r.sample(m.name() + ".equals = " + T.show(e.s.ret, 5));
    }
    r.floor("message classes", n, 150);
  }

  // ------------------------------------------------------------------ hashCode

  void hashRules() {
    int n = 0;
    for (Ctx.Msg m : cx.messages()) {
      MethodSymbol h = declared(m.c, "hashCode"), q = declared(m.c, "equals", "java.lang.Object");
      String site = m.name() + ".hashCode";
      if (h == null) {
        if (q != null) r.bad("hash from the fields", site, p.pos(m.c), "equals is defined but hashCode is the object's identity");
        continue;
      }
      n++;
      Eval.Summary s = ev.run(m.c, h);
      quiet("hashCode changes nothing", site, s.tr);
      boolean[] bad = {false};
      Eff.walkC(
          s.tr,
          List.of(),
          (e, pc) -> {
            if (!e.is("REC")) return;
            bad[0] = true;
            if (e.endless(pc)) r.bad("hash from the fields", site, e.pos, "calls itself without end");
            else r.undecided("hash from the fields", site, e.pos, "calls itself");
          });
      // never fails
      for (VarSymbol f : m.fields) {
        if (f.type.isPrimitive()) continue;
        Scn x = new Scn(null, m.prop.get(f) + " absent");
        x.map.put(m.fld(f, m.self), T.NULL);
        x.enter();
        Eff no = reach(s.tr, x, e -> e.is("DEREF") && x.spec(e.obj).is("null"), false);
        Scn.leave();
        r.check(no == null, "hash of absent fields", site + " (" + x.label + ")", no == null ? "" : no.pos, no == null ? "" : "fails: " + no.obj + " is null");
      }
      for (Scn x : thin(m)) {
        String[] at = {p.pos(h)};
        String no = fails(s.tr, s.ret, x, at);
        r.check(no == null, "hash of every message", site + " (" + x.label + ")", at[0], "fails: " + no);
      }
      Eff th = reach(s.tr, open(), e -> e.is("THROW"), false);
      Scn.leave();
      if (th != null) r.bad("hash from the fields", site, th.pos, "throws " + th.name);
      if (bad[0]) continue;
      Report quiet = new Report("-");
      Set<VarSymbol> taking = q == null ? Set.of() : new ObjectChecks(cx, quiet).equality(m);
      Set<T> fields = new HashSet<>();
      for (VarSymbol f : m.fields) if (taking.contains(f)) fields.add(m.fld(f, m.self));
      String why = derived(s.ret, m, fields);
      if (why == null) r.ok("hash from the fields", site);
      else if (why.startsWith("?")) r.undecided("hash from the fields", site, p.pos(h), why.substring(1));
      else r.bad("hash from the fields", site, p.pos(h), why);
      if (n <= 2) r.sample(site + " = " + T.show(s.ret, 5));
    }
    r.floor("message classes", n, 150);
  }

  /** null when the term is a function of the values of the given fields alone */
  private String derived(T t, Ctx.Msg m, Set<T> fields) {
    return derived(t, m, fields, new HashSet<>());
  }

  private String derived(T t, Ctx.Msg m, Set<T> fields, Set<T> seen) {
    if (!seen.add(t)) return null;
    if (t.is("fld") && t.k[0] == m.self) return fields.contains(t) ? null : "uses " + t + ", which equality ignores";
    if (t.is("identity")) {
      if (t.k.length > 0 && t.k[0].is("class")) return null;
      return "uses the identity of " + (t.k.length == 0 ? "an object" : t.k[0]);
    }
    if (t == m.self) return "uses the identity of the message";
    if (t.is("env")) return "uses " + t.a;
    if (t.is("same")) return "depends on object identity: " + t;
    if (t.is("opaque") || t.is("phi") || t.is("fold") && false) return "?" + t;
    if (t.is("sfld") || t.is("sfield")) return "uses the static " + t;
    if (t.is("new") && !t.a.toString().startsWith("array")) return "uses a new object";
    for (T x : t.k) {
      String w = derived(x, m, fields, seen);
      if (w != null) return w;
    }
    return null;
  }

  // ------------------------------------------------------------------ toString

  void printRules() {
    int n = 0;
    for (Ctx.Msg m : cx.messages()) {
      MethodSymbol h = declared(m.c, "toString");
      String site = m.name() + ".toString";
      if (h == null) {
        r.bad("prints its fields", site, p.pos(m.c), "no toString of its own");
        continue;
      }
      n++;
      Eval.Summary s = ev.run(m.c, h);
      quiet("toString changes nothing", site, s.tr);
      for (VarSymbol f : m.fields) {
        if (f.type.isPrimitive()) continue;
        Scn x = new Scn(null, m.prop.get(f) + " absent");
        x.map.put(m.fld(f, m.self), T.NULL);
        x.enter();
        Eff no = reach(s.tr, x, e -> e.is("DEREF") && x.spec(e.obj).is("null"), false);
        Scn.leave();
        r.check(no == null, "prints absent fields", site + " (" + x.label + ")", no == null ? "" : no.pos, no == null ? "" : "fails: " + no.obj + " is null");
      }
      for (Scn x : thin(m)) {
        String[] at = {p.pos(h)};
        String no = fails(s.tr, s.ret, x, at);
        r.check(no == null, "prints every message", site + " (" + x.label + ")", at[0], "fails: " + no);
      }
      int[] rec = {0};
      Eff.walkC(s.tr, List.of(), (e, pc) -> {
        if (!e.is("REC") || rec[0]++ > 0) return;
        if (e.endless(pc)) r.bad("prints its fields", site, e.pos, "calls itself without end");
        else r.undecided("prints its fields", site, e.pos, "calls itself");
      });
      if (rec[0] > 0) continue;
      T t = s.ret;
      List<T> ps = new ArrayList<>();
      flat(t, ps, m);
      if (n <= 2) r.sample(site + " = " + T.show(t, 4));
      String pos = p.pos(h);
      if (ps.stream().anyMatch(Wire::opaque)) {
        r.undecided("prints its fields", site, pos, "" + ps);
        // what is certain all the same
        for (VarSymbol f : m.fields)
          if (ps.stream().noneMatch(x -> x.any(y -> y == m.fld(f, m.self) || y == m.self || Wire.opaque(y) && y.k.length == 0)))
            r.bad("every field once", site + " (" + m.prop.get(f) + ")", pos, m.prop.get(f) + " is not printed");
        for (T x : ps)
          if (x.is("pure") && (("" + x.a).matches("(Integer|Long)\\.to(Hex|Octal|Binary|Unsigned)String|format %.*([xXohHcS]|\\.\\d+s)") || ("" + x.a).matches("(Integer|Long)\\.toString") && x.k.length == 2 && x.k[1].isNum() && x.k[1] != T.num(10))) r.bad("prints the values", site, pos, "prints " + x + ", which is no field's value");
        continue;
      }
      int was = r.faults(), open = r.open();
      forms(t, new HashSet<>(), form -> {
        List<T> q = new ArrayList<>();
        flat(form, q, m);
        if (q.stream().anyMatch(Wire::opaque)) r.undecided("prints its fields", site, pos, "" + q);
        else printed(m, site, pos, q);
        return r.faults() == was && r.open() == open;
      });
      if (r.faults() == was && r.open() == open && many) r.undecided("prints its fields", site, pos, "too many forms of the text");
    }
    r.floor("message classes", n, 150);
  }

  private boolean many;

  /** the texts a conditional text can be, one for each way its conditions fall; stops when told to */
  private boolean forms(T t, Set<T> done, java.util.function.Predicate<T> f) {
    if (done.isEmpty()) many = false;
    T c = split(t, new HashSet<>());
    if (c == null) {
      if (!done.add(t)) return true;
      if (done.size() > 512) return !(many = true);
      return f.test(t);
    }
    for (boolean v : new boolean[] {true, false}) {
      Scn x = new Scn(null, "");
      x.map.put(c, T.bool(v));
      x.map.put(T.not(c), T.bool(!v));
      if (!forms(x.spec(t), done, f)) return false;
    }
    return true;
  }

  /** a condition, free of conditions itself, on which the text depends */
  private T split(T t, Set<T> seen) {
    if (!seen.add(t)) return null;
    if (t.is("gamma")) {
      if (t.k[0].is("isnull") && t.k[1].is("str") && t.k[1].a.equals("null") && t.k[2] == t.k[0].k[0]) return split(t.k[2], seen);
      T c = split(t.k[0], seen);
      return c != null ? c : t.k[0].is("and") || t.k[0].is("or") ? t.k[0].k[0] : t.k[0].is("not") ? t.k[0].k[0] : t.k[0];
    }
    for (T x : t.k) {
      T c = split(x, seen);
      if (c != null) return c;
    }
    return null;
  }

  private void printed(Ctx.Msg m, String site, String pos, List<T> ps) {
    String simple = m.c.getSimpleName().toString();
      String head = ps.get(0).is("str") ? (String) ps.get(0).a : "", tail = ps.get(ps.size() - 1).is("str") ? (String) ps.get(ps.size() - 1).a : "";
      r.check(head.matches("\\W*" + Pattern.quote(simple) + "(\\W.*|)"), "names its class", site, pos, "begins with \"" + head + "\", expected " + simple);
      boolean br = head.contains("[") && tail.contains("]");
      r.check(br, "in brackets", site, pos, "from \"" + head + "\" to \"" + tail + "\"");
      Map<T, Integer> seen = new HashMap<>();
      for (int i = 0; i < ps.size(); i++) {
        T x = ps.get(i);
        if (x.is("str")) continue;
        VarSymbol f = null;
        for (VarSymbol g : m.fields) if (m.fld(g, m.self) == x) f = g;
        if (f == null) {
          r.bad("prints the values", site, pos, "prints " + x + ", which is no field's value");
          continue;
        }
        seen.merge(x, 1, Integer::sum);
        String lab = i > 0 && ps.get(i - 1).is("str") ? (String) ps.get(i - 1).a : "";
        Matcher w = Pattern.compile("(\\w+)\\W*$").matcher(lab);
        String last = w.find() ? w.group(1) : "";
        r.check(last.equals(m.prop.get(f)) || last.equals(f.name.toString()), "under its own name", site + " (" + m.prop.get(f) + ")", pos, "the value of " + m.prop.get(f) + " is printed after \"" + lab + "\"");
      }
      for (VarSymbol f : m.fields) {
        int k = seen.getOrDefault(m.fld(f, m.self), 0);
        r.check(k == 1, "every field once", site + " (" + m.prop.get(f) + ")", pos, m.prop.get(f) + " is printed " + k + " times");
      }
  }

  private void flat(T t, List<T> out, Ctx.Msg m) {
    if (t.is("cat")) {
      for (T x : t.k) flat(x, out, m);
      return;
    }
    // a null written as "null" is what printing null gives
    if (t.is("gamma") && t.k[0].is("isnull") && t.k[1].is("str") && t.k[1].a.equals("null") && t.k[2] == t.k[0].k[0]) t = t.k[2];
    if (t.is("str") && !out.isEmpty() && out.get(out.size() - 1).is("str")) {
      T o = out.remove(out.size() - 1);
      t = T.str((String) o.a + t.a);
    }
    out.add(t);
  }

  // ------------------------------------------------------------------ accessors

  void accessorRules() {
    int n = 0;
    for (Ctx.Msg m : cx.messages()) {
      Map<String, MethodSymbol> get = new LinkedHashMap<>(), set = new LinkedHashMap<>();
      for (ClassSymbol c = m.c; c != null && p.classes.containsKey(c); c = (ClassSymbol) c.getSuperclass().tsym)
        for (Symbol s : c.members().getSymbols()) {
          if (!(s instanceof MethodSymbol) || s.isStatic() || (s.flags() & Flags.PUBLIC) == 0 || !p.methods.containsKey(s)) continue;
          MethodSymbol q = (MethodSymbol) s;
          String nm = q.name.toString();
          if (q.params().isEmpty() && nm.length() > 3 && nm.startsWith("get")) get.putIfAbsent(Ctx.decap(nm.substring(3)), q);
          else if (q.params().isEmpty() && nm.length() > 2 && nm.startsWith("is") && q.getReturnType().hasTag(TypeTag.BOOLEAN)) get.putIfAbsent(Ctx.decap(nm.substring(2)), q);
          else if (q.params().size() == 1 && nm.length() > 3 && nm.startsWith("set")) set.putIfAbsent(Ctx.decap(nm.substring(3)), q);
        }
      for (String k : get.keySet()) {
        MethodSymbol g = get.get(k);
        String site = m.name() + ".get" + k;
        Eval.Summary s = ev.run(m.c, g);
        quiet("getter changes nothing", site, s.tr);
        Eff th = reach(s.tr, open(), e -> e.is("THROW"), false);
        Scn.leave();
        if (th != null) r.bad("getter answers", site, th.pos, "throws " + th.name);
      }
      for (String k : set.keySet()) {
        MethodSymbol st = set.get(k), g = get.get(k);
        if (g == null) continue;
        n++;
        String site = m.name() + "." + k;
        T v = Factories.par("v$", st.params().head.type, ev);
        for (boolean nul : st.params().head.type.isPrimitive() ? new boolean[] {false} : new boolean[] {false, true}) {
          T arg = nul ? T.NULL : v;
          Eval.Summary s = ev.run(m.c, st, List.of(arg), null);
          Eff bad = null;
          for (Eff e : all(s.tr)) {
            if (e.is("UNK")) r.undecided("set then get", site, e.pos, e.name);
            if (MUTATES.contains(e.kind) && !e.is("FSET") && bad == null) bad = e;
            if (e.is("FSET") && e.obj != m.self && bad == null) bad = e;
          }
          if (bad != null) r.bad("sets one property", site, bad.pos, "has another effect: " + bad.kind + (bad.name == null ? "" : " " + bad.name));
          Eff th = reach(s.tr, open(), e -> e.is("THROW"), false);
          Scn.leave();
          if (th != null) r.bad("set then get", site, th.pos, "throws " + th.name);
          else
            Eff.walkC(s.tr, List.of(), (e, pc) -> {
              if (e.is("THROW") && pc.size() == 1 && satisfiable(pc.get(0), arg)) r.bad("set then get", site, e.pos, "throws " + e.name + " for some values: " + pc.get(0));
            });
          for (String j : get.keySet()) {
            St after = new St(s.st);
            Eval.Summary now = ev.run(m.c, get.get(j), List.of(), after), was = ev.run(m.c, get.get(j));
            if (j.equals(k)) {
              T got = now.ret;
              if (!nul) {
                Scn x = new Scn(null, "");
                x.nonnull.add(arg);
                x.enter();
                got = x.spec(got);
                Scn.leave();
              }
              if (got == arg) r.ok("set then get", site);
              else if (Wire.opaque(got)) r.undecided("set then get", site, p.pos(st), "" + got);
              else r.bad("set then get", site, p.pos(st), "after setting " + (nul ? "null" : "v") + ", get gives " + T.show(got, 5));
            } else if (!nul) {
              T nr = byContent(now.ret, now.st), wr = byContent(was.ret, was.st);
              if (nr == wr) r.ok("other properties unchanged", site + " / " + j);
              else if (Wire.opaque(now.ret)) r.undecided("other properties unchanged", site + " / " + j, p.pos(st), "" + now.ret);
              else r.bad("other properties unchanged", site + " / " + j, p.pos(st), "setting " + k + " changes " + j + " to " + T.show(now.ret, 5));
            }
          }
        }
      }
      for (VarSymbol f : m.fields) {
        String k = m.prop.get(f);
        if (get.containsKey(k) && set.containsKey(k)) r.ok("accessible", m.name());
        else r.counts.merge("fields without both accessors", 1, Integer::sum);
      }
    }
    r.floor("properties", n, 1000);
  }

  /** a fresh list stands for its contents */
  private T byContent(T t, St st) {
    Map<T, T> m = new HashMap<>();
    t.each(x -> {
      if (x.is("new")) m.put(x, T.mk("fresh", null, ev.content(st, "lst", x)));
    });
    return m.isEmpty() ? t : T.subst(t, m);
  }

  /** a comparison of the value, or of its length, with constants, that holds for some values */
  private static boolean satisfiable(T c, T v) {
    while (c.is("not")) c = c.k[0];
    if (!c.is("gt0") && !c.is("eq0") || v.isNum() || v == T.NULL) return false;
    boolean[] ok = {true};
    int[] n = {0};
    for (T k : c.k[0].is("lin") ? c.k[0].k : new T[] {c.k[0]}) {
      n[0]++;
      ok[0] &= k == v || (k.is("slen") || k.is("size") || k.is("blen")) && (k.k[0] == v || k.k[0].k.length > 0 && k.k[0].k[0] == v);
    }
    return ok[0] && n[0] == 1;
  }

  static List<Eff> all(List<Eff> l) {
    List<Eff> o = new ArrayList<>();
    Eff.walk(l, o::add);
    return o;
  }
}
