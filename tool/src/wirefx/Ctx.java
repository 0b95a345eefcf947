package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;

/** Summaries of the message classes, computed once per run. */
final class Ctx {
  final Prog p;
  final Eval ev;
  final Map<ClassSymbol, Msg> cache = new LinkedHashMap<>();

  Ctx(Prog p) {
    this.p = p;
    ev = new Eval(p);
    ev.prepare();
  }

  static final String CODEC = "com.finproto.codec.BinaryCodec";
  static final String BUF = "io.netty.buffer.ByteBuf";

  enum Kind {
    STR,
    LSTR,
    LOBJ,
    LPRIM,
    MSG,
    PRIM,
    OTHER
  }

  final class Msg {
    final ClassSymbol c;
    final List<VarSymbol> all; // every instance field
    final List<VarSymbol> fields; // those the user can set or get
    final MethodSymbol encM, decM;
    Eval.Summary enc, dec;
    St decSt; // renamed: the decoded instance is `that`
    List<Eff> decTr;
    final T self, that;
    final Map<VarSymbol, String> prop = new LinkedHashMap<>();

    Msg(ClassSymbol c) {
      this.c = c;
      all = p.instanceFields(c);
      encM = p.method(c, "encode", BUF);
      decM = p.method(c, "decode", BUF);
      self = ev.thisOf(c);
      that = T.mk("param", "that:" + c.flatName());
      for (VarSymbol f : all) prop.put(f, f.name.toString());
      Set<VarSymbol> acc = new HashSet<>();
      for (Symbol s : c.members().getSymbols()) {
        if (!(s instanceof MethodSymbol) || s.isStatic()) continue;
        MethodSymbol m = (MethodSymbol) s;
        String n = m.name.toString();
        if (m.params().size() == 1 && n.startsWith("set") && p.methods.containsKey(m) && (m.flags() & Flags.PUBLIC) != 0) {
          Eval.Summary r = ev.run(c, m);
          // what is set from the argument, or by name; not what is only reset along with it
          for (Eff e : r.tr)
            for (VarSymbol f : all)
              if (e.is("FSET") && e.obj == self && e.name.equals(ev.fkey(f)) && (f.name.toString().equals(decap(n.substring(3))) || e.val != null && e.val.has(r.args.get(0)))) acc.add(f);
        }
        if (!m.params().isEmpty() || !(n.startsWith("get") && n.length() > 3 || n.startsWith("is") && n.length() > 2)) continue;
        if (!p.methods.containsKey(m)) continue;
        Eval.Summary r = ev.run(c, m);
        for (VarSymbol f : all)
          if (r.ret == fld(f, self) && r.tr.isEmpty()) {
            acc.add(f);
            String q = n.substring(n.startsWith("get") ? 3 : 2);
            prop.put(f, decap(q));
          }
      }
      fields = new ArrayList<>();
      for (VarSymbol f : all) if (acc.contains(f)) fields.add(f);
    }

    String name() {
      return c.flatName().toString();
    }

    T fld(VarSymbol f, T o) {
      return T.mk("fld", ev.fkey(f), o);
    }

    void sums() {
      if (enc != null) return;
      enc = ev.run(c, encM);
      dec = ev.run(c, decM);
      Map<T, T> ren = Map.of(self, that);
      T.Rebuild rb = new T.Rebuild(ren::get);
      decSt = new St();
      for (Map.Entry<T, T> e : dec.st.cells.entrySet()) decSt.cells.put(rb.go(e.getKey()), rb.go(e.getValue()));
      decTr = map(dec.tr, rb::go);
    }

    Map<VarSymbol, T> fresh;
    final Map<T, T> freshLists = new HashMap<>();

    /** what the fields hold after construction */
    void ctor() {
      if (fresh != null) return;
      fresh = new LinkedHashMap<>();
      MethodSymbol k = null;
      for (Symbol s : c.members().getSymbols())
        if (s instanceof MethodSymbol && s.isConstructor() && ((MethodSymbol) s).params().isEmpty()) k = (MethodSymbol) s;
      St st = new St();
      ev.construct(c, k, that, List.of(), st, p.pos(c));
      for (VarSymbol f : all) {
        T v = st.cells.get(ev.heapCell(f, that));
        fresh.put(f, v == null ? ev.dflt(f.type) : v);
      }
      for (Map.Entry<T, T> e : st.cells.entrySet())
        if (e.getKey().is("lst")) freshLists.put(e.getKey().k[0], e.getValue());
    }

    Kind kind(VarSymbol f) {
      return Ctx.this.kind(f.type);
    }

    String declared(VarSymbol f) {
      return ev.ty(f.type);
    }

    T encBuf() {
      sums();
      return enc.args.get(0);
    }

    T decBuf() {
      sums();
      return dec.args.get(0);
    }
  }

  static String decap(String s) {
    return Character.toLowerCase(s.charAt(0)) + s.substring(1);
  }

  Kind kind(Type t) {
    if (t.isPrimitive()) return Kind.PRIM;
    String s = ev.ty(t);
    if (s.equals("java.lang.String")) return Kind.STR;
    if (T.PRIMW.containsKey(s) || s.equals("Boolean") || s.equals("Float") || s.equals("Double")) return Kind.PRIM;
    if (ev.lib.isListType(t)) {
      if (t.getTypeArguments().isEmpty()) return Kind.OTHER;
      Kind e = kind(t.getTypeArguments().head);
      return e == Kind.STR ? Kind.LSTR : e == Kind.PRIM ? Kind.LPRIM : e == Kind.MSG ? Kind.LOBJ : Kind.OTHER;
    }
    if (t.tsym instanceof ClassSymbol && p.isSubSafe((ClassSymbol) t.tsym, CODEC)) return Kind.MSG;
    return Kind.OTHER;
  }

  Msg msg(ClassSymbol c) {
    Msg m = cache.get(c);
    if (m == null) {
      m = new Msg(c);
      cache.put(c, m);
    }
    m.sums();
    return m;
  }

  List<Msg> all() {
    List<Msg> r = new ArrayList<>();
    for (ClassSymbol c : p.messages()) r.add(msg(c));
    return r;
  }

  List<Msg> messages() {
    List<Msg> r = new ArrayList<>();
    for (ClassSymbol c : p.messages()) if (ONLY == null || looked(c)) r.add(msg(c));
    return r;
  }

  /** for trying out cases: source files whose messages to look at, beside the frames and a sample of the others */
  static final Set<String> ONLY = System.getProperty("wirefx.only") == null ? null : Set.of(System.getProperty("wirefx.only").split(","));

  private boolean looked(ClassSymbol c) {
    String n = c.outermostClass().getSimpleName().toString();
    for (Symbol x : c.members().getSymbols()) if (x instanceof ClassSymbol) return true;
    return ONLY.contains(n) || Math.floorMod(n.hashCode(), 16) == 0;
  }

  static List<Eff> map(List<Eff> l, java.util.function.UnaryOperator<T> f) {
    List<Eff> r = new ArrayList<>();
    for (Eff e : l) {
      Eff q = e.copy();
      q.buf = ap(f, e.buf);
      q.val = ap(f, e.val);
      q.len = ap(f, e.len);
      q.res = ap(f, e.res);
      q.pos0 = ap(f, e.pos0);
      q.cond = ap(f, e.cond);
      q.obj = ap(f, e.obj);
      q.idx = ap(f, e.idx);
      q.trip = ap(f, e.trip);
      if (e.curs != null) {
        q.curs = new HashMap<>();
        e.curs.forEach((k, v) -> q.curs.put(f.apply(k), f.apply(v)));
      }
      q.a = map(e.a, f);
      q.b = map(e.b, f);
      if (!e.handlers.isEmpty()) {
        q.handlers = new ArrayList<>();
        for (Eff.Handler h : e.handlers) {
          Eff.Handler g = new Eff.Handler();
          g.types = h.types;
          g.pos = h.pos;
          g.rethrows = h.rethrows;
          g.throwsTypes = h.throwsTypes;
          g.body = map(h.body, f);
          q.handlers.add(g);
        }
      }
      r.add(q);
    }
    return r;
  }

  private static T ap(java.util.function.UnaryOperator<T> f, T t) {
    return t == null ? null : f.apply(t);
  }

  // ------------------------------------------------------------------ scenarios

  static boolean isElem(T t, T list) {
    return t.is("get") && t.k[0] == list;
  }

  /** every text and list present; registered codes and algorithms */
  Scn base(Msg m) {
    return base(m, Set.of());
  }

  Scn base(Msg m, Set<VarSymbol> freeElems) {
    Scn s = new Scn(null, "all fields present");
    s.nonnull.add(m.encBuf());
    s.nonnull.add(m.decBuf());
    s.nonnull.add(m.that);
    s.rules.add(t -> t.is("isnull") && (t.k[0].is("mget") || t.k[0].is("created")) ? T.FALSE : null);
    for (VarSymbol f : m.fields) {
      T x = m.fld(f, m.self);
      switch (m.kind(f)) {
        case STR:
          present(s, x);
          break;
        case LSTR:
        case LOBJ:
        case LPRIM:
          s.nonnull.add(x);
          s.fact(T.mk("size", null, x), 1, T.MAXSIZE);
          if (freeElems.contains(f)) break;
          s.rules.add(
              t -> {
                if (t.is("isnull") && isElem(t.k[0], x)) return T.FALSE;
                if (t.is("eq0") && t.k[0].is("slen") && isElem(t.k[0].k[0], x)) return T.FALSE;
                return null;
              });
          break;
        case MSG:
          s.nonnull.add(x);
          break;
        default:
          if (!f.type.isPrimitive()) s.nonnull.add(x);
      }
    }
    return s;
  }

  static void present(Scn s, T x) {
    s.nonnull.add(x);
    s.fact(T.mk("slen", null, x), 1, T.MAXSIZE);
    s.fact(T.mk("blen", null, x), 1, T.MAXSIZE);
  }

  static final class Variation {
    VarSymbol f;
    String what; // null, empty, elem-null, elem-empty
  }

  List<Variation> variations(Msg m, boolean nullMsg) {
    List<Variation> r = new ArrayList<>();
    for (VarSymbol f : m.fields) {
      List<String> w;
      switch (m.kind(f)) {
        case STR:
        case LOBJ:
        case LPRIM:
          w = List.of("null", "empty");
          break;
        case LSTR:
          w = List.of("null", "empty", "with null elements", "with empty elements");
          break;
        case MSG:
          w = nullMsg ? List.of("null") : List.of();
          break;
        default:
          w = List.of();
      }
      for (String x : w) {
        Variation v = new Variation();
        v.f = f;
        v.what = x;
        r.add(v);
      }
    }
    return r;
  }

  Scn vary(Msg m, Scn base, Variation... vs) {
    StringBuilder lab = new StringBuilder();
    for (Variation v : vs) lab.append(lab.length() == 0 ? "" : ", ").append(m.prop.get(v.f)).append(" ").append(v.what);
    Scn s = new Scn(null, lab.toString());
    // start from the base without the facts about the varied fields
    Set<VarSymbol> free = new HashSet<>();
    for (Variation v : vs) if (v.what.startsWith("with")) free.add(v.f);
    Scn b = base(m, free);
    s.map.putAll(b.map);
    s.facts.putAll(b.facts);
    s.nonnull.addAll(b.nonnull);
    for (Variation v : vs) {
      T x = m.fld(v.f, m.self);
      switch (v.what) {
        case "null":
          s.nonnull.remove(x);
          s.map.put(x, T.NULL);
          break;
        case "empty":
          if (m.kind(v.f) == Kind.STR) {
            s.nonnull.remove(x);
            s.map.put(x, T.str(""));
          } else {
            s.facts.remove(T.mk("size", null, x));
            s.map.put(T.mk("size", null, x), T.ZERO);
          }
          break;
        case "with null elements":
          s.rules.add(t -> isElem(t, x) ? T.NULL : null);
          break;
        default:
          s.rules.add(t -> isElem(t, x) ? T.str("") : null);
      }
    }
    s.rules.addAll(b.rules);
    return s;
  }
}
