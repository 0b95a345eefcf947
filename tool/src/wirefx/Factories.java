package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;

/** The registries: checksum services by name, message classes by type code. */
final class Factories {
  final Ctx cx;
  final Prog p;
  final Report r;
  final Dispatch dp;

  Factories(Ctx cx, Report r) {
    this.cx = cx;
    this.p = cx.p;
    this.r = r;
    dp = new Dispatch(cx);
  }

  MethodSymbol method(ClassSymbol c, String name, int params) {
    MethodSymbol best = null;
    for (Symbol s : c.members().getSymbols())
      if (s instanceof MethodSymbol && s.name.contentEquals(name) && ((MethodSymbol) s).params().size() == params && p.methods.containsKey(s) && (s.flags() & Flags.PRIVATE) == 0) best = (MethodSymbol) s;
    return best;
  }

  T instance(ClassSymbol c) {
    cx.ev.init(c);
    for (Symbol s : c.members().getSymbols())
      if (s instanceof VarSymbol && (s.flags() & Flags.ENUM) != 0) return T.mk("enum", c.flatName() + "." + s.name);
    return null;
  }

  static T par(String n, Type t, Eval ev) {
    return T.mk("param", n + ":" + ev.ty(t));
  }

  static final class Run {
    St st;
    T ret;
    List<Eff> tr;
    MethodSymbol m;
  }

  private final Map<St, Eff> dirty = new IdentityHashMap<>();

  Run call(T self, MethodSymbol m, List<T> args, St from) {
    Run x = new Run();
    x.st = from == null ? new St() : from;
    x.st.tr = new ArrayList<>();
    x.m = m;
    x.ret = cx.ev.invoke(m, m.isStatic() ? null : self, args, x.st, p.pos(m), true);
    x.tr = x.st.tr;
    Eff[] unk = {null};
    Eff.walk(x.tr, e -> {
      if (e.is("UNK") && unk[0] == null) unk[0] = e;
    });
    if (unk[0] == null) unk[0] = dirty.get(x.st);
    if (unk[0] != null) {
      // after an effect that is not modelled, neither the result nor the maps are known
      dirty.put(x.st, unk[0]);
      if (x.m.getReturnType().getKind() != javax.lang.model.type.TypeKind.VOID) x.ret = T.opaque("after " + unk[0].name, x.ret);
      if (!x.tr.contains(unk[0])) {
        x.tr = new ArrayList<>(x.tr);
        x.tr.add(0, unk[0]);
      }
    }
    return x;
  }

  /** effects left in a scenario: what throws, and what else the method did */
  static final class Out {
    String thrown;
    boolean und;
    String why = "";
    T cond; // what it depends on
  }

  Out follow(List<Eff> l, Scn s) {
    Out o = new Out();
    go(l, s, o);
    return o;
  }

  private boolean go(List<Eff> l, Scn s, Out o) {
    for (Eff e : l) {
      switch (e.kind) {
        case "CHO":
          {
            T c = s.spec(e.cond);
            if (c == T.TRUE) {
              if (go(e.a, s, o)) return true;
            } else if (c == T.FALSE) {
              if (go(e.b, s, o)) return true;
            } else if (Eff.anyOf(e.a, x -> x.is("THROW") || x.is("UNK")) || Eff.anyOf(e.b, x -> x.is("THROW") || x.is("UNK"))) {
              o.und = true;
              o.cond = c;
              o.why = "condition " + c;
            }
            break;
          }
        case "THROW":
          o.thrown = e.name;
          return true;
        case "DEREF":
          if (s.spec(e.obj).is("null")) {
            o.thrown = "java.lang.NullPointerException";
            return true;
          }
          break;
        case "UNK":
          o.und = true;
          o.why = e.name;
          break;
        case "TRY":
          {
            Out q = new Out();
            boolean t = go(e.a, s, q);
            o.und |= q.und;
            if (o.cond == null) o.cond = q.cond;
            if (t) {
              boolean caught = false;
              for (Eff.Handler h : e.handlers)
                if (h.types.stream().anyMatch(x -> CodecChecks.catches(x, q.thrown))) {
                  caught = true;
                  if (go(h.body, s, o)) return true;
                  break;
                }
              if (!caught) {
                o.thrown = q.thrown;
                return true;
              }
            }
            break;
          }
        default:
          break;
      }
    }
    return false;
  }

  /** the name looked at is not in the registry, others may be */
  private boolean foreign;

  void eq(String rule, String site, String pos, T got, T want, String what) {
    if (got != want && foreign && got.any(x -> x.is("scan")) && !got.any(x -> x.is("mkat"))) {
      // with a single entry present, of another name
      Scn w = scn("");
      w.rules.add(x -> x.is("typed") && "msize:int".equals(x.a) && x.k[0].is("map0") ? T.ONE : null);
      T g = w.spec(got);
      if (!Wire.opaque(g)) got = g;
    }
    if (got == want) r.ok(rule, site);
    else if (Wire.opaque(got) || got.any(x -> x.is("mget") && x.k[0].any(y -> y.is("opaque") || y.is("mrem1") || y.is("mrit") || y.is("mpart") || y.is("mfpart") || y.is("mrep") || y.is("phi")))) r.undecided(rule, site, pos, what + " is " + got);
    else r.bad(rule, site, pos, what + " is " + got + ", expected " + want);
  }

  Scn scn(String l) {
    Scn s = new Scn(null, l);
    s.rules.addAll(always);
    return s;
  }

  /** what holds in every scenario of the case looked at */
  private final List<java.util.function.Function<T, T>> always = new ArrayList<>();

  /** the constants a method compares a code with */
  private void constants(Run x, T k, Set<T> out) {
    List<T> ts = new ArrayList<>();
    Eff.walk(x.tr, e -> ts.addAll(e.terms()));
    Eff.walk(x.tr, e -> {
      if (e.cond != null) ts.add(e.cond);
    });
    if (x.ret != null) ts.add(x.ret);
    for (T t : ts)
      t.each(y -> {
        T n = compared(y, k);
        if (n != null) out.add(n);
      });
  }

  private static T compared(T y, T k) {
    if (y.is("objeq")) {
      T o = y.k[0] == k ? y.k[1] : y.k[1] == k ? y.k[0] : null;
      return o != null && (o.isNum() || o.is("str")) ? o : null;
    }
    if (!y.is("eq0")) return null;
    long f = T.coef(y.k[0], k);
    if (f != 1 && f != -1) return null;
    T rest = T.sub(y.k[0], T.scale(k, f));
    return rest.isNum() ? T.num(-f * rest.n()) : null;
  }

  private static java.util.function.Function<T, T> none(T k, Set<T> ns) {
    return t -> {
      T n = compared(t, k);
      return n != null && ns.contains(n) ? T.FALSE : null;
    };
  }

  static void equal(Scn s, T a, T b, boolean v) {
    for (T t : new T[] {T.objEq(a, b), T.objEq(b, a), T.same(a, b), T.same(b, a)}) if (!t.isBoolConst()) s.map.put(t, T.bool(v));
    if (v) s.rules.add(x -> x == b ? a : null);
    else for (T t : new T[] {T.samekey(a, b), T.samekey(b, a)}) if (!t.isBoolConst()) s.map.put(t, T.FALSE);
  }

  // ------------------------------------------------------------------ checksum registry (C11)

  static final String[][] ALGS = {{"CRC16", "com.finproto.codec.Crc16ChecksumService"}, {"CRC32", "com.finproto.codec.Crc32ChecksumService"}, {"SSE_BIN", "com.finproto.codec.SseBinChecksumService"}, {"SZSE_BIN", "com.finproto.codec.SzseBinChecksumService"}};

  void registry() {
    ClassSymbol c = p.cls("com.finproto.codec.ChecksumServiceFactory");
    if (c == null) {
      r.broken.add("ChecksumServiceFactory not found");
      return;
    }
    T self = instance(c);
    MethodSymbol get = method(c, "getChecksumService", 1), reg = method(c, "registry", 1), rem = method(c, "removeChecksumService", 1), clr = method(c, "clearAllChecksumService", 0), inst = method(c, "getInstance", 0);
    if (self == null || get == null || reg == null || rem == null || clr == null || inst == null) {
      r.broken.add("methods of ChecksumServiceFactory not found");
      return;
    }
    // one instance
    eq("one registry", c + ".getInstance", p.pos(inst), call(null, inst, List.of(), null).ret, self, "the registry");
    // default contents
    for (String[] a : ALGS) {
      T v = dp.initial(call(self, get, List.of(T.str(a[0])), null).ret);
      String site = "default registration of " + a[0];
      if (v.is("null")) r.bad("default services", site, p.pos(c), "nothing is registered for " + a[0]);
      else if (!v.is("new")) r.undecided("default services", site, p.pos(c), "registers " + v);
      else {
        String cn = Wire.cls(v, null);
        r.check(cn.equals(a[1]), "default services", site, p.pos(c), "a " + cn + " is registered for " + a[0]);
      }
      ClassSymbol k = p.cls(a[1]);
      MethodSymbol al = k == null ? null : p.method(k, "algorithm");
      if (al == null) r.broken.add(a[1] + ".algorithm not found");
      else eq("service names", a[1], p.pos(al), cx.ev.run(k, al).ret, T.str(a[0]), "algorithm()");
    }
    ClassSymbol names = p.cls("com.finproto.codec.ChecksumAlgorithms");
    if (names != null)
      for (String[] a : ALGS)
        for (Symbol s : names.members().getSymbols())
          if (s instanceof VarSymbol && s.name.contentEquals(a[0]))
            r.check(a[0].equals(((VarSymbol) s).getConstValue()), "service names", "ChecksumAlgorithms." + s.name, p.pos(names), "is " + ((VarSymbol) s).getConstValue());
    // lookups
    T svc = par("svc", reg.params().get(0).type, cx.ev), n = T.mk("param", "name:java.lang.String"), n2 = T.mk("param", "name2:java.lang.String");
    T algo = T.mk("algo", null, svc);
    T before = call(self, get, List.of(n), null).ret, before2 = call(self, get, List.of(n2), null).ret, beforeA = call(self, get, List.of(algo), null).ret;
    Run g = call(self, get, List.of(n), null);
    pure("lookup", g, List.of());
    eq("lookup of an absent name", "getChecksumService", p.pos(get), specAbsent(g.ret), T.NULL, "the result");
    // registry(svc)
    for (boolean present : new boolean[] {true, false}) {
      Scn s = scn("");
      s.nonnull.add(svc);
      s.map.put(T.isnull(beforeA), T.bool(!present));
      if (!present) s.map.put(beforeA, T.NULL);
      else s.nonnull.add(beforeA);
      s.enter();
      foreign = !present;
      try {
        String site = "registry of a " + (present ? "taken" : "free") + " name";
        Run x = call(self, reg, List.of(svc), null);
        Out o = follow(x.tr, s);
        if (o.und) r.undecided("register", site, p.pos(reg), o.why);
        else if (o.thrown != null) r.bad("register", site, p.pos(reg), "throws " + o.thrown);
        eq("register", site, p.pos(reg), s.spec(x.ret), T.bool(!present), "the result");
        // a look-up afterwards
        St after = x.st;
        T now = s.spec(call(self, get, List.of(algo), after).ret);
        eq("register", site, p.pos(reg), now, present ? s.spec(beforeA) : svc, "the service found afterwards");
        // an equal name that is another object
        Scn s3 = scn("");
        s3.map.putAll(s.map);
        s3.nonnull.addAll(s.nonnull);
        s3.nonnull.add(n2);
        s3.map.put(T.objEq(algo, n2), T.TRUE);
        s3.map.put(T.objEq(n2, algo), T.TRUE);
        s3.rules.add(q -> q.is("mget") && q.k[0].is("map0") && q.k[1] == n2 ? s.spec(beforeA) : null);
        s3.enter();
        eq("register", site + ", looked up by an equal name", p.pos(reg), s3.spec(call(self, get, List.of(n2), after).ret), present ? s.spec(beforeA) : svc, "the service found afterwards");
        Scn s2 = scn("");
        s2.map.putAll(s.map);
        s2.nonnull.addAll(s.nonnull);
        equal(s2, algo, n2, false);
        s2.enter();
        T other = s2.spec(call(self, get, List.of(n2), after).ret);
        eq("register leaves other names alone", site, p.pos(reg), other, s2.spec(before2), "another name's service");
      } finally {
        foreign = false;
        Scn.leave();
      }
    }
    // remove(n)
    {
      Scn s = scn("");
      s.nonnull.add(n);
      s.enter();
      try {
        Run x = call(self, rem, List.of(n), null);
        Out o = follow(x.tr, s);
        if (o.und) r.undecided("remove", "removeChecksumService", p.pos(rem), o.why);
        else if (o.thrown != null) r.bad("remove", "removeChecksumService", p.pos(rem), "throws " + o.thrown);
        eq("remove", "removeChecksumService", p.pos(rem), s.spec(call(self, get, List.of(n), x.st).ret), T.NULL, "the service found afterwards");
        Scn s2 = scn("");
        equal(s2, n, n2, false);
        s2.enter();
        eq("remove leaves other names alone", "removeChecksumService", p.pos(rem), s2.spec(call(self, get, List.of(n2), x.st).ret), s2.spec(before2), "another name's service");
      } finally {
        Scn.leave();
      }
    }
    {
      Run x = call(self, clr, List.of(), null);
      eq("clear", "clearAllChecksumService", p.pos(clr), call(self, get, List.of(n), x.st).ret, T.NULL, "the service found afterwards");
    }
    r.floor("checksum services", p.implementers("com.finproto.codec.ChecksumService").size(), 4);
  }

  private T specAbsent(T t) {
    Scn s = scn("");
    s.rules.add(x -> x.is("mget") ? T.NULL : null);
    s.enter();
    try {
      return s.spec(t);
    } finally {
      Scn.leave();
    }
  }

  private void pure(String rule, Run x, List<String> allowed) {
    Eff[] bad = {null};
    Eff.walk(x.tr, e -> {
      if (CodecChecks.in(e.kind, "MPUT", "MREM", "MCLR", "FSET", "SWRITE", "LMUT") && bad[0] == null) bad[0] = e;
    });
    if (bad[0] == null) r.ok(rule, x.m.toString());
    else r.bad(rule, x.m.toString(), bad[0].pos, "the look-up changes the registry: " + bad[0]);
  }

  // ------------------------------------------------------------------ message factories (C12, C13, C14)

  List<ClassSymbol> factories() {
    List<ClassSymbol> l = new ArrayList<>();
    for (Symbol s : p.classes.keySet()) {
      ClassSymbol c = (ClassSymbol) s;
      if (c.isEnum() && method(c, "create", 1) != null && method(c, "remove", 1) != null) l.add(c);
    }
    return l;
  }

  void contract(boolean regs, boolean unknown) {
    int n = 0;
    for (ClassSymbol c : factories()) {
      n++;
      String cn = c.flatName().toString();
      T self = instance(c);
      MethodSymbol create = method(c, "create", 1), rem = method(c, "remove", 1), reg2 = method(c, "register", 2), reg3 = method(c, "register", 3), reg = reg2 != null ? reg2 : reg3, inst = method(c, "getInstance", 0);
      if (self == null || reg == null) {
        r.broken.add("factory " + cn + " has no instance or register method");
        continue;
      }
      int ki = reg == reg3 ? 1 : 0;
      T k = par("code", create.params().get(0).type, cx.ev), k2 = par("code2", create.params().get(0).type, cx.ev), sup = par("sup", reg.params().get(ki + 1).type, cx.ev), cls = T.mk("param", "clazz:java.lang.Class");
      Set<T> ns = new LinkedHashSet<>();
      constants(call(self, create, List.of(k), null), k, ns);
      constants(call(self, rem, List.of(k), null), k, ns);
      constants(call(self, reg, ki == 1 ? List.of(cls, k, sup) : List.of(k, sup), null), k, ns);
      if (ns.isEmpty() || ns.size() > 12) {
        contract(c, self, create, rem, reg, inst, ki, k, k2, sup, cls, regs, unknown);
        continue;
      }
      // codes it singles out, one by one, and the others
      for (T a : ns) {
        always.add(none(k2, ns));
        contract(c, self, create, rem, reg, inst, ki, a, k2, sup, cls, regs, unknown);
        always.clear();
        always.add(none(k, ns));
        contract(c, self, create, rem, reg, inst, ki, k, a, sup, cls, regs, unknown);
        always.clear();
        for (T b : ns) if (a != b) contract(c, self, create, rem, reg, inst, ki, a, b, sup, cls, regs, unknown);
      }
      always.add(none(k, ns));
      always.add(none(k2, ns));
      contract(c, self, create, rem, reg, inst, ki, k, k2, sup, cls, regs, unknown);
      always.clear();
    }
    r.floor("message factories", n, 18);
  }

  private void contract(ClassSymbol c, T self, MethodSymbol create, MethodSymbol rem, MethodSymbol reg, MethodSymbol inst, int ki, T k, T k2, T sup, T cls, boolean regs, boolean unknown) {
    String cn = c.flatName().toString();
    List<T> ra = ki == 1 ? List.of(cls, k, sup) : List.of(k, sup);
    if (regs) {
      if (inst != null) eq("one factory", cn, p.pos(inst), call(null, inst, List.of(), null).ret, self, "the factory");
      // a code with a supplier: its product, fresh
      made(cn, p.pos(create), "create", self, create, k, null, null, null);
      // after register(code, supplier)
      made(cn, p.pos(reg), "create after register", self, create, k, () -> reg(self, reg, ra), sup, null);
      made(cn, p.pos(reg), "create after register of a new code", self, create, k, () -> reg(self, reg, ra), sup, null, false, 0);
      Scn o = scn("");
      equal(o, k, k2, false);
      made(cn, p.pos(reg), "create of another code after register", self, create, k2, () -> reg(self, reg, ra), null, o);
      // after remove(code)
      for (boolean had : new boolean[] {true, false}) {
        Scn s = scn("");
        s.nonnull.add(k);
        T g = lookup(self, create, k);
        if (g != null) {
          if (had) s.nonnull.add(g);
          else s.map.put(g, T.NULL);
          s.map.put(T.isnull(g), T.bool(!had));
        }
        s.rules.add(t -> t.is("isnull") && t.k[0].is("mget") ? T.bool(!had) : null);
        s.enter();
        Run x = call(self, rem, List.of(k), null);
        Out q = follow(x.tr, s);
        if (q.und) r.undecided("remove", cn, p.pos(rem), q.why);
        else if (q.thrown != null) r.bad("remove", cn, p.pos(rem), "throws " + q.thrown);
        else eq("remove", cn, p.pos(rem), s.spec(x.ret), T.bool(had), "the result for a code that " + (had ? "was" : "was not") + " registered");
        Scn.leave();
      }
      Scn o2 = scn("");
      equal(o2, k, k2, false);
      made(cn, p.pos(rem), "create of another code after remove", self, create, k2, () -> call(self, rem, List.of(k), null).st, null, o2);
    }
    if (unknown || regs) {
      // after remove(code), and for codes never registered
      for (boolean removed : new boolean[] {true, false}) {
        if (!unknown && !removed) continue;
        Scn s = scn("");
        s.nonnull.add(k);
        s.rules.add(t -> t.is("mget") ? T.NULL : null);
        s.enter();
        St st = removed ? call(self, rem, List.of(k), null).st : null;
        Run y = call(self, create, List.of(k), st);
        Scn s2 = s;
        if (removed) {
          // only the removal itself may make it unknown
          s2 = scn("");
          s2.nonnull.add(k);
          s2.enter();
        }
        Out q = follow(y.tr, s2);
        String site = cn + ".create of a code " + (removed ? "removed before" : "never registered");
        Scn.leave();
        T wit = q.und && q.thrown == null ? witness(self, create, removed ? rem : null, k) : null;
        if (wit != null) r.bad("unknown code", site, p.pos(create), "no IllegalArgumentException for the code " + wit);
        else if (q.und && q.thrown == null) r.undecided("unknown code", site, p.pos(create), q.why);
        else if (q.thrown == null) r.bad("unknown code", site, p.pos(create), "no exception, returns " + s2.spec(y.ret));
        else r.check(CodecChecks.isIae(p, q.thrown), "unknown code", site, p.pos(create), "throws " + q.thrown + ", expected IllegalArgumentException");
        Scn.leave();
      }
      if (unknown) {
        // an unknown code leaves no trace
        Run y = call(self, create, List.of(k), null);
        pure("unknown code", y, List.of());
      }
    }
  }

  /** constant propagation from codes, with an entry for every other code: one for which create succeeds */
  private T witness(T self, MethodSymbol create, MethodSymbol rem, T k) {
    List<T> ws = new ArrayList<>();
    if (cx.ev.ty(create.params().get(0).type).equals("java.lang.String"))
      for (String w : new String[] {"", "0", "7", "12", "070", "120", "123", "ABC", " 12", "1234", "F000", "000000", "123456789"}) ws.add(T.str(w));
    else for (long w : new long[] {0, 1, -1, 7, 33, 100, 255, 256, 5000, 32767, -32768}) ws.add(T.num(w));
    for (T w : ws) {
      Scn s = scn("");
      s.rules.add(t -> t.is("isnull") && t.k[0].is("mget") && t.k[0].k[0].is("map0") ? T.bool(rem == null && t.k[0].k[1] == w) : null);
      if (rem == null) s.rules.add(t -> t.is("mget") && t.k[0].is("map0") && t.k[1] == w ? T.NULL : null);
      String kt = cx.ev.ty(create.params().get(0).type);
      s.rules.add(t -> t.is("classis") && t.k[0] == w ? T.bool(kt.equals(t.a)) : null);
      s.enter();
      try {
        St st = rem == null ? null : call(self, rem, List.of(w), null).st;
        Run y = call(self, create, List.of(w), st);
        Out q = follow(y.tr, s);
        if (!q.und && q.thrown == null && !Wire.opaque(s.spec(y.ret))) return w;
        if (!q.und && q.thrown != null && !CodecChecks.isIae(p, q.thrown)) return w;
      } finally {
        Scn.leave();
      }
    }
    return null;
  }

  /** the map look-up create makes */
  T lookup(T self, MethodSymbol create, T k) {
    return CodecChecks.get(call(self, create, List.of(k), null).ret);
  }

  St reg(T self, MethodSymbol m, List<T> a) {
    return call(self, m, a, null).st;
  }

  private void made(String cn, String pos, String what, T self, MethodSymbol create, T k, java.util.function.Supplier<St> st, T sup, Scn s) {
    made(cn, pos, what, self, create, k, st, sup, s, true, 0);
  }

  /** a condition on the entries there happen to be, which any history can make true or false */
  private static boolean free(T c) {
    T x = c.is("not") ? c.k[0] : c;
    if (x.is("and") || x.is("or")) {
      for (T k : x.k) if (!free(k)) return false;
      return true;
    }
    if (x.is("same") || x.is("objeq")) {
      // an entry there is, or the supplier handed in
      boolean entry = false;
      for (T k : x.k) {
        if (k.is("mget") && k.k[0].is("map0")) entry = true;
        else if (!k.is("param") && !k.isNum() && !k.is("str")) return false;
      }
      return entry;
    }
    if (x.is("isnull") && x.k[0].is("param")) return true;
    if (x.is("mhas")) return x.k[0].is("map0") && x.k[1].is("param");
    if (!x.is("gt0") && !x.is("eq0")) return false;
    return x.any(y -> y.is("typed")) && !x.k[0].any(y -> !y.isNum() && !y.is("lin") && !y.is("map0") && !y.is("new") && !y.is("sfld") && !y.is("enum") && !(y.is("typed") && "msize:int".equals(y.a) && y.k[0].is("map0")));
  }

  /** one and the same supplier; of two equal ones either will do */
  private static void equated(T c, boolean v, Scn z) {
    if (c.is("not")) equated(c.k[0], !v, z);
    else if (c.is("and") && v || c.is("or") && !v) for (T k : c.k) equated(k, v, z);
    else if ((c.is("same") || c.is("objeq")) && v) {
      T a = c.k[0].is("param") ? c.k[1] : c.k[0], w = c.k[0] == a ? c.k[1] : c.k[0];
      if (w.is("param") && ("" + w.a).startsWith("sup:")) z.map.put(a, w);
    }
  }

  /** two different codes of the given kind, to try what depends on their values alone */
  private static final long[][] PAIRS = {{1, 2}, {10, 11}, {7, -7}, {3, 259}, {0, 65536}, {1, 1000001}, {100101, 100201}};
  private static final String[][] WORDS = {{"010", "011"}, {"010", "10"}, {"a", "A"}, {"010", " 010"}, {"010", "0100"}, {"12", "21"}};

  /** made here or there, by the same supplier */
  private static T one(T v) {
    if (!v.is("gamma")) return v;
    T a = one(v.k[1]), b = one(v.k[2]);
    return a.is("created") && b.is("created") && a.k[0] == b.k[0] ? a : v;
  }

  private void made(String cn, String pos, String what, T self, MethodSymbol create, T k, java.util.function.Supplier<St> st, T sup, Scn s, boolean had, int d) {
    if (s == null) s = scn("");
    Scn x = s;
    x.nonnull.add(k);
    x.nonnull.add(sup != null ? sup : T.mk("param", "sup:java.util.function.Supplier"));
    if (!had) x.rules.add(t -> t.is("mget") && t.k[0].is("map0") && t.k[1] == k ? T.NULL : null);
    x.rules.add(t -> t.is("isnull") && (t.k[0].is("mget") || t.k[0].is("created")) ? T.bool(!had && t.k[0].is("mget")) : null);
    x.enter();
    try {
      Run y = call(self, create, List.of(k), st == null ? null : st.get());
      Out q = follow(y.tr, x);
      String site = cn + ": " + what;
      T v0 = q.und ? null : x.spec(y.ret), open = q.und ? q.cond : v0 != null && v0.is("gamma") ? v0.k[0] : v0 != null && v0.is("created") && v0.k[0].is("gamma") ? v0.k[0].k[0] : null;
      if (open != null && free(open) && d < 4) {
        for (boolean b : new boolean[] {true, false}) {
          Scn z = new Scn(x, x.label);
          z.enter();
          z.assume(open, b);
          equated(open, b, z);
          z.memo = null;
          if (Rt.feasible(z)) made(cn, pos, what, self, create, k, st, sup, z, had, d + 1);
        }
        return;
      }
      T by = q.und ? q.cond : v0;
      if (by != null && had && d < 4 && by.any(z -> z.is("scan"))) {
        // with that one code registered
        Scn z = new Scn(x, x.label);
        z.rules.add(t -> t.is("typed") && "msize:int".equals(t.a) && t.k[0].is("map0") ? T.ONE : t.is("mvat") && t.k[0].is("map0") ? T.mget(t.k[0], k) : t.is("mkat") && t.k[0].is("map0") ? k : null);
        int was = r.faults();
        made(cn, pos, what, self, create, k, st, sup, z, true, 4);
        if (r.faults() > was) return;
      }
      if (by != null && (q.und || one(v0).is("gamma") || v0.is("created") && v0.k[0].is("gamma")) && d < 4 && by.any(z -> z.is("param") && ("" + z.a).startsWith("code")) && !Wire.opaque(q.und ? by : T.TRUE)) {
        // what depends on the values of the codes
        String kt = k.vtype();
        boolean txt = "java.lang.String".equals(kt);
        for (int i = 0; i < (txt ? WORDS.length : PAIRS.length); i++)
          for (boolean flip : new boolean[] {false, true}) {
            Scn z = new Scn(x, x.label);
            for (int j = 0; j < 2; j++) z.map.put(T.mk("param", (j == 0 ? "code:" : "code2:") + kt), txt ? T.str(WORDS[i][flip ? 1 - j : j]) : T.num(PAIRS[i][flip ? 1 - j : j]));
            z.memo = null;
            int was = r.faults();
            made(cn, pos, what, self, create, k, st, sup, z, had, 4);
            if (r.faults() > was) return;
          }
      }
      if (q.und) r.undecided("create", site, pos, q.why);
      else if (q.thrown != null) r.bad("create", site, pos, "throws " + q.thrown);
      else {
        T v = one(x.spec(y.ret));
        if (v.is("created")) {
          T from = v.k[0];
          T want = sup != null ? sup : CodecChecks.get(x.spec(call(self, create, List.of(k), null).ret));
          if (from.any(z -> z.is("mrem1") && (z.k[0].is("map0") || z.k[0].is("mrem") && z.k[0].k[0].is("map0")) && (z.k[1].is("param") && sup == null || z.k[1].is("mget") && z.k[1].k[0].is("map0")))) r.bad("create", site, pos, "the entry taken away is one with an equal supplier, which another code can have");
          else eq("create", site, pos, from, want, "the supplier used");
        } else if (Wire.opaque(v)) r.undecided("create", site, pos, "returns " + v);
        else r.bad("create", site, pos, "returns " + v + ", not a new instance from the supplier");
      }
    } finally {
      Scn.leave();
    }
  }

  // ------------------------------------------------------------------ SSE: class to code (C14)

  void twoWay(List<Dispatch.Table> tables) {
    int n = 0;
    for (ClassSymbol c : factories()) {
      MethodSymbol rev = null;
      for (Symbol s : c.members().getSymbols())
        if (s instanceof MethodSymbol && ((MethodSymbol) s).params().size() == 1 && cx.ev.ty(((MethodSymbol) s).params().get(0).type).equals("java.lang.Class") && p.methods.containsKey(s)) rev = (MethodSymbol) s;
      if (rev == null) continue;
      n++;
      T self = instance(c);
      String cn = c.flatName().toString();
      MethodSymbol reg = method(c, "register", 3), rem = method(c, "remove", 1), create = method(c, "create", 1);
      if (reg == null) {
        r.broken.add(cn + ".register(Class, code, supplier) not found");
        continue;
      }
      // the default table, both ways
      for (Dispatch.Table t : tables) {
        if (!cn.startsWith(t.msg + "$")) continue;
        for (Map.Entry<T, String> e : t.classes.entrySet()) {
          T code = dp.initial(call(self, rev, List.of(T.mk("class", e.getValue())), null).ret);
          eq("code of a class", e.getValue(), p.pos(rev), unbox(code), e.getKey(), "its type code");
          Run y = call(self, create, List.of(e.getKey()), null);
          String k = dp.made(dp.initial(y.ret), new boolean[1]);
          if (k == null) r.undecided("class of a code", t.msg, p.pos(create), "builds " + y.ret);
          else r.check(k.equals(e.getValue()), "class of a code", t.msg + " " + e.getKey(), p.pos(create), "builds a " + k + ", expected " + e.getValue());
        }
      }
      // register and remove keep the two ways consistent
      T cl = T.mk("param", "clazz:java.lang.Class"), cl2 = T.mk("param", "clazz2:java.lang.Class"), k = par("code", create.params().get(0).type, cx.ev), k2 = par("code2", create.params().get(0).type, cx.ev), sup = par("sup", reg.params().get(2).type, cx.ev);
      Scn s = scn("");
      s.nonnull.addAll(List.of(cl, cl2, k, k2, sup));
      equal(s, cl, cl2, false);
      s.enter();
      try {
        Run x = call(self, reg, List.of(cl, k, sup), null);
        eq("register sets both ways", cn, p.pos(reg), s.spec(call(self, rev, List.of(cl), x.st).ret), k, "the code of the registered class");
        made(cn, p.pos(reg), "create after register", self, create, k, () -> reg(self, reg, List.of(cl, k, sup)), sup, null);
        s.enter();
        T old = call(self, rev, List.of(cl2), null).ret;
        {
          // a class that was never registered, such as a subclass of the one just registered
          Scn q = scn("");
          q.nonnull.addAll(s.nonnull);
          q.map.putAll(s.map);
          q.rules.addAll(s.rules);
          q.rules.add(t -> t.is("pure") && "java.lang.Class.getSuperclass".equals(t.a) && t.k[0] == cl2 ? cl : null);
          q.rules.add(t -> t.is("mget") && t.k[0].is("map0") && t.k[1] == cl2 ? T.NULL : null);
          q.enter();
          T rt = q.spec(call(self, rev, List.of(cl2), call(self, reg, List.of(cl, k, sup), null).st).ret);
          eq("no code without registration", cn, p.pos(rev), rt, T.NULL, "the code of a class not registered");
          s.enter();
        }
        for (boolean same : new boolean[] {true, false}) {
          Scn q = scn("");
          q.nonnull.addAll(s.nonnull);
          q.map.putAll(s.map);
          q.rules.addAll(s.rules);
          q.nonnull.add(old);
          equal(q, old, k, same);
          q.enter();
          T want = same ? T.NULL : old;
          T rt = q.spec(call(self, rev, List.of(cl2), call(self, reg, List.of(cl, k, sup), null).st).ret);
          eq("register keeps the two ways consistent", cn, p.pos(reg), rt, want, "the code of another class that had " + (same ? "this" : "another") + " code");
          rt = q.spec(call(self, rev, List.of(cl2), call(self, rem, List.of(k), null).st).ret);
          eq("remove keeps the two ways consistent", cn, p.pos(rem), rt, want, "the code of a class that had " + (same ? "this" : "another") + " code");
        }
      } finally {
        Scn.leave();
      }
      names(c);
    }
    r.floor("factories with a class to code table", n, 1);
  }

  static T unbox(T t) {
    return t;
  }

  /** named codes: the look-up by value gives the constant that has the value */
  private void names(ClassSymbol c) {
    for (Symbol s : c.members().getSymbols()) {
      if (!(s instanceof ClassSymbol) || !((ClassSymbol) s).isEnum()) continue;
      ClassSymbol e = (ClassSymbol) s;
      MethodSymbol from = null, get = null;
      for (Symbol x : e.members().getSymbols()) {
        if (!(x instanceof MethodSymbol) || !p.methods.containsKey(x)) continue;
        MethodSymbol m = (MethodSymbol) x;
        if (m.isStatic() && m.params().size() == 1 && m.getReturnType().tsym == e) from = m;
        if (!m.isStatic() && !m.isConstructor() && m.params().isEmpty() && cx.ev.ty(m.getReturnType()).equals("int")) get = m;
      }
      if (from == null || get == null) continue;
      cx.ev.init(e);
      Set<T> values = new LinkedHashSet<>();
      int keep = cx.ev.unrollAll;
      cx.ev.unrollAll = 64;
      try {
        for (Symbol x : e.members().getSymbols()) {
          if (!(x instanceof VarSymbol) || (x.flags() & Flags.ENUM) == 0) continue;
          T k = T.mk("enum", e.flatName() + "." + x.name);
          T v = call(k, get, List.of(), null).ret;
          if (!v.isNum()) {
            r.undecided("named code", k.toString(), p.pos(get), "value " + v);
            continue;
          }
          values.add(v);
          Scn sc = initialScn();
          try {
            Run b = call(null, from, List.of(v), null);
            Out o = follow(b.tr, sc);
            if (o.thrown != null) r.bad("named code", k.toString(), p.pos(from), from.name + "(" + v + ") throws " + o.thrown);
            else if (o.und) r.undecided("named code", k.toString(), p.pos(from), o.why);
            else eq("named code", k.toString(), p.pos(from), sc.spec(b.ret), k, from.name + "(" + v + ")");
          } finally {
            Scn.leave();
          }
        }
        unknownName(e, from, values);
      } finally {
        cx.ev.unrollAll = keep;
      }
    }
  }

  /** a scenario in which every static map holds what the static initialisers left in it */
  private Scn initialScn() {
    Scn s = scn("");
    s.rules.add(
        x -> {
          if (!x.is("map0")) return null;
          T c = cx.ev.sw.cells.get(T.mk("map", null, x.k[0]));
          return c == x ? null : c;
        });
    s.enter();
    return s;
  }

  /** a value that no constant has */
  private void unknownName(ClassSymbol e, MethodSymbol from, Set<T> values) {
    String site = e.flatName() + "." + from.name + " of a value no constant has";
    T v = par("value", from.params().get(0).type, cx.ev);
    Scn s = initialScn();
    try {
      for (T c : values) {
        T q = T.eq0(T.sub(v, c));
        s.map.put(q, T.FALSE);
        s.map.put(T.not(q), T.TRUE);
      }
      Set<T> vs = values;
      s.rules.add(x -> x.is("mget") && x.k[1] == v && constKeys(dp.initial(x.k[0]), vs) ? T.NULL : null);
      Run b = call(null, from, List.of(v), null);
      Out o = follow(b.tr, s);
      if (o.thrown != null && !o.und) {
        r.check(CodecChecks.isIae(p, o.thrown), "unknown name", site, p.pos(from), "throws " + o.thrown + ", expected IllegalArgumentException");
        return;
      }
      T ret = s.spec(b.ret);
      if (o.thrown == null && !o.und && !Wire.opaque(ret)) {
        r.bad("unknown name", site, p.pos(from), "no exception, returns " + ret);
        return;
      }
    } finally {
      Scn.leave();
    }
    // constant propagation from values that no constant has
    Set<Long> ws = new LinkedHashSet<>();
    for (T c : values)
      if (c.isNum()) {
        long n = c.n();
        for (long w : new long[] {n + 256, n + 65536, -n, n - 256, n + 128, n + (1L << 24), n - (1L << 31), ~n, n << 8, n + 1, n - 1}) ws.add((long) (int) w);
      }
    for (long w : new long[] {0, -1, 1, Integer.MAX_VALUE, Integer.MIN_VALUE}) ws.add(w);
    boolean und = false;
    for (long w : ws) {
      if (values.contains(T.num(w))) continue;
      Scn q = initialScn();
      try {
        Run b = call(null, from, List.of(T.num(w)), null);
        Out o = follow(b.tr, q);
        T ret = q.spec(b.ret);
        if (o.und || o.thrown == null && Wire.opaque(ret)) {
          und = true;
          continue;
        }
        if (o.thrown == null) {
          r.bad("unknown name", site, p.pos(from), from.name + "(" + w + ") is " + ret + ", expected IllegalArgumentException");
          return;
        }
        if (!CodecChecks.isIae(p, o.thrown)) {
          r.bad("unknown name", site, p.pos(from), from.name + "(" + w + ") throws " + o.thrown + ", expected IllegalArgumentException");
          return;
        }
      } finally {
        Scn.leave();
      }
    }
    r.undecided("unknown name", site, p.pos(from), "the look-up is not a comparison with the constants' values" + (und ? "" : "; the values tried are rejected"));
  }

  /** every key put into the map is one of the values */
  private static boolean constKeys(T m, Set<T> values) {
    if (m.is("mempty")) return true;
    if (m.is("mput")) return values.contains(m.k[1]) && constKeys(m.k[0], values);
    return false;
  }
}
