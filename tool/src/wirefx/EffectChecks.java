package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;
import java.util.function.*;

/** Rules about what encoders, decoders and checksum services touch. */
final class EffectChecks {
  final CodecChecks c;
  final Ctx cx;
  final Prog p;
  final Eval ev;
  final Report r;

  EffectChecks(CodecChecks c) {
    this.c = c;
    cx = c.cx;
    p = c.p;
    ev = cx.ev;
    r = c.r;
  }

  // ------------------------------------------------------------------ what is analysed

  /** one method body, with the buffer it works on */
  static final class Body {
    String site, pos;
    boolean encode;
    List<Eff> tr;
    St st;
    T buf, self, ret, len;
    Ctx.Msg m;
  }

  /** the text primitives, whose calls stay uninterpreted elsewhere */
  List<Body> helpers() {
    List<Body> l = new ArrayList<>();
    ClassSymbol b = p.cls(Ctx.CODEC);
    MethodSymbol w = b == null ? null : p.method(b, "writeFixedString", Ctx.BUF, "java.lang.String", "int", "char", "boolean");
    MethodSymbol rd = b == null ? null : p.method(b, "readFixedString", Ctx.BUF, "int", "char", "boolean");
    if (w == null || rd == null) {
      r.broken.add("BinaryCodec.writeFixedString/readFixedString not found");
      return l;
    }
    Set<String> keep = ev.leafMethods;
    ev.leafMethods = new HashSet<>();
    try {
      for (MethodSymbol m : List.of(w, rd)) {
        Eval.Summary s = ev.run(b, m);
        Body x = new Body();
        x.site = "BinaryCodec." + m.name;
        x.pos = p.pos(m);
        x.encode = m == w;
        x.tr = s.tr;
        x.st = s.st;
        x.buf = s.args.get(0);
        x.ret = s.ret;
        x.len = s.args.get(m == w ? 2 : 1);
        l.add(x);
      }
    } finally {
      ev.leafMethods = keep;
    }
    return l;
  }

  List<Body> bodies(boolean enc, boolean dec) {
    List<Body> l = new ArrayList<>();
    for (Ctx.Msg m : cx.messages())
      for (boolean e : new boolean[] {true, false}) {
        if (e ? !enc : !dec) continue;
        Eval.Summary s = e ? m.enc : m.dec;
        Body x = new Body();
        x.site = m.name() + "." + (e ? "encode" : "decode");
        x.pos = p.pos(e ? m.encM : m.decM);
        x.encode = e;
        x.tr = s.tr;
        x.st = s.st;
        x.buf = s.args.get(0);
        x.self = m.self;
        x.m = m;
        l.add(x);
      }
    for (Body h : helpers()) if (h.encode ? enc : dec) l.add(h);
    r.floor("message classes", cx.messages().size(), 150);
    return l;
  }

  static boolean in(String x, String... l) {
    return CodecChecks.in(x, l);
  }

  static boolean reads(Eff e) {
    return in(e.kind, "RD", "RB", "RFIX", "DEC", "SKIP");
  }

  static boolean writes(Eff e) {
    return in(e.kind, "W", "WB", "WFIX", "ENC", "SETAT");
  }

  static T start(T buf) {
    return T.mk("cursor0", "r", buf);
  }

  static T wstart(T buf) {
    return T.add(start(buf), T.mk("avail", null, buf));
  }

  /** position of the buffer, not just a number of bytes of a field */
  static boolean positional(T t) {
    return t != null && t.any(x -> x.is("cursor0") || x.is("avail"));
  }

  static boolean blind(T t) {
    return Wire.opaque(t);
  }

  /** reads of the buffer that do not move it */
  static void peeks(Eff e, Consumer<T> f) {
    for (T t : e.terms()) t.each(x -> {
      if (x.is("getb") || x.is("getn") || x.is("bufstr") || x.is("gbytes")) f.accept(x);
    });
  }

  static T peekAt(T t) {
    return t.k[1];
  }

  static T peekLen(T t) {
    if (t.is("bufstr") || t.is("gbytes")) return t.k[2];
    if (t.a == null) return T.ONE;
    String s = (String) t.a;
    return T.num(Integer.parseInt(s.replaceAll("\\D", "")) / 8);
  }

  // ------------------------------------------------------------------ C27

  void extent() {
    for (Body b : bodies(true, true)) {
      bufferOps(b);
      if (b.len != null) {
        // widths are not negative
        Scn w = new Scn(null, "");
        w.fact(b.len, 0, T.MAXSIZE);
        w.enter();
      }
      if (b.encode) encodeEffects(b);
      else decodeEffects(b);
      Scn.leave();
    }
    Rt rt = new Rt(cx);
    for (Ctx.Msg m : cx.messages())
      for (Scn s : c.scenarios(m, true)) {
        for (Rt.Run x : rt.explore(m, s, false)) {
          String site = m.name() + ".encode (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided("writer ends after the message", site, x.pos, x.msg);
          if (!x.status.equals("ok")) continue;
          x.s.enter();
          T w = T.sub(x.s.spec(ev.lib.cur(m.enc.st, "w", m.encBuf())), x.w.base);
          cmp("writer ends after the message", site, p.pos(m.encM), w, x.w.total(), "the writer position, relative to where it was,");
          Scn.leave();
        }
      }
    for (Ctx.Msg m : cx.messages())
      for (Scn s : c.scenarios(m, false)) {
        rt.fresh(m, s);
        for (Rt.Run x : rt.explore(m, s, true)) {
          String site = m.name() + ".decode (" + x.s.label + ")";
          String rule = "reader ends after the message";
          if (x.status.equals("undecided")) r.undecided(rule, site, x.pos, x.msg);
          else if (x.status.equals("bad")) {
            if (x.encodeSide) continue;
            String d = x.msg;
            if (d.startsWith("decode stops before") || d.contains("unread") || d.startsWith("decode reads more than") || d.startsWith("decode skips") || off(x, m)) r.bad(rule, site, x.pos, x.msg);
          } else {
            x.s.enter();
            T got = T.sub(x.w.dv(ev.lib.cur(m.decSt, "r", m.decBuf())), start(m.decBuf()));
            cmp(rule, site, p.pos(m.decM), got, x.w.total(), "the reader position, relative to where it was,");
            Scn.leave();
          }
        }
      }
  }

  /** sums over a loop, independent of which loop it was */
  static T canon(T t) {
    return new T.Rebuild(x -> {
      if (!x.is("psum")) return null;
      int id = Integer.parseInt(("" + x.a).substring(1));
      if (id < 0) return null;
      T d = canon(T.subst(x.k[0], Map.of(T.mk("idx", id), T.mk("bv", 0))));
      return T.mk("psum", "#-1", d, canon(x.k[1]));
    }).go(t);
  }

  private void cmp(String rule, String site, String pos, T got, T want, String what) {
    got = canon(got);
    want = canon(want);
    if (got == want) r.ok(rule, site);
    else if (blind(got) || blind(want)) r.undecided(rule, site, pos, what + " is " + got);
    else r.bad(rule, site, pos, what + " is " + got + ", expected " + want);
  }

  /** after a mismatch: does decode still end at a fixed distance from the end of the message */
  private boolean off(Rt.Run x, Ctx.Msg m) {
    x.s.enter();
    try {
      T got = T.sub(x.w.dv(ev.lib.cur(m.decSt, "r", m.decBuf())), start(m.decBuf()));
      T d = T.sub(got, x.w.total());
      return d.isNum() && d != T.ZERO;
    } finally {
      Scn.leave();
    }
  }

  private void bufferOps(Body b) {
    int[] n = {0, 0};
    boolean[] cond = {false};
    String[] pos = {null};
    String rule = "buffer neither retained, released nor cleared";
    Eff.walkC(b.tr, List.of(), (e, pc) -> {
      if (!e.is("BUFOP") || ev.lib.root(e.buf) != b.buf) return;
      switch (e.name) {
        case "retain":
        case "release":
          n[e.name.equals("retain") ? 0 : 1]++;
          cond[0] |= !pc.isEmpty();
          pos[0] = e.pos;
          break;
        case "touch":
        case "capacity":
        case "ensureWritable":
          break;
        default:
          r.bad(rule, b.site, e.pos, "calls " + e.name + " on the buffer");
          n[0] = Integer.MIN_VALUE / 2;
      }
    });
    if (n[0] < 0) return;
    if (n[0] == n[1]) r.ok(rule, b.site);
    else if (cond[0] && n[0] > 0 && n[1] > 0) r.undecided(rule, b.site, pos[0], n[0] + " retains and " + n[1] + " releases");
    else r.bad(rule, b.site, pos[0], n[0] > n[1] ? "the buffer is retained" : "the buffer is released");
  }

  private void encodeEffects(Body b) {
    T base = wstart(b.buf);
    String rule = "writes at and after the writer position";
    Eff.walk(b.tr, e -> {
      if (!writes(e) || ev.lib.root(e.buf) != b.buf) return;
      if (e.buf != b.buf) {
        // a view of the buffer: where it starts decides
        T at = e.pos0 == null ? null : T.sub(abs(e.buf, e.pos0), base);
        lower(rule, b.site, e.pos, at, "writes");
        return;
      }
      lower(rule, b.site, e.pos, T.sub(e.pos0, base), "writes");
    });
    T rd = T.sub(ev.lib.cur(b.st, "r", b.buf), start(b.buf));
    String q = "reader position untouched";
    if (rd == T.ZERO) r.ok(q, b.site);
    else if (blind(rd)) r.undecided(q, b.site, b.pos, "the reader position moves by " + rd);
    else r.bad(q, b.site, b.pos, "the reader position moves by " + rd);
  }

  private T abs(T v, T pos) {
    return ev.lib.abs(v, pos);
  }

  /** a position relative to the start must not be negative */
  private void lower(String rule, String site, String pos, T rel, String what) {
    if (rel == null || blind(rel)) {
      r.undecided(rule, site, pos, what + " at " + rel);
      return;
    }
    if (T.range(rel)[0] >= 0) {
      r.ok(rule, site);
      return;
    }
    boolean below = positional(rel) && negative(rel);
    if (below || T.range(rel)[1] < 0) r.bad(rule, site, pos, what + " at " + rel + " from the position the buffer had");
    else if (rel.is("gamma")) {
      for (int i = 1; i < 3; i++) if (T.range(rel.k[i])[1] < 0) {
        r.bad(rule, site, pos, what + " at " + rel + " from the position the buffer had");
        return;
      }
      r.undecided(rule, site, pos, what + " at " + rel);
    } else r.undecided(rule, site, pos, what + " at " + rel);
  }

  /** the starting position is subtracted and not added back */
  private static boolean negative(T rel) {
    boolean[] neg = {false};
    rel.each(x -> {
      if ((x.is("cursor0") || x.is("avail")) && T.coef(rel, x) < 0) neg[0] = true;
    });
    return neg[0];
  }

  private void decodeEffects(Body b) {
    String q = "decode leaves the bytes alone", rule = "reads at and after the reader position";
    boolean[] any = {false};
    Eff.walk(b.tr, e -> {
      if (writes(e) && ev.lib.root(e.buf) == b.buf) {
        any[0] = true;
        r.bad(q, b.site, e.pos, "writes to the buffer");
      }
      if (reads(e) && e.buf == b.buf && e.pos0 != null) lower(rule, b.site, e.pos, T.sub(e.pos0, start(b.buf)), "reads");
      peeks(e, x -> {
        if (x.k[0] == b.buf) lower(rule, b.site, e.pos, T.sub(peekAt(x), start(b.buf)), "reads");
      });
      if (in(e.kind, "FSET", "SWRITE", "LMUT", "MPUT") && e.val != null && holds(e.val, b.buf, b.st, 0))
        r.bad("no reference to the buffer kept", b.site, e.pos, "keeps " + e.val);
    });
    if (!any[0]) r.ok(q, b.site);
    T w = T.sub(ev.lib.cur(b.st, "w", b.buf), wstart(b.buf));
    String k = "writer position untouched";
    if (w == T.ZERO) r.ok(k, b.site);
    else if (blind(w)) r.undecided(k, b.site, b.pos, "the writer position moves by " + w);
    else r.bad(k, b.site, b.pos, "the writer position moves by " + w);
    if (b.m != null)
      for (VarSymbol f : b.m.all) {
        T v = ev.readHeap(b.st, f, b.self);
        r.check(!holds(v, b.buf, b.st, 0), "no reference to the buffer kept", b.site, b.pos, "field " + f.name + " keeps " + v);
      }
    else r.check(!holds(b.ret, b.buf, b.st, 0), "no reference to the buffer kept", b.site, b.pos, "returns " + b.ret);
  }

  /** does a value contain the buffer or a view of it as an object */
  private boolean holds(T v, T buf, St st, int d) {
    if (v == null || d > 8) return false;
    if (v == buf) return true;
    switch (v.op) {
      case "view":
        return !v.k[0].is("copy") && ev.lib.root(v) == buf;
      case "gamma":
        return holds(v.k[1], buf, st, d + 1) || holds(v.k[2], buf, st, d + 1);
      case "lapp":
      case "lcat":
      case "lrep":
      case "alit":
      case "mput":
        for (T x : v.k) if (holds(x, buf, st, d + 1)) return true;
        return false;
      case "new":
        for (String k : new String[] {"lst", "arr", "map"}) {
          T x = st.cells.get(T.mk(k, null, v));
          if (x != null && holds(x, buf, st, d + 1)) return true;
        }
        return false;
      case "libobj":
        for (T x : v.k) if (holds(x, buf, st, d + 1)) return true;
        return false;
      case "clo":
        {
          // what a lambda captures
          Eval.Clo c = ev.clos.get(v);
          if (c == null) return false;
          if (c.recv != null && holds(c.recv, buf, st, d + 1)) return true;
          boolean[] r = {false};
          new com.sun.tools.javac.tree.TreeScanner() {
            @Override
            public void visitIdent(com.sun.tools.javac.tree.JCTree.JCIdent t) {
              if (!(t.sym instanceof VarSymbol) || !(t.sym.owner instanceof MethodSymbol) || c.fr == null) return;
              T x = st.cells.get(ev.loc(c.fr, (VarSymbol) t.sym));
              if (x != null && x != v && holds(x, buf, st, d + 1)) r[0] = true;
            }
          }.scan(c.tree);
          return r[0];
        }
      default:
        return false;
    }
  }

  // ------------------------------------------------------------------ C22

  /** every way through the effects throws */
  static boolean throwsAlways(List<Eff> l) {
    for (Eff e : l) {
      if (e.is("THROW")) return true;
      if (e.is("CHO") && throwsAlways(e.a) && throwsAlways(e.b)) return true;
      if (e.is("TRY") && throwsAlways(e.a) && (e.handlers.isEmpty() || e.handlers.stream().allMatch(h -> throwsAlways(h.body)))) return true;
    }
    return false;
  }

  static boolean swallows(Eff.Handler h) {
    for (String t : h.types)
      if (in(t, "java.lang.IndexOutOfBoundsException", "java.lang.RuntimeException", "java.lang.Exception", "java.lang.Throwable")) return !h.rethrows && !throwsAlways(h.body);
    return false;
  }

  void truncation() {
    for (Body b : bodies(false, true)) {
      swallowed(b.tr, b);
      guards(b.tr, b);
      unchecked(b);
    }
    // a decoder that stops before the end accepts messages cut off there
    Rt rt = new Rt(cx);
    String rule = "every byte of the message is needed";
    for (Ctx.Msg m : cx.messages())
      for (Scn s : c.scenarios(m, false)) {
        rt.fresh(m, s);
        for (Rt.Run x : rt.explore(m, s, true)) {
          String site = m.name() + ".decode (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided(rule, site, x.pos, x.msg);
          else if (x.status.equals("ok")) r.ok(rule, site);
          else if (!x.encodeSide && (x.msg.startsWith("decode stops before") || x.msg.contains("unread") || x.msg.startsWith("decode does not read") || shortOf(x, m))) r.bad(rule, site, x.pos, x.msg);
        }
      }
  }

  private boolean shortOf(Rt.Run x, Ctx.Msg m) {
    x.s.enter();
    try {
      T got = T.sub(x.w.dv(ev.lib.cur(m.decSt, "r", m.decBuf())), start(m.decBuf()));
      T d = T.sub(got, x.w.total());
      return d.isNum() && d.n() < 0;
    } finally {
      Scn.leave();
    }
  }

  private void swallowed(List<Eff> l, Body b) {
    String rule = "no read failure is swallowed";
    int n = 0;
    List<Eff> tries = new ArrayList<>();
    Eff.walk(l, e -> {
      if (e.is("TRY")) tries.add(e);
    });
    for (Eff e : tries) {
      if (!Eff.anyOf(e.a, EffectChecks::reads)) continue;
      for (Eff.Handler h : e.handlers)
        if (swallows(h)) {
          n++;
          r.bad(rule, b.site, h.pos == null ? e.pos : h.pos, "a handler of " + h.types + " goes on after a failed read");
        }
    }
    if (n == 0) r.ok(rule, b.site);
  }

  private boolean usesAvail(T t) {
    return t != null && t.any(x -> x.is("avail") || x.is("bufprop"));
  }

  private void guards(List<Eff> l, Body b) {
    String rule = "the bytes left do not decide what is read";
    int[] n = {0};
    Eff.walkC(l, List.of(), (e, pc) -> {
      if (e.is("CHO") && usesAvail(e.cond)) {
        if (throwsAlways(e.a) || throwsAlways(e.b)) return;
        Predicate<Eff> matters = x -> reads(x) || in(x.kind, "FSET", "LMUT", "REP", "SEEK");
        if (!Eff.anyOf(e.a, matters) && !Eff.anyOf(e.b, matters)) return;
        n[0]++;
        r.bad(rule, b.site, e.pos, "whether to read on depends on the bytes left: " + e.cond);
        return;
      }
      for (T t : e.is("REP") ? new T[] {e.trip} : in(e.kind, "RB", "SKIP", "RFIX") ? new T[] {e.len} : in(e.kind, "FSET", "LMUT") ? new T[] {e.val} : new T[0])
        if (usesAvail(t)) {
          // a value built after a guard that throws otherwise
          if (e.is("FSET") && !direct(t)) continue;
          n[0]++;
          r.bad(rule, b.site, e.pos, "what is read depends on the bytes left: " + t);
        }
    });
    if (n[0] == 0) r.ok(rule, b.site);
  }

  /** availability inside the value itself, not only in positions of what was read */
  private boolean direct(T t) {
    if (t.is("getb") || t.is("getn") || t.is("bufstr") || t.is("gbytes")) return false;
    if (t.is("avail") || t.is("bufprop")) return true;
    for (T x : t.k) if (direct(x)) return true;
    return false;
  }

  private void unchecked(Body b) {
    String rule = "every read is checked against the bytes left";
    int[] n = {0};
    uncheckedIn(b.tr, b, false, n);
    // looking ahead counts only when the bytes are then consumed
    T end = ev.lib.cur(b.st, "r", b.buf);
    Set<T> seen = new HashSet<>();
    Eff.walk(b.tr, e -> {
      if (!in(e.kind, "FSET", "LMUT", "CHO", "RB", "REP")) return;
      peeks(e, x -> {
        if (!seen.add(x) || x.k[0] != b.buf) return;
        T left = T.sub(end, T.add(peekAt(x), peekLen(x)));
        if (blind(left)) r.undecided(rule, b.site, e.pos, "looks at " + x);
        else if (T.range(left)[0] >= 0) r.ok(rule, b.site);
        else if (T.range(left)[1] < 0) {
          n[0]++;
          r.bad(rule, b.site, e.pos, "looks at " + x + " without consuming it");
        } else r.undecided(rule, b.site, e.pos, "looks at " + x);
      });
    });
    if (n[0] == 0) r.ok(rule, b.site);
  }

  private static boolean checkedRead(Eff e) {
    return e.is("RD") || e.is("RFIX") || e.is("RB") && e.name == null && T.range(e.len)[0] > 0 || e.is("DEC");
  }

  /** certain to run at least one checked read */
  static boolean certain(List<Eff> l) {
    for (Eff e : l) {
      if (checkedRead(e)) return true;
      if (e.is("CHO") && certain(e.a) && certain(e.b)) return true;
      if (e.is("TRY") && certain(e.a)) return true;
    }
    return false;
  }

  private void uncheckedIn(List<Eff> l, Body b, boolean after, int[] n) {
    for (int i = 0; i < l.size(); i++) {
      Eff e = l.get(i);
      boolean later = after || certain(l.subList(i + 1, l.size()));
      if (e.is("RB") && "unchecked".equals(e.name) && !(later && b.m != null)) {
        n[0]++;
        r.bad("every read is checked against the bytes left", b.site, e.pos, "readCharSequence does not check the bytes left, and no checked read is certain to follow");
      }
      if (e.is("TRY")) {
        boolean sw = false;
        for (Eff.Handler h : e.handlers) sw |= swallows(h);
        uncheckedIn(e.a, b, later && !sw, n);
        continue;
      }
      uncheckedIn(e.a, b, later, n);
      uncheckedIn(e.b, b, later, n);
    }
  }

  // ------------------------------------------------------------------ C23

  void termination() {
    Map<String, Long> minSize = new HashMap<>();
    for (Ctx.Msg m : cx.all()) least(m, minSize, new HashSet<>());
    for (Body b : bodies(false, true)) {
      loops(b, b.tr, minSize);
      allocs(b);
      int[] rec = {0};
      Eff.walk(b.tr, e -> {
        if (e.is("UNK")) r.undecided("loops are counted", b.site, e.pos, e.name);
        if (e.is("THROW") && Eval.ENDLESS.equals(e.name)) r.bad("loops are counted", b.site, e.pos, "the loop never ends: its condition stays true");
      });
      Eff.walkC(b.tr, List.of(), (e, pc) -> {
        if (!e.is("REC")) return;
        rec[0]++;
        if (e.endless(pc)) r.bad("no endless recursion", b.site, e.pos, "recursion in " + e.name);
        else r.undecided("no endless recursion", b.site, e.pos, "recursion in " + e.name);
      });
      if (rec[0] == 0) r.ok("no endless recursion", b.site);
    }
    fixpoints();
    // decoding into each other without consuming
    Map<String, Set<String>> g = new LinkedHashMap<>();
    Map<String, String> at = new HashMap<>();
    for (Ctx.Msg m : cx.messages()) {
      Set<String> out = new LinkedHashSet<>();
      Eff.walk(m.dec.tr, e -> {
        if (!e.is("DEC") || e.pos0 != start(m.dec.args.get(0))) return;
        T o = e.obj;
        if (o.is("created")) for (Dispatch.Table t : c.tables) {
          if (t.msg.equals(m.name())) out.addAll(t.classes.values());
        } else out.add(Wire.cls(o, e.name));
        at.put(m.name(), e.pos);
      });
      g.put(m.name(), out);
    }
    for (String s : g.keySet()) {
      Set<String> seen = new HashSet<>();
      Deque<String> q = new ArrayDeque<>(g.get(s));
      while (!q.isEmpty()) {
        String x = q.poll();
        if (seen.add(x)) q.addAll(g.getOrDefault(x, Set.of()));
      }
      r.check(!seen.contains(s), "no decoding without consuming", s, at.getOrDefault(s, ""), "decodes itself again before reading anything");
    }
  }

  private long least(Ctx.Msg m, Map<String, Long> memo, Set<String> on) {
    Long v = memo.get(m.name());
    if (v != null) return v;
    if (!on.add(m.name())) return 0;
    long n = least(m.dec.tr, memo, on);
    memo.put(m.name(), n);
    return n;
  }

  private long least(List<Eff> l, Map<String, Long> memo, Set<String> on) {
    long n = 0;
    for (Eff e : l)
      switch (e.kind) {
        case "RD":
          n += e.width / 8;
          break;
        case "RB":
        case "RFIX":
        case "SKIP":
          n += Math.max(0, T.range(e.len)[0]);
          break;
        case "DEC":
          {
            Ctx.Msg x = c.dp.msg(Wire.cls(e.obj, e.name) == null ? "" : Wire.cls(e.obj, e.name));
            if (x != null) n += least(x, memo, on);
            break;
          }
        case "CHO":
          {
            long a = throwsAlways(e.a) ? Long.MAX_VALUE : least(e.a, memo, on), b = throwsAlways(e.b) ? Long.MAX_VALUE : least(e.b, memo, on);
            long k = Math.min(a, b);
            if (k != Long.MAX_VALUE) n += k;
            break;
          }
        case "TRY":
          n += least(e.a, memo, on);
          break;
        default:
          break;
      }
    return n;
  }

  private void loops(Body b, List<Eff> l, Map<String, Long> minSize) {
    String rule = "loops are counted";
    Eff.walkC(l, new ArrayList<>(), (e, pc) -> {
      if (!e.is("REP")) return;
      if (e.narrow) {
        r.bad(rule, b.site, e.pos, "the loop counter can wrap before it reaches " + e.trip);
        return;
      }
      long body = least(e.a, minSize, new HashSet<>());
      if (e.trip.is("wtrip")) {
        endless(b, e, body);
        return;
      }
      if (blind(e.trip) && !e.trip.is("scan")) {
        r.undecided(rule, b.site, e.pos, "runs " + e.trip + " times");
        return;
      }
      long hi = T.range(e.trip)[1];
      if (hi > 0xffff && body < 1 && wide(e.trip)) r.bad(rule, b.site, e.pos, "runs " + e.trip + " times without reading anything in between");
      else r.ok(rule, b.site);
      if (b.m == null) return;
      // counting past the announced number
      T d = e.trip;
      if (d.is("lin") && !pc.isEmpty()) {
        Scn s = new Scn(null, "");
        for (T c : pc) s.assume(c, true);
        s.enter();
        try {
          d = s.spec(d);
        } finally {
          Scn.leave();
        }
      }
      if (d.is("lin") && d.k.length == 1 && d.k[0].any(x -> x.is("rd")) && Eff.anyOf(e.a, EffectChecks::reads))
        r.bad("counts neither short nor past the end", b.site, e.pos, "runs " + d + " times");
      else r.ok("counts neither short nor past the end", b.site);
    });
  }

  /** a number taken from the input, up to 32 bits wide and not checked against it */
  private static boolean wide(T t) {
    return t.any(x -> x.is("rd")) && !t.any(x -> x.is("avail"));
  }

  private void endless(Body b, Eff e, long body) {
    String rule = "loops are counted";
    T cond = e.trip.k.length > 0 ? e.trip.k[0] : T.TRUE;
    boolean reads = body > 0;
    Eval.LoopInfo li = ev.loops.get("" + e.loop);
    boolean leaves = Eff.anyOf(e.a, x -> x.is("THROW"));
    if (!reads && !leaves && li != null) {
      List<T> cs = cond.is("and") ? Arrays.asList(cond.k) : List.of(cond);
      boolean never = cs.isEmpty() ? false : true;
      for (T x : cs) never &= stuck(x, li);
      if (never) {
        r.bad(rule, b.site, e.pos, "nothing in the loop makes its condition " + cond + " false");
        return;
      }
    }
    if (reads) {
      // every round consumes input, so it ends; but the number of rounds is no count
      if (usesAvail(cond)) r.bad(rule, b.site, e.pos, "the number of rounds depends on the bytes left: " + cond);
      else r.undecided(rule, b.site, e.pos, "ends when " + T.not(cond));
    } else r.undecided(rule, b.site, e.pos, "ends when " + T.not(cond));
  }

  /** loops without a counter: a state in which the loop goes on and that its round leaves as it is */
  private void fixpoints() {
    for (Eval.LoopInfo li : ev.loops.values()) {
      if (!li.trip.is("wtrip") || li.leaves) continue;
      // the variables the condition depends on, through the steps
      Set<Integer> need = new LinkedHashSet<>();
      Deque<T> todo = new ArrayDeque<>(List.of(li.cond));
      while (!todo.isEmpty()) {
        T t = todo.pop();
        for (int i = 0; i < li.phis.size(); i++) if (t.has(li.phis.get(i)) && need.add(i)) todo.push(li.steps.get(i));
      }
      if (need.size() != 1) continue;
      int i = need.iterator().next();
      T ph = li.phis.get(i), step = li.steps.get(i);
      Set<T> cand = new LinkedHashSet<>();
      for (T t : step.all()) if (t.isNum()) cand.add(t);
      for (T t : new ArrayList<>(cand)) {
        cand.add(T.add(t, T.ONE));
        cand.add(T.sub(t, T.ONE));
      }
      cand.add(T.ZERO);
      for (T t : step.all()) if (t.is("lin")) cand.add(T.num(T.konst(t)));
      for (T t : step.all())
        if (t.is("gamma") || t.is("min")) for (T q : t.k) if (!q.has(ph)) cand.add(q);
      for (T v : cand) {
        Map<T, T> m = Map.of(ph, v);
        if (T.subst(step, m) != v) continue;
        T c = T.subst(li.cond, m);
        if (c == T.FALSE || c.any(x -> x.is("opaque") || x.is("phi"))) continue;
        // reached on the way from where the loop starts, one step at a time
        long[] from = T.range(T.sub(li.inits.get(i), v));
        T near = T.subst(step, Map.of(ph, T.add(v, T.ONE))), below = T.subst(step, Map.of(ph, T.sub(v, T.ONE)));
        boolean down = near == v && from[1] >= 0, up = below == v && from[0] <= 0;
        if (!(from[0] == 0 && from[1] == 0) && !down && !up) continue;
        r.bad("loops are counted", "loop", li.pos, "once its variable is " + v + " the loop goes on without changing it while " + c);
        break;
      }
    }
  }

  /** once true, the condition stays true in every round */
  private boolean stuck(T x, Eval.LoopInfo li) {
    if (x == T.TRUE) return true;
    if (x.any(y -> y.is("phi") || y.is("opaque") || y.is("rd") || y.is("rbytes") || y.is("rfix") || y.is("last"))) return x.any(y -> y == li.idx) ? false : !x.any(y -> y.is("phi") || y.is("opaque")) && !fresh(x, li);
    if (!x.has(li.idx)) return true;
    if (x.is("gt0")) return T.coef(x.k[0], li.idx) >= 0 && !nested(x.k[0], li.idx);
    if (x.is("not") && x.k[0].is("eq0")) {
      T y = x.k[0].k[0];
      long k = T.coef(y, li.idx);
      T rest = T.sub(y, T.scale(li.idx, k));
      if (rest.has(li.idx)) return false;
      // moving away from the value it must hit
      return k > 0 && T.range(rest)[0] > 0 || k < 0 && T.range(rest)[1] < 0;
    }
    return false;
  }

  private static boolean nested(T y, T idx) {
    return T.sub(y, T.scale(idx, T.coef(y, idx))).has(idx);
  }

  private boolean fresh(T x, Eval.LoopInfo li) {
    return x.any(y -> {
      int n = ev.freshNo(y);
      return n > Integer.parseInt(("" + li.id));
    });
  }

  private void allocs(Body b) {
    String rule = "memory in step with the bytes read";
    List<Eff[]> order = new ArrayList<>();
    // lengths already read in full, in program order along the way
    alloc(b.tr, b, new HashSet<>(), List.of(), rule);
  }

  private void alloc(List<Eff> l, Body b, Set<T> read, List<T> pc, String rule) {
    Set<T> had = new HashSet<>(read);
    for (Eff e : l) {
      if (e.is("RB") && !"unchecked".equals(e.name)) had.add(e.len);
      if (e.is("ALLOC")) {
        T len = e.len;
        long hi = T.range(len)[1];
        boolean guarded = had.contains(len);
        for (T g : pc) if (g.any(x -> x.is("avail"))) guarded = true;
        if (hi <= 0xffff || len.isNum() || guarded) r.ok(rule, b.site);
        else if (len.any(x -> x.is("rd")) && !blind(len)) r.bad(rule, b.site, e.pos, "allocates " + (e.name.equals("list") ? "room for " : "") + len + (e.name.equals("list") ? " elements" : " array elements") + " before that much input is known to be there");
        else if (len.is("param") || len.is("slen") || len.is("blen") || len.is("size")) r.ok(rule, b.site);
        else if (blind(len)) r.undecided(rule, b.site, e.pos, "allocates " + len);
        else r.ok(rule, b.site);
      }
      if (e.is("CHO")) {
        List<T> x = new ArrayList<>(pc);
        x.add(e.cond);
        alloc(e.a, b, had, x, rule);
        x = new ArrayList<>(pc);
        x.add(T.not(e.cond));
        alloc(e.b, b, had, x, rule);
        if (throwsAlways(e.a) || throwsAlways(e.b)) {
          pc = new ArrayList<>(pc);
          pc.add(e.cond);
        }
      } else {
        alloc(e.a, b, had, pc, rule);
        alloc(e.b, b, had, pc, rule);
      }
      for (Eff.Handler h : e.handlers) alloc(h.body, b, had, pc, rule);
    }
  }

  // ------------------------------------------------------------------ C26

  /** what in a term depends on where the program runs */
  static String ambient(T t) {
    if (t == null) return null;
    String[] r = {null};
    t.each(x -> {
      if (r[0] != null) return;
      if (x.is("env")) r[0] = "" + x.a;
      else if (x.is("identity")) r[0] = "identity hash code";
      else if (x.is("charset") && !"UTF-8".equals(x.a)) r[0] = "charset " + x.a;
      else if ((x.is("mkeys") || x.is("mvals") || x.is("ments")) && hashed(x)) r[0] = "iteration order of a hash map";
    });
    return r[0];
  }

  private static boolean hashed(T x) {
    return x.any(y -> y.is("new") && (((String) y.a).startsWith("java.util.HashMap") || ((String) y.a).startsWith("java.util.concurrent.ConcurrentHashMap")));
  }

  void portable() {
    for (Body b : bodies(true, true)) {
      int[] n = {0};
      Set<String> said = new HashSet<>();
      Eff.walkC(b.tr, List.of(), (e, pc) -> {
        boolean wire = writes(e) || reads(e) || in(e.kind, "FSET", "REP", "LMUT", "SEEK");
        if (!wire || e.is("REP") && !Eff.anyOf(e.a, x -> writes(x) || reads(x) || in(x.kind, "FSET", "LMUT"))) return;
        List<T> ts = new ArrayList<>(e.terms());
        ts.addAll(pc);
        for (T t : ts) {
          String a = ambient(t);
          if (a != null && said.add(e.pos + a)) {
            n[0]++;
            r.bad("wire bytes from the message alone", b.site, e.pos, "depends on " + a + ": " + t);
          }
        }
        if (e.name != null && (e.is("WFIX") || e.is("RFIX")) && e.name.contains("env<")) {
          n[0]++;
          r.bad("wire bytes from the message alone", b.site, e.pos, "padding depends on " + e.name);
        }
      });
      if (b.m != null && !b.encode)
        for (VarSymbol f : b.m.fields) {
          T v = ev.readHeap(b.st, f, b.self);
          T l = b.m.kind(f) == Ctx.Kind.LSTR ? ev.content(b.st, "lst", v) : null;
          for (T t : new T[] {v, l}) {
            String a = ambient(t);
            if (a != null && said.add(f + a)) {
              n[0]++;
              r.bad("fields from the bytes alone", b.site, b.pos, f.name + " depends on " + a + ": " + t);
            }
          }
        }
      if (b.ret != null) {
        String a = ambient(b.ret);
        if (a != null) {
          n[0]++;
          r.bad("fields from the bytes alone", b.site, b.pos, "the text read depends on " + a + ": " + b.ret);
        }
      }
      if (Eff.anyOf(b.tr, x -> x.is("UNK"))) {
        Eff.walk(b.tr, x -> {
          if (x.is("UNK")) r.undecided("wire bytes from the message alone", b.site, x.pos, x.name);
        });
      } else if (n[0] == 0) r.ok(b.encode ? "wire bytes from the message alone" : "fields from the bytes alone", b.site);
    }
    for (Svc s : services())
      for (Factories.Run x : new Factories.Run[] {s.calc, s.verify}) {
        if (x == null) continue;
        String a = ambient(x.ret);
        if (a == null) for (T t : foldSteps(x.ret)) if (a == null) a = ambient(t);
        r.check(a == null, "checksum from the bytes alone", s.c.flatName() + "." + x.m.name, p.pos(x.m), "depends on " + a);
      }
    r.floor("checksum services", services().size(), 4);
  }

  /** the recurrences behind loop results in a term */
  List<T> foldSteps(T t) {
    List<T> l = new ArrayList<>();
    Set<String> seen = new HashSet<>();
    folds(t, l, seen);
    return l;
  }

  private void folds(T t, List<T> out, Set<String> seen) {
    if (t == null) return;
    t.each(x -> {
      if (!x.is("fold") && !x.is("last") && !x.is("psum")) return;
      String a = ("" + x.a).replace("#", "");
      int i = a.indexOf('.') >= 0 ? a.indexOf('.') : a.indexOf(':');
      String id = i < 0 ? a : a.substring(0, i);
      if (!seen.add(id)) return;
      Eval.LoopInfo li = ev.loops.get(id);
      if (li == null) return;
      for (T s : li.steps) {
        out.add(s);
        folds(s, out, seen);
      }
    });
  }

  // ------------------------------------------------------------------ C10

  static final class Svc {
    ClassSymbol c;
    T self;
    Factories.Run calc, verify;
  }

  private List<Svc> svcs;

  List<Svc> services() {
    if (svcs != null) return svcs;
    svcs = new ArrayList<>();
    Factories fa = new Factories(cx, r);
    for (ClassSymbol k : p.implementers("com.finproto.codec.ChecksumService")) {
      if ((k.flags() & (Flags.ABSTRACT | Flags.INTERFACE)) != 0) continue;
      Svc s = new Svc();
      s.c = k;
      MethodSymbol calc = p.method(k, "calc", "*"), ver = p.method(k, "verify", "*", "*");
      if (calc == null || !p.methods.containsKey(calc)) continue;
      ev.init(k);
      s.self = ev.thisOf(k);
      s.calc = fa.call(s.self, calc, List.of(buf(calc, 0)), null);
      if (ver != null && p.methods.containsKey(ver)) s.verify = fa.call(s.self, ver, List.of(buf(ver, 0), Factories.par("expected", ver.params().get(1).type, ev)), null);
      svcs.add(s);
    }
    return svcs;
  }

  private T buf(MethodSymbol m, int i) {
    return T.mk("param", "buffer:" + Ctx.BUF);
  }

  static final Set<String> KEEPERS = Set.of("java.util.zip.CRC32", "java.util.zip.CRC32C", "java.util.zip.Adler32", "java.util.zip.Checksum", "java.util.concurrent.atomic.AtomicInteger", "java.util.concurrent.atomic.AtomicLong", "java.util.concurrent.atomic.AtomicReference", "java.util.concurrent.atomic.LongAdder", "java.security.MessageDigest");

  void pureChecksums() {
    int n = 0;
    for (Svc s : services()) {
      n++;
      for (Factories.Run x : new Factories.Run[] {s.calc, s.verify}) {
        if (x == null) continue;
        String site = s.c.flatName() + "." + x.m.name;
        T b = T.mk("param", "buffer:io.netty.buffer.ByteBuf");
        Set<Object> before = new HashSet<>();
        int bad = 0;
        String rule = "computing changes nothing";
        int[] k = {0};
        Map<T, String> first = new LinkedHashMap<>();
        int[] ret = {0, 0};
        boolean[] cond = {false};
        Eff.walkC(x.tr, List.of(), (e, pc) -> {
          boolean lazy = false;
          for (T g : pc) lazy |= g.any(y -> y.is("isnull"));
          switch (e.kind) {
            case "FSET":
            case "SWRITE":
            case "AMUT":
            case "LMUT":
            case "MPUT":
            case "MREM":
            case "MCLR":
              if (e.val != null && e.name != null && e.obj != null && e.val == T.mk("fld", e.name, e.obj)) break;
              k[0]++;
              if (lazy && in(e.kind, "FSET", "SWRITE")) r.undecided(rule, site, e.pos, "fills " + (e.name == null ? "" + e.obj : e.name) + " on first use");
              else r.bad("no state is kept", site, e.pos, "changes " + (e.name == null ? "" : e.name + " of ") + (e.obj == null ? "a static field" : "" + e.obj));
              break;
            case "W":
            case "WB":
            case "WFIX":
            case "SETAT":
              if (ev.lib.root(e.buf) == b) {
                k[0]++;
                r.bad(rule, site, e.pos, "writes to the buffer");
              }
              break;
            case "BUFOP":
              if (ev.lib.root(e.buf) != b) break;
              if (in(e.name, "retain", "release")) {
                ret[e.name.equals("retain") ? 0 : 1]++;
                cond[0] |= !pc.isEmpty();
              } else if (!in(e.name, "touch", "capacity") && (e.buf == b)) {
                k[0]++;
                r.bad(rule, site, e.pos, "calls " + e.name + " on the buffer");
              }
              break;
            case "OBJCALL":
              {
                boolean kept = ev.isStaticObj(e.obj) || e.obj.is("fld") || e.obj.is("sfld");
                if (!kept) break;
                String cl = e.name.substring(0, e.name.lastIndexOf('.')), mn = e.name.substring(e.name.lastIndexOf('.') + 1);
                if (first.putIfAbsent(e.obj, mn) == null && KEEPERS.contains(cl) && !mn.equals("reset") && !mn.startsWith("getAlgorithm")) {
                  k[0]++;
                  r.bad("no state is kept", site, e.pos, "calls " + e.name + " on an object kept from one computation to the next");
                } else if (!KEEPERS.contains(cl)) {
                  k[0]++;
                  r.undecided("no state is kept", site, e.pos, "calls " + e.name + " on " + e.obj);
                }
                break;
              }
            case "UNK":
              k[0]++;
              r.undecided(rule, site, e.pos, e.name);
              break;
            default:
              break;
          }
        });
        if (ret[0] != ret[1]) {
          k[0]++;
          if (cond[0] && ret[0] > 0 && ret[1] > 0) r.undecided(rule, site, p.pos(x.m), ret[0] + " retains, " + ret[1] + " releases");
          else r.bad(rule, site, p.pos(x.m), ret[0] > ret[1] ? "retains the buffer" : "releases the buffer");
        }
        for (String rw : new String[] {"r", "w"}) {
          T d = T.sub(ev.lib.cur(x.st, rw, b), rw.equals("r") ? start(b) : wstart(b));
          if (d == T.ZERO) r.ok("positions restored", site);
          else if (blind(d)) r.undecided("positions restored", site, p.pos(x.m), (rw.equals("r") ? "reader" : "writer") + " position moves by " + d);
          else r.bad("positions restored", site, p.pos(x.m), (rw.equals("r") ? "reader" : "writer") + " position moves by " + d);
        }
        // the value depends on the bytes and nothing else
        List<T> ts = new ArrayList<>(foldSteps(x.ret));
        ts.add(x.ret);
        String dep = null, maybe = null;
        for (T t : ts) {
          String a = ambient(t);
          if (a != null) dep = a;
          for (T y : t.all()) {
            if (y.is("sfld") && !("" + y.a).startsWith("java.")) {
              if (written(y, s)) dep = "the static field " + y.a;
              else maybe = "the static field " + y.a;
            }
            if (y.is("fld") && y.k[0] == s.self && ev.mutableFields.contains(y.a)) {
              if (written(y, s)) dep = "the field " + y.a;
              else maybe = "the field " + y.a;
            }
            if ((y.is("getb") || y.is("getn")) && y.k[0] == b) {
              T rel = T.sub(peekAt(y), start(b));
              if (negative(rel)) dep = "bytes at absolute positions: " + y;
            }
            if (y.is("cursor0") && y.k[0] == b && t == y) dep = "where the buffer starts";
            if (y.is("bufprop")) maybe = "" + y;
          }
        }
        if (dep != null) r.bad("same bytes, same value", site, p.pos(x.m), "depends on " + dep);
        else if (maybe != null) r.undecided("same bytes, same value", site, p.pos(x.m), "depends on " + maybe);
        else r.ok("same bytes, same value", site);
        if (k[0] == 0) {
          r.ok(rule, site);
          r.ok("no state is kept", site);
        }
        r.sample(site + ": " + x.tr.size() + " effects, returns " + x.ret);
      }
    }
    r.floor("checksum services", n, 4);
  }

  /** is the field written by a computation of this service */
  private boolean written(T f, Svc s) {
    boolean[] w = {false};
    String key = ("" + f.a);
    for (Factories.Run x : new Factories.Run[] {s.calc, s.verify})
      if (x != null)
        Eff.walk(x.tr, e -> {
          if (in(e.kind, "FSET", "SWRITE") && e.name != null && (e.name.equals(key) || key.startsWith(e.name + ":") || e.name.startsWith(key + ":"))) w[0] = true;
        });
    return w[0];
  }

  // ------------------------------------------------------------------ C16

  /** what in a term comes from the buffer or the surroundings and not from the message */
  private String foreign(T t, Set<String> written) {
    if (t == null) return null;
    String[] r = {null};
    for (T x : t.all()) {
      if (x.is("cursor0") || x.is("avail")) r[0] = "the positions of the buffer";
      else if (x.is("getb") || x.is("getn") || x.is("bufstr") || x.is("gbytes")) r[0] = "bytes already in the buffer";
      else if (x.is("bufprop")) r[0] = "the buffer's " + x.a;
      else if (x.is("typed") && ("" + x.a).startsWith("isWritable")) r[0] = "the room left in the buffer";
      else if (x.is("env")) r[0] = "" + x.a;
      else if (x.is("identity")) r[0] = "an identity hash code";
      else if (x.is("sfld") && written.contains("" + x.a)) r[0] = "the static " + x.a + ", which encoding changes";
      if (r[0] != null) return r[0];
    }
    return null;
  }

  void repeatable() {
    Rt rt = new Rt(cx);
    Set<String> statics = new HashSet<>();
    for (Ctx.Msg m : cx.all()) staticWrites(m.enc.tr, statics);
    for (Ctx.Msg m : cx.messages()) {
      String site = m.name() + ".encode";
      Dispatch.Frame fr = null;
      for (Dispatch.Frame f : c.frames) if (f.msg.equals(m.name())) fr = f;
      Set<VarSymbol> computed = new HashSet<>();
      if (fr != null) {
        if (fr.length != null) computed.add(c.dp.field(m, fr.length));
        if (fr.checksum != null && fr.algorithm != null) computed.add(c.dp.field(m, fr.checksum));
      }
      // nothing but the message's own computed fields is written
      int[] n = {0};
      Eff.walk(m.enc.tr, e -> {
        if (in(e.kind, "LMUT", "AMUT", "MPUT", "MREM", "MCLR") || e.is("FSET") && e.obj != m.self) {
          n[0]++;
          r.bad("encode leaves the message alone", site, e.pos, "changes " + (e.name == null ? "" : e.name + " of ") + e.obj);
        }
      });
      if (n[0] == 0) r.ok("encode leaves the message alone", site);
      n[0] = 0;
      Eff.walkC(m.enc.tr, List.of(), (e, pc) -> {
        List<T> ts = new ArrayList<>(pc);
        if (writes(e)) {
          if (e.val != null) ts.add(e.val);
          if (e.len != null) ts.add(e.len);
          if (e.is("ENC")) ts.add(e.obj);
        } else if (e.is("CALC")) {
          ts.clear();
          ts.add(T.sub(e.pos0, wstart(m.enc.args.get(0))));
          ts.add(e.len);
        } else if (e.is("REP") && Eff.anyOf(e.a, EffectChecks::writes)) ts.add(e.trip);
        else if (e.is("UNK")) {
          r.undecided("bytes from the message alone", site, e.pos, e.name);
          return;
        } else if (!e.is("SEEK") && !e.is("BUFOP")) return;
        for (T t : ts) {
          String d = foreign(t, statics);
          if (d == null) continue;
          if (Wire.opaque(t) && (d.startsWith("the positions") || d.startsWith("bytes already"))) {
            r.undecided("bytes from the message alone", site, e.pos, d + ": " + t);
            continue;
          }
          n[0]++;
          r.bad("bytes from the message alone", site, e.pos, "what is written depends on " + d + ": " + t);
        }
      });
      if (n[0] == 0) r.ok("bytes from the message alone", site);
      List<Scn> l = c.scenarios(m, true);
      if (fr != null) {
        Scn u = new Scn(l.get(0), "no algorithm registered");
        u.rules.clear();
        u.rules.add(t -> t.is("isnull") && t.k[0].is("mget") ? T.TRUE : null);
        u.rules.addAll(l.get(0).rules.subList(0, 0));
        l.add(u);
      }
      for (Scn s : l)
        for (Rt.Run x : rt.explore(m, s, false)) {
          String at = site + " (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided("second encode", at, x.pos, x.msg);
          if (!x.status.equals("ok")) continue;
          x.s.enter();
          try {
            Map<T, T> after = new HashMap<>();
            for (VarSymbol f : m.all) {
              T raw = m.fld(f, m.self), pre = x.s.spec(raw), post = x.w.encFinal(cx, f);
              if (pre == post) {
                r.ok("fields kept", at);
                continue;
              }
              after.put(raw, post);
              if (computed.contains(f)) {
                r.ok("fields kept", at);
                continue;
              }
              if (m.fields.contains(f)) {
                if (blind(post)) r.undecided("fields kept", at, p.pos(m.encM), f.name + " becomes " + post);
                else r.bad("fields kept", at, p.pos(m.encM), "encoding changes " + f.name + " from " + pre + " to " + post);
              }
            }
            if (after.isEmpty()) {
              r.ok("second encode", at);
              continue;
            }
            // encoding again, with the fields as the first encoding left them
            boolean[] same = {true};
            Wire.each(x.w.items, i -> {
              for (T t : new T[] {i.val, i.len, i.trip, i.obj}) {
                if (t == null) continue;
                T u = x.s.spec(T.subst(t, after));
                if (u == t) continue;
                same[0] = false;
                if (blind(u) || blind(t)) r.undecided("second encode", at, i.pos(), "writes " + u + " the second time, " + t + " the first");
                else r.bad("second encode", at, i.pos(), "writes " + u + " the second time, " + t + " the first");
              }
            });
            // what decides about writing must not have changed either
            Eff.walkC(m.enc.tr, List.of(), (e, pc) -> {
              if (!writes(e)) return;
              for (T t : pc) {
                T a = x.s.spec(t), u = x.s.spec(T.subst(t, after));
                if (a == u) continue;
                same[0] = false;
                r.bad("second encode", at, e.pos, "whether this is written is decided by " + u + " the second time, " + a + " the first");
              }
            });
            if (same[0]) r.ok("second encode", at);
          } finally {
            Scn.leave();
          }
        }
    }
    for (Body b : helpers()) {
      if (!b.encode) continue;
      int[] n = {0};
      Eff.walkC(b.tr, List.of(), (e, pc) -> {
        if (in(e.kind, "LMUT", "AMUT", "MPUT", "FSET", "SWRITE")) {
          n[0]++;
          r.bad("encode leaves the message alone", b.site, e.pos, "changes " + (e.name == null ? "" : e.name + " of ") + e.obj);
        }
        if (!writes(e)) return;
        List<T> ts = new ArrayList<>(pc);
        if (e.val != null) ts.add(e.val);
        if (e.len != null) ts.add(e.len);
        for (T t : ts) {
          String d = foreign(t, statics);
          if (d == null) continue;
          if (Wire.opaque(t) && (d.startsWith("the positions") || d.startsWith("bytes already"))) {
            r.undecided("bytes from the message alone", b.site, e.pos, d + ": " + t);
            continue;
          }
          n[0]++;
          r.bad("bytes from the message alone", b.site, e.pos, "what is written depends on " + d + ": " + t);
        }
      });
      if (n[0] == 0) r.ok("bytes from the message alone", b.site);
    }
    r.floor("message classes", cx.messages().size(), 150);
  }

  private void staticWrites(List<Eff> tr, Set<String> out) {
    Eff.walk(tr, e -> {
      if (e.is("SWRITE") && e.name != null && e.obj == null) {
        out.add(e.name);
        int i = e.name.lastIndexOf(':');
        if (i > 0) out.add(e.name.substring(0, i));
      }
    });
  }

  // ------------------------------------------------------------------ C17

  /** the static object that an expression is, or may be */
  private T staticArm(T o) {
    if (o == null) return null;
    if (ev.isStaticObj(o)) return o;
    if (!o.is("gamma")) return null;
    T a = staticArm(o.k[1]);
    return a != null ? a : staticArm(o.k[2]);
  }

  void separate() {
    // every method of every message class
    Set<String> written = new LinkedHashSet<>();
    Set<T> mutated = new LinkedHashSet<>();
    Map<Object, String> where = new HashMap<>();
    List<Object[]> runs = new ArrayList<>(); // {site, tr, ret, St}
    for (Ctx.Msg m : cx.messages()) {
      m.ctor();
      for (Symbol s : m.c.members().getSymbols()) {
        if (!(s instanceof MethodSymbol) || !p.methods.containsKey(s) || s.isStatic() && s.name.contentEquals("<clinit>")) continue;
        MethodSymbol q = (MethodSymbol) s;
        if (q.isConstructor() || (q.flags() & Flags.ABSTRACT) != 0) continue;
        Eval.Summary x = q == m.encM ? m.enc : q == m.decM ? m.dec : ev.run(m.c, q);
        runs.add(new Object[] {m.name() + "." + q.name, x.tr, x.ret, x.st, p.pos(q)});
      }
    }
    for (Body b : helpers()) runs.add(new Object[] {b.site, b.tr, b.ret, b.st, b.pos});
    for (Ctx.Msg m : cx.messages()) {
      St st = new St();
      MethodSymbol k = null;
      for (Symbol s : m.c.members().getSymbols())
        if (s instanceof MethodSymbol && s.isConstructor() && ((MethodSymbol) s).params().isEmpty()) k = (MethodSymbol) s;
      ev.construct(m.c, k, m.that, List.of(), st, p.pos(m.c));
      runs.add(new Object[] {m.name() + ".<init>", st.tr, null, st, p.pos(m.c)});
    }
    for (Object[] x : runs) {
      @SuppressWarnings("unchecked")
      List<Eff> tr = (List<Eff>) x[1];
      Eff.walk(tr, e -> {
        if (e.is("SWRITE") && e.obj == null && e.name != null) {
          written.add(e.name);
          where.putIfAbsent(e.name, e.pos + " " + x[0]);
        } else if (in(e.kind, "SWRITE", "MPUT", "MREM", "MCLR") && staticArm(e.obj) != null) {
          T arm = staticArm(e.obj);
          mutated.add(arm);
          where.putIfAbsent(arm, e.pos + " " + x[0]);
        }
      });
    }
    // state that one object's operations write and another's read
    String rule = "no state shared between messages";
    for (Object[] x : runs) {
      String site = (String) x[0], pos = (String) x[4];
      @SuppressWarnings("unchecked")
      List<Eff> tr = (List<Eff>) x[1];
      St st = (St) x[3];
      int[] n = {0};
      Eff.walkC(tr, List.of(), (e, pc) -> {
        T arm = in(e.kind, "SWRITE", "AMUT") ? staticArm(e.obj) : null;
        if (arm != null && ("array element".equals(e.name) || "buffer contents".equals(e.name))) {
          // whoever works in the same array or buffer at the same time sees it
          n[0]++;
          r.bad(rule, site, e.pos, "works in the shared " + (e.name.startsWith("a") ? "array " : "buffer ") + arm);
        }
        if (e.is("SWRITE") || in(e.kind, "MPUT", "MREM", "MCLR")) return;
        List<T> ts = new ArrayList<>(e.terms());
        for (T t : ts) {
          String d = shared(t, written, mutated);
          if (d == null) continue;
          n[0]++;
          r.bad(rule, site, e.pos, "depends on " + d);
        }
        if (e.is("OBJCALL") && ev.isStaticObj(e.obj)) {
          n[0]++;
          String cl = e.name.substring(0, e.name.lastIndexOf('.'));
          if (KEEPERS.contains(cl)) r.bad(rule, site, e.pos, "uses the shared " + e.name);
          else r.undecided(rule, site, e.pos, "uses the shared " + e.name);
        }
      });
      List<T> ends = new ArrayList<>();
      if (x[2] != null) ends.add((T) x[2]);
      for (Map.Entry<T, T> q : st.cells.entrySet()) if (q.getKey().is("heap")) ends.add(q.getValue());
      for (T t : ends) {
        String d = shared(t, written, mutated);
        if (d != null) {
          n[0]++;
          r.bad(rule, site, pos, "the value " + t + " depends on " + d);
        }
        T o = sharedObj(t, st, 0);
        if (o != null && !("" + x[0]).contains("getInstance")) {
          n[0]++;
          r.bad(rule, site, pos, "hands out the shared object " + o);
        }
      }
      if (n[0] == 0) r.ok(rule, site);
    }
    // construction
    for (Ctx.Msg m : cx.messages()) {
      String site = "new " + m.name();
      for (VarSymbol f : m.all) {
        T v = m.fresh.get(f);
        String d = shared(v, written, mutated);
        if (d == null && v != null && v.any(x -> x.is("env") || x.is("identity"))) d = "" + v;
        T o = sharedObj(v, new St(), 0);
        if (d != null) r.bad("same start every time", site, p.pos(m.c), f.name + " starts from " + d);
        else if (o != null) r.bad("same start every time", site, p.pos(m.c), f.name + " starts with the shared object " + o);
        else r.ok("same start every time", site);
      }
    }
    r.floor("message classes", cx.messages().size(), 150);
  }

  private String shared(T t, Set<String> written, Set<T> mutated) {
    if (t == null) return null;
    for (T x : t.all()) {
      if (x.is("sfld")) {
        String a = "" + x.a;
        for (String w : written) if (w.equals(a) || w.startsWith(a + ":") || a.startsWith(w + ":")) return "the static field " + a;
      }
      if (mutated.contains(x) && !dispatchMap(x)) return "the shared " + x;
      if (x.is("phi"))
        for (Eval.LoopInfo l : ev.loops.values()) {
          int i = l.phis.indexOf(x);
          T c = i < 0 || i >= l.cells.size() ? null : l.cells.get(i);
          if (c != null && c.k.length > 0 && mutated.contains(c.k[0])) return "the shared " + c.k[0];
          if (c != null && c.is("sfield") && written.contains("" + c.a)) return "the static field " + c.a;
        }
    }
    return null;
  }

  /** registries are shared by design; they are filled by registration only */
  private boolean dispatchMap(T x) {
    return false;
  }

  /** a mutable object that lives in a static */
  private T sharedObj(T v, St st, int d) {
    if (v == null || d > 6) return null;
    switch (v.op) {
      case "gamma":
        {
          T a = sharedObj(v.k[1], st, d + 1);
          return a != null ? a : sharedObj(v.k[2], st, d + 1);
        }
      case "new":
        if (ev.isStaticObj(v)) return mutable(v) ? v : null;
        for (String k : new String[] {"lst"}) {
          T x = st.cells.get(T.mk(k, null, v));
          if (x != null) {
            T a = sharedObj(x, st, d + 1);
            if (a != null) return a;
          }
        }
        return null;
      case "lapp":
      case "lcat":
      case "lrep":
        for (T x : v.k) {
          T a = sharedObj(x, st, d + 1);
          if (a != null) return a;
        }
        return null;
      case "mget":
        return null;
      default:
        return null;
    }
  }

  private boolean mutable(T o) {
    String a = (String) o.a;
    String c = a.substring(0, a.lastIndexOf('#'));
    if (c.equals("array") || Lib.listClass(c) || Lib.mapClass(c) || c.startsWith("java.lang.StringB")) return true;
    ClassSymbol k = p.cls(c);
    if (k == null) return false;
    for (VarSymbol f : p.instanceFields(k)) if ((f.flags() & Flags.FINAL) == 0) return true;
    return false;
  }
}
