package wirefx;

import com.sun.tools.javac.code.Symbol.*;
import java.util.*;

/**
 * What the checksum services compute. The state update of a table or bit-by-bit CRC is an affine map
 * over GF(2) of the state and the byte; it is computed bit by bit and compared with the map of the
 * standard. Byte sums are compared modulo 256, with interval bounds for the result.
 */
final class Sums {
  final Ctx cx;
  final Eval ev;
  final Report r;

  Sums(Ctx cx, Report r) {
    this.cx = cx;
    this.ev = cx.ev;
    this.r = r;
  }

  /** the term is outside what the bit domain can express */
  static final class Out extends RuntimeException {
    final boolean wrong;

    Out(String m) {
      this(m, false);
    }

    Out(String m, boolean wrong) {
      super(m, null, false, false);
      this.wrong = wrong;
    }
  }

  // ------------------------------------------------------------------ affine bits

  /** one bit: the exclusive or of some state bits, some byte bits and a constant */
  static final class Bit {
    final long s;
    final int b;
    final boolean c;

    Bit(long s, int b, boolean c) {
      this.s = s;
      this.b = b;
      this.c = c;
    }

    static final Bit O = new Bit(0, 0, false), I = new Bit(0, 0, true);

    Bit xor(Bit o) {
      return new Bit(s ^ o.s, b ^ o.b, c ^ o.c);
    }

    boolean konst() {
      return s == 0 && b == 0;
    }

    boolean same(Bit o) {
      return s == o.s && b == o.b && c == o.c;
    }

    @Override
    public String toString() {
      StringBuilder x = new StringBuilder(c ? "1" : "0");
      for (int i = 0; i < 64; i++) if ((s >>> i & 1) != 0) x.append("^s").append(i);
      for (int i = 0; i < 8; i++) if ((b >>> i & 1) != 0) x.append("^b").append(i);
      return x.toString();
    }
  }

  static Bit[] num(long v) {
    Bit[] r = new Bit[64];
    for (int i = 0; i < 64; i++) r[i] = (v >>> i & 1) != 0 ? Bit.I : Bit.O;
    return r;
  }

  static Bit[] xor(Bit[] x, Bit[] y) {
    Bit[] r = new Bit[64];
    for (int i = 0; i < 64; i++) r[i] = x[i].xor(y[i]);
    return r;
  }

  static Bit[] cut(Bit[] x, int w, boolean signed) {
    if (w >= 64) return x;
    Bit[] r = new Bit[64];
    for (int i = 0; i < 64; i++) r[i] = i < w ? x[i] : signed ? x[w - 1] : Bit.O;
    return r;
  }

  static boolean isConst(Bit[] x) {
    for (Bit b : x) if (!b.konst()) return false;
    return true;
  }

  static long value(Bit[] x) {
    long v = 0;
    for (int i = 0; i < 64; i++) if (x[i].c) v |= 1L << i;
    return v;
  }

  /** the affine map of a step: variables are one state word and one byte */
  final class Map2 {
    final Map<T, Bit[]> vars;
    final Map<T, Bit[]> memo = new HashMap<>();

    Map2(Map<T, Bit[]> vars) {
      this.vars = vars;
    }

    Bit[] of(T t) {
      Bit[] m = memo.get(t);
      if (m != null) return m;
      m = of0(t);
      memo.put(t, m);
      return m;
    }

    private Bit[] of0(T t) {
      Bit[] v = vars.get(t);
      if (v != null) return v;
      if (t.isNum()) return num(t.n());
      switch (t.op) {
        case "ext":
          {
            // the range of the term tells whether it is sign-extended
            Bit[] x = of(t.k[0]);
            int w = width(t);
            return cut(x, w, signed(t));
          }
        case "ixor":
        case "iand":
        case "ior":
          {
            int w = width(t);
            Bit[] x = of(t.k[0]);
            for (int i = 1; i < t.k.length; i++) {
              Bit[] y = of(t.k[i]), z = new Bit[64];
              for (int j = 0; j < 64; j++) z[j] = t.is("ixor") ? x[j].xor(y[j]) : andor(t.is("iand"), x[j], y[j]);
              x = z;
            }
            return cut(x, w, true);
          }
        case "shl":
        case "shr":
        case "ushr":
          {
            int w = width(t);
            Bit[] x = cut(of(t.k[0]), w, !t.is("ushr")), z = new Bit[64];
            Bit[] by = of(t.k[1]);
            if (!isConst(by)) throw new Out("shift by " + t.k[1]);
            int n = (int) (value(by) & (w - 1));
            if (t.is("shl")) for (int j = 0; j < 64; j++) z[j] = j < n ? Bit.O : x[j - n];
            else for (int j = 0; j < 64; j++) z[j] = j + n < 64 ? x[j + n] : t.is("ushr") ? Bit.O : x[63];
            return cut(z, w, !(t.is("ushr") && n > 0));
          }
        case "lin":
          {
            long c = T.konst(t);
            if (t.k.length == 1) {
              long f = T.coef(t, t.k[0]);
              if (f == -1 && c == -1) return xor(of(t.k[0]), num(-1));
              if (f > 0 && Long.bitCount(f) == 1 && c == 0) {
                int n = Long.numberOfTrailingZeros(f);
                Bit[] x = of(t.k[0]), z = new Bit[64];
                for (int j = 0; j < 64; j++) z[j] = j < n ? Bit.O : x[j - n];
                return z;
              }
            }
            // terms that have no bit in common are put together without a carry
            Bit[] s = num(c);
            for (T a : t.k) {
              long f = T.coef(t, a);
              if (f <= 0 || Long.bitCount(f) != 1) throw new Out("sum " + t);
              Bit[] x = of(T.scale(a, f));
              for (int j = 0; j < 64; j++) if (!(zero(s[j]) || zero(x[j]))) throw new Out("sum " + t);
              s = xor(s, x);
            }
            return s;
          }
        case "div":
          {
            Bit[] x = of(t.k[0]), d = of(t.k[1]);
            if (!isConst(d) || Long.bitCount(value(d)) != 1 || value(d) < 0 || !zero(x[63])) throw new Out("division " + t);
            int n = Long.numberOfTrailingZeros(value(d));
            Bit[] z = new Bit[64];
            for (int j = 0; j < 64; j++) z[j] = j + n < 64 ? x[j + n] : Bit.O;
            return z;
          }
        case "rem":
          {
            Bit[] x = of(t.k[0]), d = of(t.k[1]);
            if (!isConst(d) || Long.bitCount(value(d)) != 1 || value(d) < 0 || !zero(x[63])) throw new Out("remainder " + t);
            return cut(x, Long.numberOfTrailingZeros(value(d)), false);
          }
        case "gamma":
          {
            Bit c;
            try {
              c = cond(t.k[0]);
            } catch (Out o) {
              Bit[] q = o.wrong ? null : tabulate(t);
              if (q == null) throw o;
              return q;
            }
            Bit[] x = of(t.k[1]), y = of(t.k[2]), z = new Bit[64];
            for (int j = 0; j < 64; j++) {
              Bit d = x[j].xor(y[j]);
              if (c.konst()) z[j] = c.c ? x[j] : y[j];
              else if (zero(d)) z[j] = y[j];
              else if (d.konst()) z[j] = y[j].xor(c);
              else throw new Out("choice " + t);
            }
            return z;
          }
        case "select":
          return lookup(t);
        default:
          throw new Out("term " + t);
      }
    }

    private Bit andor(boolean and, Bit x, Bit y) {
      if (x.konst()) return and ? x.c ? y : Bit.O : x.c ? Bit.I : y;
      if (y.konst()) return and ? y.c ? x : Bit.O : y.c ? Bit.I : x;
      if (x.same(y)) return x;
      throw new Out("product of bits");
    }

    Bit cond(T c) {
      switch (c.op) {
        case "true":
          return Bit.I;
        case "false":
          return Bit.O;
        case "not":
          return cond(c.k[0]).xor(Bit.I);
        case "eq0":
          {
            Bit[] x = of(c.k[0]);
            Bit one = null;
            for (Bit b : x) {
              if (zero(b)) continue;
              if (one != null && !one.same(b)) throw new Out("condition " + c);
              one = b;
            }
            return one == null ? Bit.I : one.xor(Bit.I);
          }
        case "gt0":
          {
            // one bit, never negative; or the sign
            Bit[] x = of(c.k[0]);
            boolean neg = true;
            for (Bit b : x) neg &= b.same(x[63]);
            if (neg) return Bit.O;
            if (!zero(x[63])) throw new Out("condition " + c);
            Bit one = null;
            for (Bit b : x) {
              if (zero(b)) continue;
              if (one != null && !one.same(b)) throw new Out("condition " + c);
              one = b;
            }
            return one;
          }
        default:
          throw new Out("condition " + c);
      }
    }

    /** a term that depends on the variables through one byte only, as a table */
    private Bit[] tabulate(T t) {
      T[] u = {null, null};
      t.each(x -> {
        if (x.is("ext") && (Integer) x.a == 8) {
          if (u[0] == null) u[0] = x;
          else if (u[0] != x) u[1] = x;
        }
      });
      if (u[0] == null || u[1] != null) return null;
      if (T.subst(t, Map.of(u[0], T.ZERO)).any(x -> vars.containsKey(x))) return null;
      return table(of(u[0]), 8, i -> T.subst(t, Map.of(u[0], T.num(i))));
    }

    /** a constant table that is an affine function of its index */
    private Bit[] lookup(T t) {
      if (t.k[1].isNum()) throw new Out("table entry " + t.k[1]);
      Bit[] ix = of(t.k[1]);
      int n = 0;
      while (n < 64 && !allZeroFrom(ix, n)) n++;
      if (n > 12) throw new Out("index " + t.k[1]);
      return table(ix, n, i -> ev.aselect(t.k[0], T.num(i), t.vtype()));
    }

    private Bit[] table(Bit[] ix, int n, java.util.function.IntFunction<T> entry) {
      long[] tab = new long[1 << n];
      for (int i = 0; i < tab.length; i++) {
        T e = entry.apply(i);
        if (e.is("select") && e.k[1].isNum()) throw new Out("table entry " + i + " is " + e);
        Bit[] v = new Map2(Map.of()).of(e);
        if (!isConst(v)) throw new Out("table entry " + i);
        tab[i] = value(v);
      }
      for (int i = 0; i < tab.length; i++) {
        long v = tab[0];
        for (int k = 0; k < n; k++) if ((i >> k & 1) != 0) v ^= tab[1 << k] ^ tab[0];
        if (v != tab[i]) throw new Out("the table is no CRC table: entry " + i + " is 0x" + Long.toHexString(tab[i] & 0xffffffffL) + ", the others make it 0x" + Long.toHexString(v & 0xffffffffL), true);
      }
      Bit[] z = num(tab[0]);
      for (int k = 0; k < n; k++) {
        long d = tab[1 << k] ^ tab[0];
        for (int j = 0; j < 64; j++) if ((d >>> j & 1) != 0) z[j] = z[j].xor(ix[k]);
      }
      return z;
    }

    private boolean allZeroFrom(Bit[] x, int n) {
      for (int i = n; i < 64; i++) if (!zero(x[i])) return false;
      return true;
    }
  }

  static boolean zero(Bit b) {
    return b.konst() && !b.c;
  }

  static int width(T t) {
    if (t.is("ext")) {
      int w = (Integer) t.a;
      return w < 0 ? -w : w;
    }
    return t.a instanceof Integer ? (Integer) t.a : 32;
  }

  static boolean signed(T t) {
    return (Integer) t.a < 0;
  }

  // ------------------------------------------------------------------ standards

  static final class Crc {
    int width;
    long poly, init, xorout;
  }

  static Crc standard(String alg) {
    Crc c = new Crc();
    switch (alg) {
      case "CRC16": // CRC-16/MODBUS
        c.width = 16;
        c.poly = 0xA001L;
        c.init = 0xFFFFL;
        c.xorout = 0;
        return c;
      case "CRC32": // CRC-32/ISO-HDLC
        c.width = 32;
        c.poly = 0xEDB88320L;
        c.init = 0xFFFFFFFFL;
        c.xorout = 0xFFFFFFFFL;
        return c;
      default:
        return null;
    }
  }

  /** one byte of a reflected CRC, bit by bit */
  static Bit[] reference(Crc c) {
    Bit[] s = new Bit[64];
    for (int i = 0; i < 64; i++) s[i] = i < c.width ? new Bit(1L << i, 0, false) : Bit.O;
    for (int i = 0; i < 8; i++) s[i] = s[i].xor(new Bit(0, 1 << i, false));
    for (int n = 0; n < 8; n++) {
      Bit low = s[0];
      Bit[] z = new Bit[64];
      for (int j = 0; j < 64; j++) {
        z[j] = j < 63 ? s[j + 1] : Bit.O;
        if ((c.poly >>> j & 1) != 0) z[j] = z[j].xor(low);
      }
      s = z;
    }
    return s;
  }

  // ------------------------------------------------------------------ the loop over the bytes

  static final class Bytes {
    Eval.LoopInfo li;
    T b; // the byte
    T other; // something else the loop looks at
  }

  void run() {
    Map<String, ClassSymbol> byAlg = new TreeMap<>();
    int n = 0;
    for (ClassSymbol c : cx.p.implementers("com.finproto.codec.ChecksumService")) {
      MethodSymbol a = cx.p.method(c, "algorithm");
      if (a == null) continue;
      T alg = ev.run(c, a).ret;
      if (!alg.is("str")) {
        r.undecided("algorithm name", c.flatName().toString(), cx.p.pos(a), "name " + alg);
        continue;
      }
      String name = (String) alg.a;
      boolean crc = standard(name) != null, sum = name.equals("SSE_BIN") || name.equals("SZSE_BIN");
      if (!crc && !sum) continue;
      n++;
      MethodSymbol m = cx.p.method(c, "calc", "*");
      if (m == null) {
        r.undecided("computed function", c.flatName().toString(), cx.p.pos(c), "calc is not declared here");
        continue;
      }
      Eval.Summary s = ev.run(c, m);
      settle("computed function", c.flatName().toString(), cx.p.pos(m), () -> {
        try {
          return decide(name, s.ret, s.tr, s.args.get(0), s.st);
        } catch (Out o) {
          String w = o.wrong ? null : refute(name, s.ret, null, s.tr, s.args.get(0));
          if (w != null) return w;
          throw o;
        }
      });
      verify(c, name);
    }
    r.floor("standard checksum services", n, 4);
  }

  interface Body {
    String run();
  }

  private void settle(String rule, String site, String pos, Body b) {
    try {
      String d = b.run();
      if (d == null) r.ok(rule, site);
      else r.bad(rule, site, pos, d);
    } catch (Out o) {
      if (o.wrong) r.bad(rule, site, pos, o.getMessage());
      else r.undecided(rule, site, pos, o.getMessage());
    }
  }

  /** verify answers true exactly when the expected checksum is the computed one */
  private void verify(ClassSymbol c, String name) {
    MethodSymbol v = cx.p.method(c, "verify", "*", "*");
    if (v == null) {
      r.undecided("verification", c.flatName().toString(), cx.p.pos(c), "no verify");
      return;
    }
    Eval.Summary s = ev.run(c, v);
    T buf = s.args.get(0), want = s.args.get(1);
    String site = c.flatName().toString(), pos = cx.p.pos(v);
    Scn sc = new Scn(null, "expected given");
    sc.nonnull.add(want);
    sc.nonnull.add(buf);
    sc.rules.add(x -> x.is("isnull") && x.k[0].is("fold") ? T.FALSE : null); // a number kept over the rounds
    sc.enter();
    T ret;
    try {
      ret = sc.spec(s.ret);
    } finally {
      Scn.leave();
    }
    Scn none = new Scn(null, "no checksum expected");
    none.map.put(want, T.NULL);
    none.nonnull.add(buf);
    none.rules.add(x -> x.is("isnull") && x.k[0].is("fold") ? T.FALSE : null);
    none.enter();
    try {
      T q = none.spec(s.ret);
      if (q.is("isnull") && q.k[0].is("fold")) q = T.FALSE; // a number kept over the rounds
      boolean fails = Eff.anyOf(s.tr, e -> e.is("DEREF") && none.spec(e.obj) == T.NULL || e.is("THROW"));
      if (q == T.FALSE || fails && q != T.TRUE) r.ok("no checksum is not accepted", site);
      else if (q == T.TRUE && !fails) r.bad("no checksum is not accepted", site, pos, "accepts an absent checksum: " + s.ret);
      else r.undecided("no checksum is not accepted", site, pos, "result " + q);
    } finally {
      Scn.leave();
    }
    settle(
        "verification",
        site,
        pos,
        () -> {
          try {
            return same(name, ret, s, want, buf);
          } catch (Out o) {
            String w = o.wrong ? null : refute(name, ret, want, s.tr, buf);
            if (w != null) return w;
            throw o;
          }
        });
  }

  /** a failure that depends on nothing but the kind of buffer */
  private static String kind(List<Eff> tr) {
    String[] o = {null};
    Eff.walkC(tr, List.of(), (e, pc) -> {
      if (!e.is("THROW") || pc.isEmpty()) return;
      for (T c : pc) {
        T q = c.is("not") ? c.k[0] : c;
        if (!(q.is("bufprop") && ("" + q.a).startsWith("hasArray"))) return;
      }
      o[0] = "fails for buffers that are not backed by an array (" + e.pos + ")";
    });
    return o[0];
  }

  private String same(String name, T ret, Eval.Summary s, T want, T buf) {
          if (ret == T.TRUE) return "accepts every checksum";
          if (ret == T.FALSE) return "accepts no checksum";
          if (ret.is("same")) return "compares boxed numbers by identity: " + ret;
          if (ret.is("not") && (ret.k[0].is("objeq") || ret.k[0].is("eq0"))) return "accepts what differs: " + ret;
          T got = null;
          if (ret.is("objeq")) got = ret.k[0] == want ? ret.k[1] : ret.k[1] == want ? ret.k[0] : null;
          else if (ret.is("eq0")) {
            long f = T.coef(ret.k[0], want);
            if (f == 1) got = T.scale(T.sub(ret.k[0], want), -1);
            else if (f == -1) got = T.add(ret.k[0], want);
            else if (ret.any(x -> x == want)) {
              String q = partial(ret.k[0], want);
              if (q != null) return q;
            }
          }
          if (got == null) {
            if (!ret.any(x -> x == want)) {
              if (Wire.opaque(ret) && !ret.any(x -> x.is("fold"))) throw new Out("result " + ret);
              return "does not look at the expected checksum: " + ret;
            }
            throw new Out("result " + ret);
          }
          return decide(name, got, s.tr, buf, s.st);
  }

  /** the contents at which a term outside the domains is looked at */
  private static List<int[]> contents() {
    List<int[]> l = new ArrayList<>();
    l.add(new int[0]);
    for (int b : new int[] {0, 1, 2, 15, 16, 65, 127, 128, 129, 170, 254, 255}) l.add(new int[] {b});
    l.add(new int[] {1, 2});
    l.add(new int[] {255, 128, 0});
    l.add(new int[] {49, 50, 51, 52, 53, 54, 55, 56, 57});
    int[] long40 = new int[40];
    Arrays.fill(long40, 255);
    l.add(long40);
    return l;
  }

  static long standard(String name, int[] content) {
    Crc c = standard(name);
    if (c == null) {
      long s = 0;
      for (int b : content) s += b;
      return s & 255;
    }
    long s = c.init;
    for (int b : content) {
      s ^= b;
      for (int i = 0; i < 8; i++) s = (s & 1) != 0 ? s >>> 1 ^ c.poly : s >>> 1;
    }
    return s ^ c.xorout;
  }

  /** a content for which the terms come to something else than the standard; null if none is found */
  private String refute(String name, T ret, T want, List<Eff> tr, T buf) {
    if (kind(tr) != null) return kind(tr);
    String[] kept = {null};
    Eff.walk(tr, e -> {
      if (e.is("SWRITE") && e.obj == null && e.name != null && ret.any(x -> x.is("sfld") && e.name.equals("" + x.a)
          || x.is("fold") && Arrays.stream(x.k).anyMatch(y -> y.is("sfld") && e.name.equals("" + y.a)))) kept[0] = "depends on " + e.name + ", which it changes itself (" + e.pos + ")";
    });
    if (kept[0] != null) return kept[0];
    if (Eff.anyOf(tr, e -> e.is("UNK") || e.is("OBJCALL"))) return null;
    int w = standard(name) == null ? 8 : standard(name).width;
    try {
      for (int[] c : contents()) {
        String at = "for the bytes " + Arrays.toString(c);
        long x = standard(name, c);
        if (w == 32) x = (int) x;
        try {
          Folds f = new Folds(ev, buf, c, tr);
          String[] t = {null};
          Eff.walkC(tr, List.of(), (e, pc) -> {
            if (!e.is("THROW") || t[0] != null) return;
            for (T g : pc) if (f.go(g, Map.of()) != T.TRUE) return;
            t[0] = at + " it fails (" + e.name + ")";
          });
          if (t[0] != null) return t[0];
          if (want == null) {
            long g = f.number(ret);
            if (g != x) return at + " the result is 0x" + Long.toHexString(g) + ", expected 0x" + Long.toHexString(x);
          } else
            for (long d : new long[] {0, 1, 256, 65536, Integer.MIN_VALUE}) {
              long ex = (int) (x + d);
              Folds q = new Folds(ev, buf, c, tr);
              q.given.put(want, T.num(ex));
              T v = q.go(ret, Map.of());
              if (!v.isBoolConst()) return null;
              if ((v == T.TRUE) != (d == 0)) return at + " the checksum 0x" + Long.toHexString(ex) + " is " + (d == 0 ? "rejected" : "accepted") + ", the right one is 0x" + Long.toHexString(x);
            }
        } catch (Folds.Fails e) {
          return at + " it fails: " + e.getMessage();
        }
      }
    } catch (Folds.Stuck e) {
      return null;
    }
    return null;
  }

  /** only some bits of the two are compared */
  private String partial(T t, T want) {
    boolean[] cut = {false};
    t.each(x -> {
      if ((x.is("ext") && width(x) < 32 || x.is("iand")) && x.has(want)) cut[0] = true;
    });
    return cut[0] ? "compares only part of the checksums: " + t + " == 0" : null;
  }

  String decide(String name, T ret, List<Eff> tr, T buf, St st) {
    Eff.walk(tr, e -> {
      if (e.is("UNK") || e.is("OBJCALL")) throw new Out(e.kind + " " + e.name + " at " + e.pos);
    });
    if (kind(tr) != null) return kind(tr);
    Crc c = standard(name);
    T has = T.mk("bufprop", "hasArray:boolean", buf);
    if (ret.has(has)) {
      // the bytes taken from the backing array, or one by one
      String x = decide(name, T.subst(ret, Map.of(has, T.TRUE)), tr, buf, st);
      return x != null ? x : decide(name, T.subst(ret, Map.of(has, T.FALSE)), tr, buf, st);
    }
    T[] f = {null, null};
    ret.each(x -> {
      if (x.is("fold") || x.is("psum") || x.is("last")) {
        if (f[0] == null) f[0] = x;
        else if (x != f[0]) f[1] = x;
      }
    });
    if (f[0] == null) {
      if (Wire.opaque(ret)) throw new Out("result " + ret);
      return "the result " + ret + " is not computed from every byte";
    }
    if (f[1] != null) throw new Out("result of more than one loop: " + ret);
    if (f[0].is("last")) return "the result comes from the last byte alone: " + ret;
    return c == null ? sum(name, ret, f[0], tr, buf) : crc(name, c, ret, f[0], tr, buf);
  }

  private Eval.LoopInfo loop(T f) {
    String a = (String) f.a;
    String id = f.is("psum") ? a.substring(1) : a.substring(0, a.indexOf('.'));
    Eval.LoopInfo li = ev.loops.get(id);
    if (li == null) throw new Out("loop " + id);
    return li;
  }

  /** the byte each round looks at, after checking that the rounds go over the readable bytes */
  private T bytes(Eval.LoopInfo li, T trip, List<T> terms, List<Eff> tr, T buf, boolean anyOrder, String[] bad) {
    T avail = T.mk("avail", null, buf), r0 = T.mk("cursor0", "r", buf);
    Map<T, T> pos = new LinkedHashMap<>();
    // reads that move the reader position
    Map<T, T> rd = new HashMap<>();
    Eff.walk(tr, e -> {
      if (e.is("RD") && e.width == 8) rd.put(e.res, ev.lib.root(e.buf) == buf ? ev.lib.abs(e.buf, e.pos0) : null);
      if (e.is("RD") && e.width != 8 || e.is("RB")) rd.put(e.res, T.opaque("wide"));
    });
    Set<T> inside = new HashSet<>();
    for (T t : terms) t.each(x -> {
      if (x.is("getb")) x.k[1].each(y -> {
        if (y.is("bufprop")) inside.add(y);
      });
    });
    for (T t : terms)
      t.each(x -> {
        if (inside.contains(x)) return;
        if (x.is("getb")) {
          if (x.k[0] != buf) throw new Out("byte of " + x.k[0]);
          pos.put(x, x.k[1]);
        } else if (x.is("getn") || x.is("bufstr") || x.is("rbytes") || x.is("gbytes")) throw new Out("reads " + x);
        else if (x.is("rd")) {
          T q = rd.get(x);
          if (q == null || q.is("opaque")) throw new Out("reads " + x);
          pos.put(x, q);
        } else if (x.is("bufprop") || x.is("env") || x.is("sfld")) throw new Out("depends on " + x);
      });
    if (pos.isEmpty()) {
      bad[0] = "no byte of the buffer enters the checksum";
      return null;
    }
    if (pos.size() > 1) throw new Out("looks at more than one byte in a round");
    T b = pos.keySet().iterator().next(), at = pos.values().iterator().next();
    T fwd = T.add(r0, li.idx), bwd = T.sub(T.add(r0, T.sub(avail, T.ONE)), li.idx);
    if (trip != avail) {
      if (trip.is("scan") && trip.k[0] == avail) {
        bad[0] = early(trip.k[1]);
        if (bad[0] != null) return null;
      }
      if (Wire.opaque(trip)) throw new Out("number of rounds " + trip);
      bad[0] = "goes over " + trip + " bytes, not the readable ones";
      return null;
    }
    if (at != fwd && !(anyOrder && at == bwd)) {
      if (Wire.opaque(at)) throw new Out("position " + at);
      bad[0] = "round i looks at byte " + at + ", expected readerIndex + i";
      return null;
    }
    return b;
  }

  /** a byte at which the loop over the bytes ends before the last one */
  private static String early(T go) {
    Set<T> read = new HashSet<>();
    go.each(x -> {
      if (x.is("getb") || x.is("rd")) read.add(x);
    });
    for (long i : new long[] {0, 1, 2, 7, 8, 63, 64, 255, 256, 1023, 1024, 1025, 4095, 4096, 8192, 32767, 32768, 65535, 65536})
      for (int v = 0; v < 256; v++) {
        Map<T, T> m = new HashMap<>();
        for (T x : read) m.put(x, T.num(v));
        T c = T.subst(T.subst(go, m), Map.of(T.mk("bv", 0), T.num(i)));
        if (c == T.FALSE) return "stops at byte " + i + (read.isEmpty() ? "" : " when it is " + v) + " without looking at those after it";
        if (read.isEmpty()) break;
      }
    return null;
  }

  private String crc(String name, Crc c, T ret, T f, List<Eff> tr, T buf) {
    if (!f.is("fold")) {
      if (f.is("psum")) return "the result is a sum of bytes, not a CRC: " + ret;
      throw new Out("result " + ret);
    }
    Eval.LoopInfo li = loop(f);
    if (li.phis.size() != 1) throw new Out("a round keeps " + li.phis.size() + " values");
    T phi = li.phis.get(0), step = li.steps.get(0), init = f.k[1];
    String[] bad = {null};
    T b = bytes(li, f.k[0], List.of(step), tr, buf, false, bad);
    if (bad[0] != null) return bad[0];
    Bit[] sv = new Bit[64], bv = new Bit[64];
    for (int i = 0; i < 64; i++) {
      sv[i] = i < c.width ? new Bit(1L << i, 0, false) : null;
      bv[i] = i < 8 ? new Bit(0, 1 << i, false) : Bit.O;
    }
    Bit[] iv = new Map2(Map.of()).of(init);
    if (!isConst(iv)) throw new Out("initial value " + init);
    long i0 = value(iv);
    long mask = c.width == 64 ? -1 : (1L << c.width) - 1;
    // above the width the state holds zeros, or copies of the sign
    String[] err = {null};
    boolean[] hi = i0 >>> c.width == 0 ? new boolean[] {false} : new boolean[] {true};
    Bit[] st = new Bit[64];
    for (int i = 0; i < 64; i++) st[i] = i < c.width ? sv[i] : hi[0] ? sv[c.width - 1] : Bit.O;
    Bit[] ref = reference(c);
    Bit[] nx;
    Bit[] out;
    Map<T, Bit[]> vars = new HashMap<>();
    vars.put(phi, st);
    vars.put(b, bv);
    nx = new Map2(vars).of(step);
    // a state of 32 bits may show as copies of the sign or zeros: what is above is never used
    if (c.width < 32 && !hi[0]) for (int i = c.width; i < 64; i++) if (!zero(nx[i])) {
      // the upper bits do not stay empty: let them be free
      for (int j = c.width; j < 64; j++) st[j] = j < 32 ? new Bit(1L << j, 0, false) : new Bit(1L << 31, 0, false);
      vars.put(phi, st);
      nx = new Map2(vars).of(step);
      break;
    }
    if (c.width == 32) {
      for (int j = 32; j < 64; j++) st[j] = new Bit(1L << j, 0, false);
      vars.put(phi, st);
      nx = new Map2(vars).of(step);
      boolean clean = true;
      for (int j = 0; j < 32; j++) clean &= nx[j].s >>> 32 == 0;
      if (!clean) {
        // wider states: zeros stay zeros
        for (int j = 32; j < 64; j++) st[j] = i0 >>> 32 == 0 ? Bit.O : new Bit(1L << 31, 0, false);
        vars.put(phi, st);
        nx = new Map2(vars).of(step);
      }
    }
    Map<T, Bit[]> ov = new HashMap<>();
    ov.put(f, st);
    out = new Map2(ov).of(ret);
    // out = state ^ k on the low bits
    long k = 0;
    for (int i = 0; i < c.width; i++) {
      if (out[i].s != 1L << i || out[i].b != 0) return "bit " + i + " of the result is " + out[i] + " of the final state, expected s" + i;
      if (out[i].c != ((c.xorout >>> i & 1) != 0)) k |= 1L << i;
    }
    if (c.width < 32)
      for (int i = c.width; i < 64; i++) if (!zero(out[i])) return "the result is not cut to " + c.width + " bits";
    if (((i0 & mask) ^ k) != c.init) return "starts from 0x" + Long.toHexString((i0 & mask) ^ k) + ", expected 0x" + Long.toHexString(c.init);
    for (int i = 0; i < c.width; i++) {
      // reference step on s ^ k, then back
      Bit w = ref[i];
      boolean cc = w.c ^ (Long.bitCount(w.s & k) & 1) != 0 ^ (k >>> i & 1) != 0;
      Bit want = new Bit(w.s, w.b, cc);
      if (!nx[i].same(want)) return "bit " + i + " after a byte is " + nx[i] + ", expected " + want + " (" + name + ")";
    }
    r.sample(name + ": " + c.width + " state bits after a byte are the standard's affine functions of state and byte; start 0x" + Long.toHexString(c.init));
    return null;
  }

  // ------------------------------------------------------------------ sums

  /** what a term is modulo 256, as factor * state + (byte terms) + constant */
  private static final class Mod {
    long s, b, c;
  }

  private Mod mod(T t, T state, T b) {
    Mod m = new Mod();
    if (t == state) {
      m.s = 1;
      return m;
    }
    if (t == b) {
      m.b = 1;
      return m;
    }
    if (t.isNum()) {
      m.c = t.n() & 255;
      return m;
    }
    switch (t.op) {
      case "ext":
        if (width(t) < 8) throw new Out("term " + t);
        return mod(t.k[0], state, b);
      case "iand":
        for (int i = 0; i < 2; i++) if (t.k[i].isNum() && (t.k[i].n() & 255) == 255) return mod(t.k[1 - i], state, b);
        if (t.k[0].isNum() || t.k[1].isNum()) throw new Out("masks away bits of the sum: " + t, true);
        throw new Out("term " + t);
      case "rem":
        if (t.k[1].isNum() && t.k[1].n() % 256 == 0 && t.k[1].n() != 0) return mod(t.k[0], state, b);
        if (t.k[1].isNum()) throw new Out("takes the remainder by " + t.k[1] + ", expected 256", true);
        throw new Out("term " + t);
      case "floormod":
        if (t.k[1].isNum() && t.k[1].n() == 256) return mod(t.k[0], state, b);
        throw new Out("term " + t);
      case "gamma":
        {
          Mod x = mod(t.k[1], state, b), y = mod(t.k[2], state, b);
          if (x.s == y.s && x.b == y.b && x.c == y.c) return x;
          throw new Out("choice " + t);
        }
      case "lin":
        m.c = T.konst(t) & 255;
        for (T a : t.k) {
          long f = T.coef(t, a);
          Mod q = mod(a, state, b);
          m.s = m.s + f * q.s & 255;
          m.b = m.b + f * q.b & 255;
          m.c = m.c + f * q.c & 255;
        }
        return m;
      default:
        throw new Out("term " + t);
    }
  }

  private String sum(String name, T ret, T f, List<Eff> tr, T buf) {
    Eval.LoopInfo li = loop(f);
    String[] bad = {null};
    T delta, b;
    boolean fold = f.is("fold");
    long[] range;
    if (fold) {
      if (li.phis.size() != 1) throw new Out("a round keeps " + li.phis.size() + " values");
      T phi = li.phis.get(0), step = li.steps.get(0);
      b = bytes(li, f.k[0], List.of(step), tr, buf, true, bad);
      if (bad[0] != null) return bad[0];
      Mod m = mod(step, phi, b), i = mod(f.k[1], phi, b);
      if (m.s != 1 || m.b != 1 || m.c != 0) return "a round makes " + m.s + "*sum + " + m.b + "*byte + " + m.c + ", expected sum + byte (modulo 256)";
      if (i.s != 0 || i.b != 0 || i.c != 0) return "the sum starts from " + f.k[1];
      // where the state stays
      T.FACTS = new HashMap<>();
      try {
        range = new long[] {-T.INF, T.INF};
        T.FACTS.put(phi, new long[] {0, 255});
        long[] s = T.range(new T.Rebuild(x -> null).go(step));
        if (s[0] >= 0 && s[1] <= 255) range = new long[] {0, 255};
        else {
          T.FACTS = new HashMap<>();
          s = T.range(step);
          range = s;
        }
      } finally {
        T.FACTS = new HashMap<>();
      }
    } else {
      delta = f.k[0];
      b = bytes(li, f.k[1], List.of(delta), tr, buf, true, bad);
      if (bad[0] != null) return bad[0];
      Mod m = mod(delta, null, b);
      if (m.s != 0 || m.b != 1 || m.c != 0) return "a round adds " + m.b + "*byte + " + m.c + ", expected the byte (modulo 256)";
      range = T.range(f);
    }
    Mod o = mod(ret, f, b);
    if (o.s != 1 || o.b != 0 || o.c != 0) return "the result is " + o.s + "*sum + " + o.c + " (modulo 256): " + ret;
    T.FACTS = new HashMap<>();
    long[] q;
    try {
      T.FACTS.put(f, range);
      q = T.range(new T.Rebuild(x -> null).go(ret));
      if (ret == f) q = range;
    } finally {
      T.FACTS = new HashMap<>();
    }
    if (q[0] < 0 || q[1] > 255) {
      if (fold && f.any(x -> x.is("gamma")) || li.steps.stream().anyMatch(x -> x.any(y -> y.is("gamma")))) throw new Out("the result may be outside 0..255");
      return "the result is not confined to 0..255: " + ret + " ranges from " + (q[0] <= -T.INF ? "-inf" : "" + q[0]) + " to " + (q[1] >= T.INF ? "inf" : "" + q[1]);
    }
    r.sample(name + ": each round adds its byte modulo 256, over readerIndex.." + "writerIndex, result within [" + q[0] + ", " + q[1] + "]");
    return null;
  }
}
