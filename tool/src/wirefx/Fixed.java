package wirefx;

import com.sun.tools.javac.code.Symbol;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;

/** The fixed-width text primitives of BinaryCodec: width, padding, truncation, trimming. */
final class Fixed {
  static final class Seg {
    T val, n; // n bytes of value val (pad), or bytes [0,n) of val
    boolean pad;
    String pos;

    @Override
    public String toString() {
      return pad ? n + " x byte " + val : n + " bytes of " + val;
    }
  }

  final Ctx cx;
  final Report r;
  final Prog p;
  T buf, value, len, pad, left;

  Fixed(Ctx cx, Report r) {
    this.cx = cx;
    this.r = r;
    this.p = cx.p;
  }

  private String of = "BinaryCodec";

  private static final T K = T.mk("param", "k:int");

  void run(boolean width, boolean content) {
    ClassSymbol c = p.cls(Ctx.CODEC);
    MethodSymbol w = c == null ? null : p.method(c, "writeFixedString", Ctx.BUF, "java.lang.String", "int", "char", "boolean");
    MethodSymbol rd = c == null ? null : p.method(c, "readFixedString", Ctx.BUF, "int", "char", "boolean");
    if (w == null || rd == null) {
      r.broken.add("BinaryCodec.writeFixedString/readFixedString not found");
      return;
    }
    Set<String> keep = cx.ev.leafMethods;
    cx.ev.leafMethods = new HashSet<>();
    try {
      write(c, w, width, content);
      read(c, rd, width, content);
      // and in the messages that have their own version of what these call
      for (Symbol y : p.classes.keySet()) {
        ClassSymbol k = (ClassSymbol) y;
        if (k == c || k.isInterface() || !p.isSubSafe(k, Ctx.CODEC)) continue;
        of = k.flatName().toString();
        if (cx.ev.overrides(k, w)) write(k, own(w, k), width, content);
        if (cx.ev.overrides(k, rd)) read(k, own(rd, k), width, content);
      }
    } finally {
      cx.ev.leafMethods = keep;
    }
  }

  private MethodSymbol own(MethodSymbol m, ClassSymbol k) {
    MethodSymbol t = m.implementation(k, p.types, true);
    return t == null ? m : t;
  }

  // ------------------------------------------------------------------ write

  private void write(ClassSymbol c, MethodSymbol m, boolean width, boolean content) {
    Eval.Summary s = cx.ev.run(c, m);
    buf = s.args.get(0);
    value = s.args.get(1);
    len = s.args.get(2);
    pad = s.args.get(3);
    left = s.args.get(4);
    int open = r.open();
    T bl = T.mk("blen", null, value), sl = T.mk("slen", null, value);
    for (boolean l : new boolean[] {true, false})
      for (String v : new String[] {"null", "empty", "shorter than the field", "exactly as long as the field", "longer than the field"}) {
        Scn sc = new Scn(null, v + " text, padding " + (l ? "left" : "right"));
        sc.nonnull.add(buf);
        sc.map.put(left, T.bool(l));
        sc.fact(K, 1, T.MAXSIZE);
        sc.fact(len, 1, T.MAXSIZE);
        T n;
        switch (v) {
          case "null":
            sc.map.put(value, T.NULL);
            n = len;
            break;
          case "empty":
            sc.map.put(value, T.str(""));
            n = len;
            break;
          default:
            sc.nonnull.add(value);
            sc.fact(bl, 1, T.MAXSIZE);
            sc.fact(sl, 1, T.MAXSIZE);
            n = len;
            if (v.startsWith("shorter")) {
              n = T.add(bl, K);
              sc.map.put(len, n);
            } else if (v.startsWith("exactly")) sc.map.put(bl, len);
            else sc.map.put(bl, T.add(len, K));
        }
        one(s, m, sc, v, l, n, width, content, 0);
      }
    if (r.open() == open) return;
    // not in a form that is recognised: constants may show where it is wrong
    String no = Texts.miswritten(cx.ev, s, width, content);
    if (no != null) r.bad(width ? "text fills its width" : "text content and padding", of + ".writeFixedString", p.pos(m), no);
  }

  private void one(Eval.Summary s, MethodSymbol m, Scn sc, String v, boolean l, T n, boolean width, boolean content, int d) {
    String site = of + ".writeFixedString (" + sc.label + ")";
    try {
      sc.enter();
      List<Seg> out = new ArrayList<>();
      segs(s.tr, sc, out);
      T tot = T.ZERO;
      // conditions the code itself distinguishes may fix the width or the padding character
      for (Seg q : out) {
        q.n = sc.spec(q.n);
        q.val = sc.spec(q.val);
        tot = T.add(tot, q.n);
      }
      n = sc.spec(sc.spec(n));
      T pd = sc.spec(pad), ln = sc.spec(sc.spec(len));
      if (width)
        if (tot == n) r.ok("text fills its width", site);
        else if (Wire.opaque(tot)) r.undecided("text fills its width", site, p.pos(m), "writes " + tot + " bytes");
        else r.bad("text fills its width", site, p.pos(m), "writes " + tot + " bytes where the field has " + n);
      if (content) {
        T bl = sc.spec(T.mk("blen", null, value));
        T enc = T.mk("encstr", null, value, T.charset("UTF-8"));
        String want, got;
        List<Seg> ex = new ArrayList<>();
        if (v.equals("null") || v.equals("empty")) ex.add(seg(true, pd, n));
        else if (v.startsWith("shorter")) {
          if (l) ex.add(seg(true, pd, K));
          ex.add(seg(false, enc, bl));
          if (!l) ex.add(seg(true, pd, K));
        } else ex.add(seg(false, enc, ln));
        want = ex.toString();
        got = out.toString();
        boolean op = false;
        for (Seg q : out) op |= Wire.opaque(q.val) || Wire.opaque(q.n);
        if (want.equals(got)) r.ok("text content and padding", site);
        else if (op) r.undecided("text content and padding", site, p.pos(m), "writes " + got);
        else r.bad("text content and padding", site, p.pos(m), "writes " + got + ", expected " + want);
        r.sample(site + ": " + got);
      }
    } catch (Wire.NeedSplit e) {
      if (d > 5 || Wire.opaque(e.cond)) {
        r.undecided("text fills its width", site, e.pos, "condition " + e.cond);
        return;
      }
      for (boolean b : new boolean[] {true, false}) {
        Scn x = new Scn(sc, sc.label + (b ? ", " : ", not ") + e.cond);
        x.enter();
        x.assume(e.cond, b);
        if (Rt.feasible(x)) one(s, m, x, v, l, n, width, content, d + 1);
      }
    } catch (Wire.Undecided e) {
      r.undecided("text fills its width", site, e.pos, e.getMessage());
    } catch (Wire.Mismatch e) {
      r.bad("text fills its width", site, e.pos, e.getMessage());
    } finally {
      Scn.leave();
    }
  }

  private static Seg seg(boolean pad, T v, T n) {
    Seg s = new Seg();
    s.pad = pad;
    s.val = v;
    s.n = n;
    return s;
  }

  private static void push(List<Seg> out, Seg s) {
    if (s.n == T.ZERO) return;
    if (!out.isEmpty()) {
      Seg l = out.get(out.size() - 1);
      if (l.pad && s.pad && l.val == s.val) {
        l.n = T.add(l.n, s.n);
        return;
      }
    }
    out.add(s);
  }

  private T byteVal(T v) {
    // the low byte of the character
    while (v.is("ext") && Math.abs((Integer) v.a) >= 8) v = v.k[0];
    return v;
  }

  private void segs(List<Eff> tr, Scn s, List<Seg> out) {
    for (Eff e : tr) {
      switch (e.kind) {
        case "CHO":
          {
            T c = s.spec(e.cond);
            if (c == T.TRUE) segs(e.a, s, out);
            else if (c == T.FALSE) segs(e.b, s, out);
            else throw new Wire.NeedSplit(c, e.pos);
            break;
          }
        case "W":
          if (e.width != 8) throw new Wire.Undecided("writes a " + e.width + "-bit number", e.pos);
          push(out, seg(true, byteVal(s.spec(e.val)), T.ONE));
          break;
        case "WB":
          bytes(s.spec(e.val), out, e.pos, s);
          break;
        case "REP":
          {
            T trip = s.spec(e.trip);
            if (trip == T.ZERO) break;
            List<Seg> b = new ArrayList<>();
            segs(e.a, s, b);
            if (b.isEmpty()) break;
            T by = b.size() == 1 && b.get(0).pad && b.get(0).n == T.ONE ? T.copied(b.get(0).val, e.idx, trip) : null;
            if (by != null) {
              bytes(by, out, e.pos, s);
              break;
            }
            if (b.size() != 1 || !b.get(0).pad) throw new Wire.Undecided("loop writing " + b, e.pos);
            if (b.get(0).val.has(e.idx)) throw new Wire.Undecided("loop writing " + b, e.pos);
            push(out, seg(true, b.get(0).val, T.mul(trip, b.get(0).n)));
            break;
          }
        case "DEREF":
          if (s.spec(e.obj).is("null")) throw new Wire.Mismatch("goes through null: " + e.obj, e.pos);
          break;
        case "THROW":
          throw new Wire.Mismatch("throws " + e.name, e.pos);
        case "SEEK":
        case "SETAT":
        case "UNK":
          throw new Wire.Undecided(e.kind + " " + e.name, e.pos);
        case "REC":
          if (e.width == 0) throw new Wire.Undecided("recursion", e.pos);
          throw new Wire.Mismatch("recursion without end", e.pos);
        case "TRY":
          segs(e.a, s, out);
          break;
        default:
          break;
      }
    }
  }

  private void bytes(T b, List<Seg> out, String pos, Scn s) {
    if (b.is("bfill")) {
      push(out, seg(true, byteVal(b.k[0]), s.spec(b.k[1])));
      return;
    }
    if (b.is("sub")) {
      T in = b.k[0];
      if (in.is("bfill")) {
        push(out, seg(true, byteVal(in.k[0]), b.k[2]));
        return;
      }
      if (b.k[1] == T.ZERO) {
        push(out, seg(false, in, s.spec(b.k[2])));
        return;
      }
      throw new Wire.Mismatch("writes " + b.k[2] + " bytes from offset " + b.k[1] + " of " + in, pos);
    }
    if (b.is("gamma")) throw new Wire.NeedSplit(b.k[0], pos);
    if (b.is("bcat")) {
      for (T x : b.k) {
        if (T.range(T.blen(x))[1] < 0) throw new Wire.Mismatch("copies past the end of the text or the field: " + x, pos);
        if (x.is("bcat")) throw new Wire.Undecided("bytes " + x, pos);
        bytes(x, out, pos, s);
      }
      return;
    }
    push(out, seg(false, b, s.spec(T.blen(b))));
  }

  /** the value is the wanted one under every outcome of the conditions it depends on */
  private boolean agree(Scn s, T v, T a, T b, T text, int d) {
    if (v == a || v == b) return true;
    T[] c = new T[1];
    v.each(
        x -> {
          if (x.is("gamma") && c[0] == null) c[0] = x.k[0];
        });
    if (c[0] == null || d > 6) return false;
    boolean ok = true;
    for (boolean h : new boolean[] {true, false}) {
      Scn y = new Scn(s, s.label);
      y.enter();
      y.assume(c[0], h);
      if (!Rt.feasible(y)) continue;
      if (y.spec(T.slen(text)) == T.ZERO) y.map.put(text, T.str(""));
      y.enter();
      ok &= agree(y, y.spec(v), y.spec(a), y.spec(b), text, d + 1);
    }
    s.enter();
    return ok;
  }

  // ------------------------------------------------------------------ read

  private void read(ClassSymbol c, MethodSymbol m, boolean width, boolean content) {
    Eval.Summary s = cx.ev.run(c, m);
    buf = s.args.get(0);
    len = s.args.get(1);
    pad = s.args.get(2);
    left = s.args.get(3);
    for (boolean l : new boolean[] {true, false}) {
      Scn sc = new Scn(null, "padding " + (l ? "left" : "right"));
      sc.nonnull.add(buf);
      sc.map.put(left, T.bool(l));
      sc.fact(len, 1, T.MAXSIZE);
      String site = of + ".readFixedString (" + sc.label + ")";
      sc.enter();
      try {
        T end = T.sub(sc.spec(cx.ev.lib.cur(s.st, "r", buf)), T.mk("cursor0", "r", buf));
        if (width)
          if (end == len) r.ok("text fills its width", site);
          else if (Wire.opaque(end)) r.undecided("text fills its width", site, p.pos(m), "reads " + end + " bytes");
          else r.bad("text fills its width", site, p.pos(m), "reads " + end + " bytes where the field has " + len);
        if (content) {
          // bytes looked at where the reader stands, and passed over after that, are read
          T here = T.mk("cursor0", "r", buf);
          T v = new T.Rebuild(x -> x.is("bufstr") && x.k[0] == buf && x.k[1] == here ? T.decstr(T.mk("rbytes", "#0", x.k[2]), x.k[3])
              : x.is("gbytes") && x.k[0] == buf && x.k[1] == here ? T.mk("rbytes", "#0", x.k[2]) : null).go(sc.spec(s.ret));
          T[] rb = new T[1];
          v.each(x -> {
            if (x.is("rbytes")) rb[0] = x;
          });
          boolean unk = Eff.anyOf(s.tr, e -> e.is("UNK"));
          if (Eff.anyOf(s.tr, e -> e.is("REP") && e.narrow)) r.bad("trimming", site, p.pos(m), "loop counter too narrow");
          String off;
          if (rb[0] == null) {
            r.undecided("trimming", site, p.pos(m), "result " + v);
            continue;
          }
          T d = T.mk("decstr", null, rb[0], T.charset("UTF-8"));
          T n = T.slen(d), bv = T.mk("bv", 0);
          T at = l ? bv : T.sub(T.sub(n, T.ONE), bv);
          T scan = T.mk("scan", null, n, T.eq0(T.sub(T.mk("charAt", null, d, at), pad)));
          T want = l ? T.mk("substr", null, d, scan, n) : T.mk("substr", null, d, T.ZERO, T.sub(n, scan));
          // the same on the bytes before they become text: padding is one byte per character
          T bn = rb[0].k[0];
          T bscan = T.mk("scan", null, bn, T.eq0(T.sub(T.select(rb[0], l ? bv : T.sub(T.sub(bn, T.ONE), bv), "byte"), pad)));
          T bwant = T.decstr(l ? T.part(rb[0], bscan, T.sub(bn, bscan)) : T.part(rb[0], T.ZERO, T.sub(bn, bscan)), T.charset("UTF-8"));
          r.sample(site + ": " + v);
          if (agree(sc, v, want, bwant, d, 0)) r.ok("trimming", site);
          else if (unbounded(v) != null)
            r.bad("trimming", site, p.pos(m), "the search for the end of the padding goes on while " + unbounded(v) + ", past the ends of an all-padding text");
          else if (!unk && (off = Texts.untrimmed(cx.ev, v, d, rb[0], len, pad, l)) != null) r.bad("trimming", site, p.pos(m), off);
          else if (unk || v.any(x -> x.is("opaque") || x.is("wtrip") || x.is("exits") || x.is("fold") || x.is("pure") && !T.lossy(x.a) || x.is("last") || x.is("libobj")))
            r.undecided("trimming", site, p.pos(m), "returns " + v);
          else r.bad("trimming", site, p.pos(m), "returns " + v + ", expected " + want);
        }
      } finally {
        Scn.leave();
      }
    }
  }

  /** the condition of a search through a text that no bound of the text ends */
  private T unbounded(T v) {
    T[] out = new T[1];
    v.each(w -> {
      if (!w.is("wtrip") || w.k.length == 0) return;
      Eval.LoopInfo li = cx.ev.loops.get("" + w.a);
      if (li == null || li.idx == null) return;
      T c = w.k[0], idx = li.idx;
      boolean at = c.any(x -> x.is("charAt") && Math.abs(T.coef(x.k[1], idx)) == 1 && !T.sub(x.k[1], T.scale(idx, T.coef(x.k[1], idx))).has(idx));
      if (at && !bounds(c, idx)) out[0] = c;
    });
    return out[0];
  }

  /** false only if no value of idx makes the condition false by itself */
  private static boolean bounds(T c, T idx) {
    if (!c.has(idx)) return false;
    if (c.is("and")) return Arrays.stream(c.k).anyMatch(x -> bounds(x, idx));
    if (c.is("or")) return Arrays.stream(c.k).allMatch(x -> bounds(x, idx));
    T x = c.is("gt0") || c.is("eq0") ? c.k[0] : c.is("not") && c.k[0].is("eq0") ? c.k[0].k[0] : null;
    if (x == null) return true;
    if (c.is("eq0")) {
      // a comparison with what stands in the text
      Map<T, T> m = new HashMap<>();
      x.each(y -> {
        if (y.is("charAt")) m.put(y, T.ZERO);
      });
      return m.isEmpty() || T.subst(x, m).has(idx);
    }
    long b = T.coef(x, idx);
    T a = T.sub(x, T.scale(idx, b));
    if (a.has(idx)) return true;
    if (c.is("gt0")) return b < 0;
    return !(b >= 0 && T.range(a)[0] >= 0 || b <= 0 && T.range(a)[1] <= 0);
  }
}
