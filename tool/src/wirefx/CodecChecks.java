package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;

/** Rules over encoders and decoders of the message classes. */
final class CodecChecks {
  final Checks k;
  final Ctx cx;
  final Prog p;
  final Report r;
  final Map<String, List<Layout.Line>> spec;
  final List<Dispatch.Frame> frames;
  final List<Dispatch.Table> tables;
  final Dispatch dp;
  final Layout lay;

  CodecChecks(Checks k, Report r) throws Exception {
    this.k = k;
    this.cx = k.cx;
    this.p = k.p;
    this.r = r;
    Path sp = k.verif.resolve("spec");
    spec = Layout.read(sp.resolve("layout.txt"));
    frames = Dispatch.frames(sp.resolve("frames.txt"));
    tables = Dispatch.tables(sp.resolve("dispatch.txt"));
    dp = new Dispatch(cx);
    lay = new Layout(cx);
  }

  // ------------------------------------------------------------------ scenarios

  /** nested messages that the layout allows to be null are varied too */
  boolean optional(Ctx.Msg m, VarSymbol f) {
    List<Layout.Line> l = spec.get(m.name());
    if (l == null) return false;
    for (Layout.Line x : l) if (x.kind.equals("message?") && x.val.equals(m.prop.get(f))) return true;
    return false;
  }

  List<Scn> scenarios(Ctx.Msg m, boolean nulls) {
    List<Scn> l = new ArrayList<>();
    l.add(cx.base(m));
    List<Ctx.Variation> vs = new ArrayList<>();
    for (Ctx.Variation v : cx.variations(m, nulls)) if (m.kind(v.f) != Ctx.Kind.MSG || optional(m, v.f)) vs.add(v);
    for (Ctx.Variation v : vs) l.add(cx.vary(m, l.get(0), v));
    if (k.thorough)
      for (int i = 0; i < vs.size(); i++)
        for (int j = i + 1; j < vs.size(); j++)
          if (vs.get(i).f != vs.get(j).f) l.add(cx.vary(m, l.get(0), vs.get(i), vs.get(j)));
    return l;
  }

  static boolean in(String x, String... l) {
    for (String s : l) if (s.equals(x)) return true;
    return false;
  }

  /** has every message of the spec a class, and the other way round */
  void present(String rule) {
    if (Ctx.ONLY == null) for (String n : spec.keySet()) if (dp.msg(n) == null) r.bad(rule, n, "spec/layout.txt", "the message class is gone");
  }

  // ------------------------------------------------------------------ C01, C15

  void roundTrip() {
    Rt rt = new Rt(cx);
    for (Ctx.Msg m : cx.messages())
      for (Scn s : scenarios(m, false)) {
        rt.fresh(m, s);
        for (Rt.Run x : rt.explore(m, s, true)) {
          String site = m.name() + " (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided("decode mirrors encode", site, x.pos, x.msg);
          else if (x.status.equals("bad")) r.bad("decode mirrors encode", site, x.pos, x.msg);
          else {
            r.ok("decode mirrors encode", site);
            for (VarSymbol f : m.fields) {
              String d = rt.differs(x, m, f);
              if (d == null) r.ok("field restored", site);
              else if (d.startsWith("?")) r.undecided("field restored", site, p.pos(m.decM), d.substring(1));
              else r.bad("field restored", site, p.pos(m.decM), d);
            }
          }
        }
      }
    r.floor("message classes", cx.messages().size(), 150);
    new Fixed(cx, r).run(true, true);
    dispatchTables(true, false);
  }

  void reuse() {
    Rt rt = new Rt(cx);
    for (Ctx.Msg m : cx.messages())
      for (Scn s : scenarios(m, false)) {
        // what goes wrong in a fresh instance too is not about reuse
        Scn fs = new Scn(s, s.label);
        rt.fresh(m, fs);
        Set<String> freshBad = new HashSet<>();
        for (Rt.Run x : rt.explore(m, fs, true)) if (x.status.equals("bad")) freshBad.add(x.pos + x.msg);
        for (Rt.Run x : rt.explore(m, s, true)) {
          String site = m.name() + " (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided("decode into a used instance", site, x.pos, x.msg);
          else if (x.status.equals("bad")) {
            if (!freshBad.contains(x.pos + x.msg)) r.bad("decode into a used instance", site, x.pos, x.msg);
          } else
            for (VarSymbol f : m.fields) {
              String d = rt.stale(x, m, f);
              if (d != null && d.startsWith("?")) r.undecided("no trace of the earlier contents", site, p.pos(m.decM), d.substring(1));
              else r.check(d == null, "no trace of the earlier contents", site, p.pos(m.decM), d);
            }
        }
      }
    r.floor("message classes", cx.messages().size(), 150);
  }

  // ------------------------------------------------------------------ C02 and its parts

  interface Want {
    /** is a difference at this spec line / item this property's business */
    boolean at(Layout.Line l, Wire.Item i, String what);
  }

  /** what encode writes against the spec */
  void layout(String rule, Want want, boolean nulls) {
    int n = 0;
    for (Ctx.Msg m : cx.messages()) {
      List<Layout.Line> sp = spec.get(m.name());
      if (sp == null) continue;
      n++;
      Rt rt = new Rt(cx);
      for (Scn s : scenarios(m, nulls))
        for (Rt.Run x : rt.explore(m, s, false)) {
          String site = m.name() + " (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided(rule, site, x.pos, x.msg);
          else if (x.status.equals("bad")) {
            if (want.at(null, x.item, "encode")) r.bad(rule, site, x.pos, x.msg);
          } else
            lay.compare(
                x.w,
                m,
                sp,
                x.w.items,
                null,
                p.pos(m.encM),
                new Layout.Sink() {
                  public void bad(String pos, String d, Layout.Line l, Wire.Item i, String what) {
                    if (want.at(l, i, what)) r.bad(rule, site, pos, d);
                  }

                  public void undecided(String pos, String d, Layout.Line l) {
                    if (want.at(l, null, "?")) r.undecided(rule, site, pos, d);
                  }

                  public void ok(Layout.Line l) {
                    if (want.at(l, null, "ok")) r.ok(rule, site);
                  }
                });
        }
    }
    r.floor("messages with a layout", n, 150);
  }

  /** how decode consumes what encode wrote */
  void mirror(String rule, BiPredicate<String, String> topics, boolean encodeSide) {
    Rt rt = new Rt(cx);
    for (Ctx.Msg m : cx.messages())
      for (Scn s : scenarios(m, false))
        for (Rt.Run x : rt.explore(m, s, true)) {
          String site = m.name() + " (" + x.s.label + ")";
          if (x.status.equals("undecided")) r.undecided(rule, site, x.pos, x.msg);
          else if (x.status.equals("bad")) {
            if (x.encodeSide ? encodeSide : topics.test(Wire.topic(x.item), Wire.topic(x.eff))) r.bad(rule, site, x.pos, x.msg);
          } else r.ok(rule, site);
        }
  }

  void wireLayout() {
    present("layout");
    layout("layout", (l, i, w) -> true, true);
    new Fixed(cx, r).run(true, true);
    padNames();
  }

  static boolean textLine(Layout.Line l) {
    return l != null && l.kind.equals("text");
  }

  void textWidth() {
    new Fixed(cx, r).run(true, false);
    layout("declared width", (l, i, w) -> textLine(l) && (i == null || !i.kind.equals("FIX") || in(w, "another width", "?", "ok")) || l == null && i != null && i.kind.equals("FIX") || in(w, "encode") && i != null && i.kind.equals("FIX"), false);
    mirror("text read over its width", (i, e) -> i.equals("text") || e.equals("text"), false);
  }

  void textContent() {
    new Fixed(cx, r).run(true, true);
    layout("declared padding and value", (l, i, w) -> textLine(l) && !w.equals("another width"), false);
    mirror("text trimmed as it was padded", (i, e) -> i.equals("text") || e.equals("text"), false);
    textFields();
    padNames();
  }

  /** text fields come back: the result of the fixed-text read, unchanged, is what the field holds */
  private void textFields() {
    Rt rt = new Rt(cx);
    for (Ctx.Msg m : cx.messages()) {
      Set<String> text = new HashSet<>();
      for (Layout.Line l : spec.getOrDefault(m.name(), List.of())) {
        if (l.kind.equals("text")) text.add(l.val);
        for (Layout.Line b : l.body) if (b.kind.equals("text")) text.add(b.val.replace("[i]", ""));
      }
      if (text.isEmpty()) continue;
      Scn s = cx.base(m);
      rt.fresh(m, s);
      for (Rt.Run x : rt.explore(m, s, true)) {
        if (!x.status.equals("ok")) continue;
        for (VarSymbol f : m.fields) {
          if (!text.contains(m.prop.get(f))) continue;
          String d = rt.differs(x, m, f);
          if (d == null) r.ok("text restored", m.name());
          else if (d.startsWith("?")) r.undecided("text restored", m.name(), p.pos(m.decM), d.substring(1));
          else r.bad("text restored", m.name(), p.pos(m.decM), d);
        }
      }
    }
  }

  /** the shorter overloads pad with spaces on the right and hand their arguments on */
  void padNames() {
    ClassSymbol c = p.cls(Ctx.CODEC);
    if (c == null) return;
    for (Symbol s : c.members().getSymbols()) {
      if (!(s instanceof MethodSymbol) || !p.methods.containsKey(s)) continue;
      MethodSymbol m = (MethodSymbol) s;
      boolean wr = m.name.contentEquals("writeFixedString") && m.params().size() == 3, rd = m.name.contentEquals("readFixedString") && m.params().size() == 2;
      if (!wr && !rd) continue;
      Eval.Summary q = cx.ev.run(c, m);
      List<Eff> io = new ArrayList<>();
      Eff.walk(q.tr, e -> {
        if (Wire.wireEffect(e)) io.add(e);
      });
      String site = "BinaryCodec." + m;
      if (io.size() != 1 || !(io.get(0).is("WFIX") || io.get(0).is("RFIX"))) {
        r.undecided("default padding", site, p.pos(m), "does " + io);
        continue;
      }
      Eff e = io.get(0);
      r.check(e.name.equals("pad:SP right"), "default padding", site, e.pos, "pads with " + e.name + ", expected pad:SP right");
      T len = q.args.get(q.args.size() - 1);
      r.check(e.len == len && e.buf == q.args.get(0), "default padding", site, e.pos, "width " + e.len + ", expected " + len);
      if (wr) r.check(e.val == q.args.get(1), "default padding", site, e.pos, "writes " + e.val);
      else r.check(q.ret == e.res, "default padding", site, e.pos, "returns " + q.ret);
    }
  }

  // ------------------------------------------------------------------ C03

  void byteOrder() {
    Map<String, Boolean> little = new LinkedHashMap<>();
    Map<String, String> decl = Map.of("sse-bin", "BE", "szse-bin", "BE", "risk-bin", "BE", "bjse-bin", "LE", "sample-bin", "LE");
    int n = 0;
    for (Ctx.Msg m : cx.messages()) {
      String want = decl.get(p.module(m.c));
      if (want == null) continue;
      boolean le = want.equals("LE");
      n++;
      for (boolean enc : new boolean[] {true, false}) {
        int[] c = {0};
        Eff.walk(
            enc ? m.enc.tr : m.dec.tr,
            e -> {
              if (!in(e.kind, "W", "SETAT", "RD") || e.width <= 8) return;
              if (e.val != null && Wire.palin(e.val)) return;
              // a value written byte by byte has no order of its own
              String site = m.name() + "." + (enc ? "encode" : "decode");
              r.check(e.little == le, "byte order", site, e.pos, (e.little ? "little" : "big") + "-endian " + e.width + "-bit " + (e.is("RD") ? "read" : "write of " + e.val) + "; " + p.module(m.c) + " is " + (le ? "little" : "big") + "-endian");
              c[0]++;
            });
      }
    }
    r.floor("messages with a byte order", n, 150);
    // text and lists carry their prefixes in that order too: the same rule over what the scenarios write
    layout("byte order of the layout", (l, i, w) -> in(w, "another byte order", "ok") && l != null && l.kind.equals("int"), false);
    mirror("same order both ways", (i, e) -> false, false);
  }

  // ------------------------------------------------------------------ C06

  static boolean countLine(Layout.Line l) {
    return l != null && (in(l.kind, "repeat", "utf8") || l.kind.equals("int") && (l.val.startsWith("count(") || l.val.startsWith("bytes(")));
  }

  void prefixes() {
    layout("prefix and contents", (l, i, w) -> countLine(l) || l == null && i != null && in(Wire.topic(i), "count") || l == null && w.equals("encode"), false);
    mirror("decode reads what the prefix says", (i, e) -> i.equals("count") || e.equals("count"), true);
    // the number that governs a decoding loop or a byte run is the prefix just read
    Rt rt = new Rt(cx);
    for (Ctx.Msg m : cx.messages()) {
      counted(m);
      if (m.dec != null)
        Eff.walk(m.decTr, e -> {
          if (e.is("REP") && e.trip != null && e.trip.is("wtrip") && e.trip.k.length > 0 && e.trip.k[0].any(t -> t.is("avail") || t.is("bufprop")) && Eff.anyOf(e.a, x -> in(x.kind, "RD", "RB", "RFIX", "DEC", "SKIP")))
            r.bad("governed by the prefix", m.name() + ".decode", e.pos, "elements are read while bytes are left, not as many as the prefix says: " + e.trip.k[0]);
        });
    }
    for (Ctx.Msg m : cx.messages())
      for (Scn s : scenarios(m, false))
        for (Rt.Run x : rt.explore(m, s, true)) {
          if (!x.status.equals("ok")) continue;
          for (Object[] c : x.w.counts) {
            Eff e = (Eff) c[0];
            T raw = (T) c[1];
            Eff last = (Eff) c[3];
            String site = m.name() + " (" + x.s.label + ")";
            if (last == null) continue;
            T low = raw;
            while (low.is("ext") || low.is("trip")) low = low.k[0];
            if (low == last.res || raw.any(t -> t == last.res)) {
              r.ok("governed by the prefix", site);
              String off = null;
              List<T> guards = new ArrayList<>();
              Eff.walkC(m.decTr, List.of(), (y, pc) -> {
                if (y == e && guards.isEmpty()) guards.addAll(pc);
              });
              for (long v : new long[] {0, 1, 2, 100, 127, 128, 200, 255, 256, 257, 1000, 32767, 32768, 40000, 65535, 65536, 65537, 100000, 1 << 24}) {
                if (last.width < 64 && v >= 1L << last.width) continue;
                if (guards.stream().anyMatch(q -> T.subst(q, Map.of(last.res, T.num(v))) == T.FALSE)) continue;
                T g = T.subst(raw, Map.of(last.res, T.num(v)));
                while (g.is("trip") || g.is("xtrip")) g = g.k[0];
                if (g.isNum() && g.n() != v && off == null) off = "a prefix of " + v + " is taken as " + g.n();
              }
              if (off != null) r.bad("governed by the prefix", site, e.pos, off);
            }
            else if (Wire.opaque(raw)) r.undecided("governed by the prefix", site, e.pos, "count " + raw);
            else r.bad("governed by the prefix", site, e.pos, "reads " + raw + ", not the prefix read at " + last.pos);
          }
        }
  }

  /** an element that is counted is written: encode does not pass over one that is null */
  private void counted(Ctx.Msg m) {
    if (m.enc == null) return;
    List<T> counts = new ArrayList<>();
    Eff.walk(m.enc.tr, e -> {
      if (!e.is("W") || e.val == null) return;
      T v = e.val;
      while (v.is("ext")) v = v.k[0];
      counts.add(v);
    });
    Eff.walk(m.enc.tr, e -> {
      if (!e.is("REP") || e.trip == null || !counts.contains(e.trip)) return;
      Set<T> tested = new LinkedHashSet<>();
      for (Eff x : e.a) if (x.is("CHO")) x.cond.any(t -> t.is("isnull") && t.k[0].is("get") && tested.add(t) && false);
      for (T t : tested) {
        boolean nil = puts(e.a, t, T.TRUE), some = puts(e.a, t, T.FALSE);
        if (some && !nil) r.bad("every counted element is written", m.name() + ".encode", e.pos, "counts " + e.trip + " elements and passes over those with " + t);
        else r.ok("every counted element is written", m.name() + ".encode");
      }
    });
  }

  /** whether something is written, or the loop left by an exception, under the condition */
  private boolean puts(List<Eff> l, T cond, T v) {
    for (Eff e : l) {
      if (in(e.kind, "W", "WB", "WFIX", "ENC", "THROW", "UNK", "OBJCALL")) return true;
      if (e.is("DEREF") && cond.k[0] == e.obj && v == T.TRUE) return true;
      if (e.is("CHO")) {
        T c = T.subst(e.cond, Map.of(cond, v));
        if (c != T.FALSE && puts(e.a, cond, v) || c != T.TRUE && puts(e.b, cond, v)) return true;
      } else if (puts(e.a, cond, v) || puts(e.b, cond, v)) return true;
    }
    return false;
  }

  // ------------------------------------------------------------------ C07, C08

  void frameLength() {
    int n = 0;
    for (Dispatch.Frame f : frames) {
      Ctx.Msg m = dp.msg(f.msg);
      if (f.length == null) continue;
      if (m == null || dp.field(m, f.length) == null || dp.field(m, f.body) == null) {
        r.broken.add("frame " + f.msg + " or its fields not found");
        continue;
      }
      n++;
      T body = m.fld(dp.field(m, f.body), m.self);
      Rt rt = new Rt(cx);
      for (Scn s : scenarios(m, true))
        for (Rt.Run x : rt.explore(m, s, false)) {
          String site = m.name() + " (" + x.s.label + ")";
          if (bail("frame length", site, x)) continue;
          x.s.enter();
          // the length stands right before the body
          int b = -1, li = -1;
          boolean isNull = x.s.spec(body).is("null");
          List<Layout.Line> sp = spec.get(f.msg);
          int at = 0;
          for (Layout.Line l : sp) {
            if (l.kind.equals("message?") || l.kind.equals("message")) break;
            at++;
          }
          li = at - 1;
          if (li >= x.w.items.size()) {
            r.bad("frame length", site, p.pos(m.encM), "no length is written");
            continue;
          }
          Wire.Item len = x.w.items.get(li);
          T want = T.ZERO;
          if (!isNull) {
            b = li + 1;
            if (b >= x.w.items.size() || !x.w.items.get(b).kind.equals("MSG")) {
              r.bad("frame length", site, p.pos(m.encM), "the body does not follow the length");
              continue;
            }
            want = x.w.items.get(b).size;
            r.check(x.w.items.get(b).obj == x.s.spec(body), "frame body", site, x.w.items.get(b).pos(), "writes " + x.w.items.get(b).obj + " as the body");
          }
          if (!len.kind.equals("INT")) {
            r.bad("frame length", site, len.pos(), "writes " + len + " where the length belongs");
            continue;
          }
          Layout.Line ll = sp.get(li);
          r.check(len.width == ll.width && (len.little == ll.order.equals("LE") || Wire.palin(len.val)), "frame length", site, len.pos(), "the length is written as " + len);
          value("frame length", site, len.pos(), Layout.low(len.val, len.width), want, "length on the wire");
          value("frame length kept", site, p.pos(m.encM), Layout.low(x.w.encFinal(cx, dp.field(m, f.length)), len.width), want, "length in the message");
          r.sample(site + ": length " + len.val + " at " + len.pos0 + ", body " + want + " bytes");
          // nothing but the trailer after the body
          int extra = x.w.items.size() - (li + 1 + (isNull ? 0 : 1));
          int trail = sp.size() - at - 1;
          r.check(extra == trail, "frame length", site, p.pos(m.encM), extra + " fields after the body, " + trail + " expected");
        }
      // decode reports the length read
      decodeField(m, f.length, "length read back");
    }
    r.floor("frames with a length", n, 4);
  }

  private void decodeField(Ctx.Msg m, String prop, String rule) {
    Rt rt = new Rt(cx);
    VarSymbol v = dp.field(m, prop);
    for (Scn s : scenarios(m, false)) {
      rt.fresh(m, s);
      for (Rt.Run x : rt.explore(m, s, true)) {
        if (!x.status.equals("ok")) continue;
        String d = rt.differs(x, m, v);
        if (d == null) r.ok(rule, m.name());
        else if (d.startsWith("?")) r.undecided(rule, m.name(), p.pos(m.decM), d.substring(1));
        else r.bad(rule, m.name(), p.pos(m.decM), d);
      }
    }
  }

  private boolean bail(String rule, String site, Rt.Run x) {
    if (x.status.equals("undecided")) r.undecided(rule, site, x.pos, x.msg);
    else if (x.status.equals("bad")) r.bad(rule, site, x.pos, x.msg);
    return !x.status.equals("ok");
  }

  private void value(String rule, String site, String pos, T got, T want, String what) {
    if (got == want) r.ok(rule, site);
    else if (Wire.opaque(got)) r.undecided(rule, site, pos, what + " is " + got);
    else r.bad(rule, site, pos, what + " is " + got + ", expected " + want);
  }

  void frameChecksum() {
    int n = 0;
    for (Dispatch.Frame f : frames) {
      if (f.algorithm == null) continue;
      Ctx.Msg m = dp.msg(f.msg);
      if (m == null || dp.field(m, f.checksum) == null) {
        r.broken.add("frame " + f.msg + " or its fields not found");
        continue;
      }
      n++;
      Rt rt = new Rt(cx);
      for (Scn s : scenarios(m, true))
        for (Rt.Run x : rt.explore(m, s, false)) {
          String site = m.name() + " (" + x.s.label + ")";
          if (bail("frame checksum", site, x)) continue;
          x.s.enter();
          Wire w = x.w;
          if (w.calcs.size() != 1) {
            if (w.calcs.isEmpty()) {
              Wire.Item last = w.items.isEmpty() ? null : w.items.get(w.items.size() - 1);
              if (last != null && Wire.opaque(last.val)) r.undecided("frame checksum", site, p.pos(m.encM), "checksum " + last.val);
              else r.bad("frame checksum", site, p.pos(m.encM), "no checksum is computed");
            } else r.bad("frame checksum", site, w.calcs.get(1).pos, w.calcs.size() + " checksums are computed");
            continue;
          }
          Eff e = w.calcs.get(0);
          if (w.items.isEmpty()) continue;
          Wire.Item last = w.items.get(w.items.size() - 1);
          T o = x.s.spec(e.obj);
          boolean known = o.is("mget") && o.k[1].is("str");
          if (!known && o.is("new")) known = true;
          if (!known && Wire.opaque(o)) r.undecided("algorithm", site, e.pos, "algorithm " + o);
          else r.check(algorithm(o, f.algorithm), "algorithm", site, e.pos, "the checksum is computed by " + o + ", expected " + f.algorithm);
          T buf = x.s.spec(cx.ev.lib.root(e.buf));
          r.check(buf == m.encBuf(), "checksum of the frame", site, e.pos, "the checksum is taken of another buffer: " + e.buf);
          T from = T.sub(x.s.spec(e.pos0), w.base);
          value("checksum starts at the frame", site, e.pos, from, T.ZERO, "first byte covered, relative to the frame,");
          T before = T.ZERO;
          for (Wire.Item i : w.items) if (i != last) before = T.add(before, i.size);
          value("checksum covers header and body", site, e.pos, x.s.spec(e.len), before, "number of bytes covered");
          // every byte it covers is final when it is computed
          int writes = w.calcAt.get(0);
          for (Map.Entry<Eff, Integer> q : w.orderOf.entrySet())
            if (q.getKey() != last.e)
              r.check(q.getValue() < writes, "computed after the frame is complete", site, e.pos, "the bytes written at " + q.getKey().pos + " are not covered in their final form");
          if (!last.kind.equals("INT") || last.width != 32) r.bad("checksum is the trailer", site, last.pos(), "the frame ends with " + last);
          else {
            value("checksum is the trailer", site, last.pos(), Layout.low(last.val, 32), Layout.low(x.s.spec(e.res), 32), "the trailer");
            value("checksum kept", site, p.pos(m.encM), Layout.low(w.encFinal(cx, dp.field(m, f.checksum)), 32), Layout.low(x.s.spec(e.res), 32), "the message's checksum");
            boolean le = spec.get(f.msg).get(spec.get(f.msg).size() - 1).order.equals("LE");
            r.check(last.little == le, "checksum is the trailer", site, last.pos(), "the checksum is written " + (last.little ? "little" : "big") + "-endian");
          }
          r.sample(site + ": " + o + " over " + x.s.spec(e.len) + " bytes");
        }
      decodeField(m, f.checksum, "checksum read back");
      // and the algorithm is there by default
      T dflt = null;
      Eff[] c = {null};
      Eff.walk(m.enc.tr, e -> {
        if (e.is("CALC")) c[0] = e;
      });
      if (c[0] != null) {
        T o = dp.initial(c[0].obj);
        if (o.is("null")) r.bad("algorithm available", f.msg, c[0].pos, f.algorithm + " is not registered by default, so no checksum is computed");
        else if (o.is("new")) r.ok("algorithm available", f.msg);
        else r.undecided("algorithm available", f.msg, c[0].pos, "default registration " + o);
      }
    }
    r.floor("frames with a checksum", n, 3);
  }

  /** is a service object the one for an algorithm */
  private boolean algorithm(T o, String alg) {
    if (o.is("mget") && o.k[1].is("str")) return o.k[1].a.equals(alg);
    if (o.is("new")) {
      ClassSymbol c = p.cls(Wire.cls(o, null));
      MethodSymbol a = c == null ? null : p.method(c, "algorithm");
      return a != null && cx.ev.run(c, a).ret == T.str(alg);
    }
    return false;
  }

  // ------------------------------------------------------------------ C12, C13

  void dispatchTables(boolean classes, boolean unknown) {
    int n = 0;
    for (Dispatch.Table t : tables) {
      Ctx.Msg m = dp.msg(t.msg);
      VarSymbol f = m == null ? null : dp.field(m, t.field), by = m == null ? null : dp.field(m, t.by);
      if (f == null || by == null) {
        r.broken.add("dispatching message " + t.msg + " or its fields not found");
        continue;
      }
      n++;
      T o = dp.nested(m, f), code = cx.ev.readHeap(m.decSt, by, m.that);
      if (classes) {
        for (Map.Entry<T, String> e : t.classes.entrySet()) {
          String site = t.msg + " " + t.by + "=" + e.getKey();
          boolean[] fresh = new boolean[1];
          T x = dp.with(o, code, e.getKey());
          String c = dp.made(x, fresh);
          String w = c == null ? elsewhere(m, x, code, e.getValue()) : null;
          if (w == null && c == null) {
            // with an object of that class there already
            T y = new T.Rebuild(q -> q.is("isnull") && before(q.k[0], m) ? T.FALSE : q.is("same") && (classOf(q.k[0], m) || classOf(q.k[1], m)) || q.is("instanceof") && before(q.k[0], m) ? T.TRUE : null).go(x);
            if (before(y, m)) {
              r.bad("fresh instance", site, p.pos(m.decM), "reads into the object that was there before, where it has the class: " + x);
              continue;
            }
          }
          if (w != null) r.bad("class of a code", site, p.pos(m.decM), w);
          else if (c == null) r.undecided("class of a code", site, p.pos(m.decM), "builds " + x);
          else if (c.isEmpty()) r.bad("class of a code", site, p.pos(m.decM), "no class is registered for " + e.getKey() + ", expected " + e.getValue());
          else {
            r.check(c.equals(e.getValue()), "class of a code", site, p.pos(m.decM), "builds a " + c + ", expected " + e.getValue());
            r.check(fresh[0], "fresh instance", site, p.pos(m.decM), "hands out a shared instance");
          }
        }
        // codes the table does not have
        T g = get(o);
        if (g != null) {
          Set<T> ks = new LinkedHashSet<>();
          Dispatch.keys(dp.initial(g.k[0]), ks);
          for (T x : ks) {
            if (t.classes.containsKey(x)) continue;
            String c = dp.made(dp.with(o, code, x), new boolean[1]);
            r.check("".equals(c), "class of a code", t.msg, p.pos(m.decM), "builds a " + c + " for " + x + ", which is no code of the protocol");
          }
        }
        // the decoder hands the rest of the input to that instance
        boolean ok = Eff.anyOf(m.decTr, e -> e.is("DEC") && e.obj == o);
        r.check(ok || Wire.opaque(o), "decodes with that instance", t.msg, p.pos(m.decM), "the instance built for the code does not read the body");
      }
      if (unknown) unknown(t, m, f, o, code);
    }
    r.floor("dispatching decoders", n, 19);
  }

  /** what a field of the message held before it was read */
  private static boolean before(T x, Ctx.Msg m) {
    return x.is("fld") && x.k[0] == m.that;
  }

  private static boolean classOf(T x, Ctx.Msg m) {
    return x.is("getclass") && before(x.k[0], m);
  }

  /** constant propagation: other fields read before the body, by sample values, decide on its class */
  private String elsewhere(Ctx.Msg m, T x, T code, String want) {
    Map<T, VarSymbol> rd = new LinkedHashMap<>();
    for (VarSymbol f : m.fields) {
      T v = cx.ev.readHeap(m.decSt, f, m.that);
      while (v.is("ext")) v = v.k[0];
      if (v.is("rd")) rd.putIfAbsent(v, f);
    }
    T key = code;
    while (key.is("ext")) key = key.k[0];
    rd.remove(key);
    rd.keySet().removeIf(v -> !x.any(y -> y == v));
    if (rd.isEmpty() || rd.size() > 3) return null;
    for (long n : new long[] {100, 60, 0, 1, 7}) {
      T o = x;
      StringBuilder b = new StringBuilder();
      for (Map.Entry<T, VarSymbol> e : rd.entrySet()) {
        o = dp.with(o, e.getKey(), T.num(n));
        b.append(b.length() == 0 ? "" : ", ").append(e.getValue().name);
      }
      String c = dp.made(o, new boolean[1]);
      if (c != null && !c.equals(want)) return "builds " + (c.isEmpty() ? "nothing" : "a " + c) + " where " + b + " is " + n + ", expected " + want;
    }
    return null;
  }

  static T get(T o) {
    T[] g = {null};
    o.each(x -> {
      if (x.is("mget") && g[0] == null) g[0] = x;
    });
    return g[0];
  }

  /** a code outside the table: IllegalArgumentException before anything of the body is read */
  private void unknown(Dispatch.Table t, Ctx.Msg m, VarSymbol f, T o, T code) {
    T c = by(code).is("String") ? T.str("\u0000none") : T.num(-77777);
    // a code that no table has: the map has no entry for it
    T g = get(o);
    String site = t.msg + " with an unknown " + t.by;
    if (g == null && !o.is("gamma")) {
      r.undecided("unknown code", site, p.pos(m.decM), "dispatch through " + o);
      return;
    }
    Scn s = new Scn(null, "");
    s.nonnull.add(m.decBuf());
    T key = code;
    while (key.is("ext")) key = key.k[0];
    T keyT = key;
    Set<T> read = new HashSet<>();
    for (VarSymbol q : m.fields)
      cx.ev.readHeap(m.decSt, q, m.that).each(x -> {
        if (x.is("rd")) read.add(x);
      });
    if (g != null && !g.k[1].any(x -> x == keyT || !read.contains(x) && !x.is("ext") && !x.is("num") && !x.is("str")) && g.k[1].any(read::contains)) {
      r.bad("unknown code", site, p.pos(m.decM), "what is looked up is " + g.k[1] + ", not the code");
      return;
    }
    s.rules.add(x -> x.is("mget") ? T.NULL : null);
    T uc = t.classes.keySet().iterator().next().is("str") ? T.str("\u0000none") : T.num(-77777);
    if (g == null) s.map.put(keyT, uc);
    s.enter();
    try {
      List<String> thrown = new ArrayList<>(), reads = new ArrayList<>();
      boolean[] und = {false};
      walkUnknown(m.decTr, s, m, thrown, reads, und, key, new boolean[] {false});
      if (und[0] && odd(t, m, o, code, keyT, site)) return;
      if (und[0]) r.undecided("unknown code", site, p.pos(m.decM), "dispatch not followed");
      else if (thrown.isEmpty()) r.bad("unknown code", site, p.pos(m.decM), "no exception: decode goes on" + (reads.isEmpty() ? "" : " at " + reads.get(0)));
      else {
        r.check(isIae(p, thrown.get(0)), "unknown code", site, p.pos(m.decM), "throws " + thrown.get(0) + ", expected IllegalArgumentException");
        r.check(reads.isEmpty(), "unknown code", site, reads.isEmpty() ? "" : reads.get(0), "the body is read before the code is rejected");
        if (!und[0] && g != null && g.k[1] != code && g.k[1] != keyT) odd(t, m, o, code, keyT, site);
      }
    } finally {
      Scn.leave();
    }
  }

  /** constant propagation from codes no table has, where the code is not looked up as it is */
  private boolean odd(Dispatch.Table t, Ctx.Msg m, T o, T code, T key, String site) {
    Set<T> ws = new LinkedHashSet<>();
    long[] rg = T.range(code);
    for (T c : t.classes.keySet())
      if (c.isNum()) {
        long n = c.n();
        for (long w : new long[] {n + 256, n + 65536, -n, n - 256, n + 128, n + (1L << 24), n - (1L << 31), ~n, n << 8, n + 1, n - 1, n + 1000000, n + 100000, n + 10000, n * 10, n / 10}) {
          w = rg[0] < 0 ? (int) w : w & 0xffffffffL;
          if (w >= rg[0] && w <= rg[1]) ws.add(T.num(w));
        }
      } else if (c.is("str")) {
        String v = (String) c.a;
        for (String w : new String[] {v + "0", v + " ", " " + v, "0" + v, v + v, v.toLowerCase(), v.toUpperCase(), v.isEmpty() ? "" : v.substring(1), v.isEmpty() ? "" : v.substring(0, v.length() - 1), v.replaceFirst("^0+", ""), "", v.replaceFirst(".$", "9"), v.replaceFirst(".$", "X"), v.replaceFirst("^.", "9"), v.replaceFirst("^.", "X"), v.replaceFirst("^(.)(.)", "$2$1")}) ws.add(T.str(w));
      }
    // and the values decode itself compares the code with
    boolean num = t.classes.keySet().iterator().next().isNum();
    Set<T> own = new LinkedHashSet<>();
    Eff.walk(m.decTr, e -> {
      if (e.cond == null || !e.cond.any(x -> x == key)) return;
      e.cond.each(x -> {
        if (num && x.isNum()) {
          own.add(x);
          own.add(T.num(-x.n()));
        } else if (!num && x.is("str")) own.add(x);
        else if (num && x.is("lin"))
          for (long n : new long[] {-1, 1}) own.add(T.num(n * T.konst(x)));
      });
      for (long n : new long[] {0, 1, -1, rg[0], rg[1]})
        if (num) own.add(T.num(n));
      if (!num) own.add(T.str(""));
    });
    own.removeIf(w -> w.isNum() && (w.n() < rg[0] || w.n() > rg[1]));
    ws.addAll(own);
    ws.removeAll(t.classes.keySet());
    // only what the field can hold, as its reader gives it
    Eff.walk(m.decTr, e -> {
      if (e.res == key && e.is("RFIX") && e.len.isNum())
        ws.removeIf(w -> w.is("str") && (((String) w.a).length() > e.len.n() || ((String) w.a).endsWith(" ") || ((String) w.a).endsWith("0") && e.name.contains("'0'") || ((String) w.a).startsWith(" ")));
    });
    // another field of the frame that holds a code the table has
    Map<T, VarSymbol> others = new LinkedHashMap<>();
    for (VarSymbol q : m.fields) {
      T v = cx.ev.readHeap(m.decSt, q, m.that);
      while (v.is("ext")) v = v.k[0];
      T z = v;
      if (v != key && (v.is("rd") || v.is("rfix")) && o.any(x -> x == z)) others.putIfAbsent(v, q);
    }
    if (!others.isEmpty() && others.size() < 4) {
      int most = 0;
      for (T w : ws) {
        if (++most > 4) break;
        for (T v : others.keySet())
          for (T k : t.classes.keySet()) {
            String c = dp.made(dp.with(dp.with(o, code, w), v, k), new boolean[1]);
            if (c == null || c.isEmpty()) continue;
            r.bad("unknown code", site, p.pos(m.decM), "code " + w + " is no code of the protocol, and a " + c + " is built for it where " + others.get(v).name + " is " + k);
            return true;
          }
      }
    }
    for (T w : ws) {
      String c = dp.made(dp.with(o, code, w), new boolean[1]);
      if (c != null && !c.isEmpty()) {
        r.bad("unknown code", site, p.pos(m.decM), "code " + w + " is no code of the protocol, and a " + c + " is built for it");
        return true;
      }
      Scn s = new Scn(null, "");
      s.nonnull.add(m.decBuf());
      s.rules.add(x -> x.is("mget") && !t.classes.containsKey(x.k[1]) ? T.NULL : null);
      s.map.put(key, w);
      s.enter();
      try {
        List<String> thrown = new ArrayList<>(), reads = new ArrayList<>();
        boolean[] und = {false};
        walkUnknown(m.decTr, s, m, thrown, reads, und, key, new boolean[] {false});
        if (!und[0] && thrown.isEmpty()) {
          r.bad("unknown code", site, p.pos(m.decM), "no exception for code " + w + ", which is no code of the protocol");
          return true;
        }
        if (!und[0] && !isIae(p, thrown.get(0))) {
          r.bad("unknown code", site, p.pos(m.decM), "code " + w + " throws " + thrown.get(0) + ", expected IllegalArgumentException");
          return true;
        }
      } finally {
        Scn.leave();
      }
    }
    return false;
  }

  /** an IllegalArgumentException, or a kind of it */
  static boolean isIae(Prog p, String n) {
    String iae = "java.lang.IllegalArgumentException";
    if (n.equals(iae)) return true;
    ClassSymbol c = p.cls(n);
    if (c != null) return p.isSubSafe(c, iae);
    try {
      return n.startsWith("java.") && IllegalArgumentException.class.isAssignableFrom(Class.forName(n, false, null));
    } catch (ClassNotFoundException e) {
      return false;
    }
  }

  private static T by(T t) {
    return t;
  }

  /** follows decode with every lookup failing, up to the throw */
  private boolean walkUnknown(List<Eff> l, Scn s, Ctx.Msg m, List<String> thrown, List<String> reads, boolean[] und, T key, boolean[] seen) {
    for (Eff e : l) {
      switch (e.kind) {
        case "CHO":
          {
            T c = s.spec(e.cond);
            if (c == T.TRUE) {
              if (walkUnknown(e.a, s, m, thrown, reads, und, key, seen)) return true;
            } else if (c == T.FALSE) {
              if (walkUnknown(e.b, s, m, thrown, reads, und, key, seen)) return true;
            } else {
              // not about the code; both ways have to reach the throw later on
              boolean a = Eff.anyOf(e.a, x -> x.is("THROW")), b = Eff.anyOf(e.b, x -> x.is("THROW"));
              if (c.any(x -> x == key) && (a || b)) und[0] = true;
            }
            break;
          }
        case "THROW":
          thrown.add(e.name);
          return true;
        case "TRY":
          {
            boolean t = walkUnknown(e.a, s, m, thrown, reads, und, key, seen);
            if (t) {
              String n = thrown.get(thrown.size() - 1);
              for (Eff.Handler h : e.handlers)
                if (h.types.stream().anyMatch(x -> catches(x, n))) {
                  thrown.remove(thrown.size() - 1);
                  if (walkUnknown(h.body, s, m, thrown, reads, und, key, seen)) return true;
                  t = false;
                  break;
                }
              if (t) return true;
            }
            break;
          }
        case "RD":
        case "RB":
        case "RFIX":
          if (e.res == key || e.res != null && e.res.any(x -> x == key)) seen[0] = true;
          break;
        case "DEC":
          {
            T o = s.spec(e.obj);
            if (o.is("created") || o.is("null") || o.any(x -> x.is("mget"))) {
              if (thrown.isEmpty() && o.is("null")) {
                thrown.add("java.lang.NullPointerException");
                return true;
              }
              reads.add(e.pos);
            }
            break;
          }
        case "DEREF":
          if (s.spec(e.obj).is("null")) {
            thrown.add("java.lang.NullPointerException");
            return true;
          }
          break;
        case "UNK":
          und[0] = true;
          break;
        default:
          break;
      }
    }
    return false;
  }

  static boolean catches(String caught, String thrown) {
    return caught.equals(thrown) || in(caught, "java.lang.Throwable", "java.lang.Exception", "java.lang.RuntimeException");
  }
}
