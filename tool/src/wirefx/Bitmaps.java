package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.util.*;

/**
 * Bitmaps, bit by bit: every bit of a bitmap's fields is an unknown of its own, and an operation at one
 * position is the map it makes of those unknowns. Nothing is enumerated but the positions.
 */
final class Bitmaps {
  final Ctx cx;
  final Eval ev;
  final Prog p;
  final Report r;
  final Bools bs = new Bools();

  Bitmaps(Ctx cx, Report r) {
    this.cx = cx;
    this.ev = cx.ev;
    this.p = cx.p;
    this.r = r;
  }

  final class Kind {
    ClassSymbol c;
    String name;
    T self;
    int count;
    List<VarSymbol> fields = new ArrayList<>();
    List<Integer> width = new ArrayList<>(), from = new ArrayList<>();
    int bits;
    Map<T, Bools.Fn[]> vars = new LinkedHashMap<>();
    Bools.Fn[] get; // what get answers at each position
  }

  static final int STATE = 160; // bits of state a bitmap may have

  static final Map<String, Integer> COUNTS = Map.of("ByteBitMap", 8, "ShortBitMap", 16, "IntBitMap", 32, "LongBitMap", 64);

  private Eval.Summary call(Kind k, String m, List<T> args, St st) {
    MethodSymbol q = p.method(k.c, m, args.size() == 0 ? new String[0] : new String[] {"*"});
    if (q == null) throw new Sums.Out("no method " + m);
    St s = st == null ? new St() : st;
    s.tr = new ArrayList<>();
    s.ret = T.FALSE;
    s.retv = null;
    Eval.Summary x = ev.run(k.c, q, args, s);
    Eff.walk(x.tr, e -> {
      if (e.is("UNK") || e.is("OBJCALL") || e.is("REP") || e.is("SWRITE")) throw new Sums.Out(e.kind + " " + e.name + " at " + e.pos);
    });
    return x;
  }

  private String pos(Kind k, String m) {
    MethodSymbol q = p.method(k.c, m, m.equals("bitCount") ? new String[0] : new String[] {"*"});
    return q == null ? p.pos(k.c) : p.pos(q);
  }

  private List<Kind> kinds() {
    List<Kind> l = new ArrayList<>();
    for (ClassSymbol c : p.implementers("com.finproto.bitmap.BitMap")) {
      if ((c.flags() & Flags.ABSTRACT) != 0) continue;
      Kind k = new Kind();
      k.c = c;
      k.name = c.name.toString();
      l.add(k);
    }
    return l;
  }

  /** gives each bit of the bitmap an unknown, and finds what get looks at */
  private void open(Kind k) {
    Eval.Summary n = call(k, "bitCount", List.of(), null);
    if (!n.ret.isNum()) throw new Sums.Out("bitCount is " + n.ret);
    k.count = (int) n.ret.n();
    k.self = n.self;
    for (ClassSymbol c = k.c; c != null && p.classes.containsKey(c); c = (ClassSymbol) p.types.supertype(c.type).tsym)
      for (Symbol s : c.members().getSymbols())
        if (s instanceof VarSymbol && !s.isStatic()) k.fields.add((VarSymbol) s);
    Collections.reverse(k.fields);
    for (VarSymbol f : k.fields) {
      int w;
      switch (f.type.getTag()) {
        case BOOLEAN:
          w = 1;
          break;
        case BYTE:
          w = 8;
          break;
        case SHORT:
          w = 16;
          break;
        case INT:
          w = 32;
          break;
        case LONG:
          w = 64;
          break;
        default:
          throw new Sums.Out("field " + f.name + " of type " + f.type);
      }
      if (k.bits + w > STATE) throw new Sums.Out("more than " + STATE + " bits of state");
      k.from.add(k.bits);
      k.width.add(w);
      Bools.Fn[] b = new Bools.Fn[64];
      for (int i = 0; i < 64; i++) b[i] = bs.var(k.bits + Math.min(i, w - 1));
      k.vars.put(ev.readHeap(new St(), f, k.self), b);
      k.bits += w;
    }
    k.get = gets(k, k.vars);
  }

  private Bools.Fn[] gets(Kind k, Map<T, Bools.Fn[]> vars) {
    Bools.Fn[] g = new Bools.Fn[k.count];
    Bools.Val m = bs.new Val(ev, vars);
    for (int q = 0; q < k.count; q++) {
      Eval.Summary s = call(k, "get", List.of(T.num(q)), null);
      for (Eff e : s.tr)
        if (e.is("THROW")) throw new Sums.Out("get(" + q + ") throws " + e.name, true);
      g[q] = m.cond(s.ret);
    }
    return g;
  }

  /** the field values of a state, as bits over the unknowns */
  private Map<T, Bools.Fn[]> after(Kind k, St st, Map<T, Bools.Fn[]> vars) {
    Map<T, Bools.Fn[]> out = new LinkedHashMap<>();
    Bools.Val m = bs.new Val(ev, vars);
    for (int i = 0; i < k.fields.size(); i++) {
      T v = ev.readHeap(st, k.fields.get(i), k.self);
      Bools.Fn[] b = k.fields.get(i).type.hasTag(TypeTag.BOOLEAN) ? m.of(v) : bs.cut(m.of(v), k.width.get(i), true);
      out.put(ev.readHeap(new St(), k.fields.get(i), k.self), b);
    }
    return out;
  }

  private String show(Kind k, Bools.Fn b) {
    if (bs.konst(b)) return b == bs.I ? "present" : "absent";
    for (int q = 0; q < k.count; q++) {
      if (b == k.get[q]) return "" + q;
      if (b == bs.not(k.get[q])) return "not " + q;
    }
    for (int i = 0; i < STATE; i++) if (b == bs.var(STATE + i)) return "before";
    return "mixed";
  }

  interface Part {
    void run();
  }

  private void part(String rule, Kind k, String at, Part q) {
    try {
      q.run();
    } catch (Sums.Out o) {
      if (o.wrong) r.bad(rule, k.name, at, o.getMessage());
      else r.undecided(rule, k.name, at, o.getMessage());
    }
  }

  void positions() {
    List<Kind> ks = kinds();
    r.floor("bitmap classes", ks.size(), 4);
    for (Kind k : ks) {
      if (shared(k)) continue;
      part(
          "positions",
          k,
          p.pos(k.c),
          () -> {
            open(k);
            Integer want = COUNTS.get(k.name);
            if (want != null) r.check(k.count == want, "number of positions", k.name, pos(k, "bitCount"), "bitCount is " + k.count + ", expected " + want);
            // positions do not share a bit, and each one looks at something
            for (int q = 0; q < k.count; q++) {
              if (bs.konst(k.get[q])) r.bad("a position of its own", k.name, pos(k, "get"), "get(" + q + ") is always " + (k.get[q] == bs.I));
              else {
                int same = -1;
                for (int o = 0; o < q; o++) if (k.get[o] == k.get[q] || k.get[o] == bs.not(k.get[q])) same = o;
                r.check(same < 0, "a position of its own", k.name, pos(k, "get"), "get(" + q + ") looks at the bit of position " + same);
              }
            }
            r.sample(k.name + ": " + k.count + " positions over " + k.bits + " bits of state; each position is a state bit of its own");
          });
      if (k.get == null || k.get.length != k.count || k.count > 0 && k.get[k.count - 1] == null) continue;
      for (boolean set : new boolean[] {true, false}) {
        String mn = set ? "set" : "clear";
        String rule = set ? "setting makes present, that position only" : "clearing makes absent, that position only";
        for (int i = 0; i < k.count; i++) {
          int at = i;
          part(
              rule,
              k,
              pos(k, mn),
              () -> {
                Eval.Summary s = call(k, mn, List.of(T.num(at)), null);
                Bools.Fn[] g = gets(k, after(k, s.st, k.vars));
                String bad = null;
                for (int q = 0; q < k.count && bad == null; q++) {
                  Bools.Fn want = q == at ? set ? bs.I : bs.O : k.get[q];
                  if (g[q] != want) bad = "after " + mn + "(" + at + ") position " + q + " is " + show(k, g[q]) + (q == at ? "" : " instead of what it was");
                }
                if (bad == null) r.ok(rule, k.name);
                else if (k.fields.size() > 1 && !reached(k, mn, at)) r.undecided(rule, k.name, pos(k, mn), bad + " (in a state no two calls reach)");
                else r.bad(rule, k.name, pos(k, mn), bad);
              });
        }
      }
      part(
          "a new bitmap is empty",
          k,
          p.pos(k.c),
          () -> {
            Bools.Fn[] g = gets(k, fresh(k));
            for (int q = 0; q < k.count; q++)
              r.check(g[q] == bs.O, "a new bitmap is empty", k.name, p.pos(k.c), "position " + q + " of a new bitmap is " + show(k, g[q]));
          });
      part(
          "asking changes nothing",
          k,
          pos(k, "get"),
          () -> {
            for (int q = 0; q <= k.count; q++) {
              Eval.Summary s = q < k.count ? call(k, "get", List.of(T.num(q)), null) : call(k, "bitCount", List.of(), null);
              Map<T, Bools.Fn[]> a = after(k, s.st, k.vars);
              boolean same = true;
              for (T f : a.keySet()) for (int i = 0; i < 64; i++) same &= a.get(f)[i] == k.vars.get(f)[i];
              r.check(same, "asking changes nothing", k.name, pos(k, "get"), (q < k.count ? "get(" + q + ")" : "bitCount()") + " changes the bitmap");
            }
          });
      part(
          "writing changes nothing",
          k,
          pos(k, "write"),
          () -> {
            Eval.Summary s = call(k, "write", List.of(T.mk("param", "buf")), null);
            Bools.Fn[] g = gets(k, after(k, s.st, k.vars));
            for (int q = 0; q < k.count; q++) r.check(g[q] == k.get[q], "writing changes nothing", k.name, pos(k, "write"), "position " + q + " after write is " + show(k, g[q]));
          });
    }
  }

  /** with several fields not every state may occur: is there a wrong one two or three calls away from a new bitmap? */
  private boolean reached(Kind k, String mn, int at) {
    for (int j = -1; j < k.count; j++)
      for (int v = 0; v < (j < 0 ? 1 : 3); v++) {
        St st = made(k);
        if (j >= 0) {
          st = call(k, "set", List.of(T.num(j)), st).st;
          if (v == 1) st = call(k, "set", List.of(T.num(at)), st).st;
          if (v == 2) st = call(k, "set", List.of(T.num((j + 1) % k.count)), st).st;
        }
        Bools.Fn[] before = gets(k, after(k, st, Map.of()));
        st = call(k, mn, List.of(T.num(at)), st).st;
        Bools.Fn[] g = gets(k, after(k, st, Map.of()));
        for (int q = 0; q < k.count; q++) if (g[q] != (q == at ? mn.equals("set") ? bs.I : bs.O : before[q])) return true;
      }
    return false;
  }

  /** what one bitmap is told shows in all: kept in a static */
  private boolean shared(Kind k) {
    String[] at = new String[1], in = new String[1];
    for (String mn : new String[] {"set", "clear"}) {
      MethodSymbol q = p.method(k.c, mn, "*"), g = p.method(k.c, "get", "*");
      if (q == null || g == null) return false;
      Eval.Summary s = ev.run(k.c, q, List.of(T.num(1)), fresh());
      T seen = ev.run(k.c, g, List.of(T.num(1)), fresh()).ret;
      if (seen == null) return false;
      Eff.walk(
          s.tr,
          e -> {
            if (!e.is("SWRITE") || at[0] != null) return;
            boolean kept =
                seen.any(
                    x ->
                        e.obj != null && x == e.obj && ev.isStaticObj(x)
                            || x.is("sfld") && e.name != null && (("" + x.a).equals(e.name) || ("" + x.a).startsWith(e.name + ":")));
            if (!kept) return;
            at[0] = e.pos;
            in[0] = e.obj == null ? e.name : "" + e.obj;
          });
    }
    if (at[0] == null) return false;
    r.bad("a bitmap has its own positions", k.name, at[0], "positions are kept in " + in[0] + ", which every " + k.name + " shares");
    return true;
  }

  private static St fresh() {
    St s = new St();
    s.tr = new ArrayList<>();
    s.ret = T.FALSE;
    return s;
  }

  private Map<T, Bools.Fn[]> fresh(Kind k) {
    return after(k, made(k), Map.of());
  }

  private St made(Kind k) {
    St st = new St();
    MethodSymbol c = null;
    for (Symbol s : k.c.members().getSymbols())
      if (s instanceof MethodSymbol && s.isConstructor() && ((MethodSymbol) s).params().isEmpty()) c = (MethodSymbol) s;
    ev.construct(k.c, c, k.self, List.of(), st, p.pos(k.c));
    return st;
  }

  // ------------------------------------------------------------------ write and read

  void readBack() {
    List<Kind> ks = kinds();
    r.floor("bitmap classes", ks.size(), 4);
    for (Kind k : ks) {
      part("same set read back", k, pos(k, "write"), () -> back(k));
    }
  }

  private void back(Kind k) {
    open(k);
    T buf = T.mk("param", "buf:io.netty.buffer.ByteBuf");
    Eval.Summary w = call(k, "write", List.of(buf), null);
    // what was written, bit by bit, first byte first
    List<Bools.Fn> bits = new ArrayList<>();
    Bools.Val m = bs.new Val(ev, k.vars);
    for (Eff e : w.tr) {
      switch (e.kind) {
        case "W":
          {
            Bools.Fn[] v = m.of(e.val);
            for (int i = 0; i < e.width / 8; i++) {
              int low = e.little ? 8 * i : e.width - 8 - 8 * i;
              for (int j = 0; j < 8; j++) bits.add(v[low + j]);
            }
            break;
          }
        case "FSET":
        case "ALLOC":
        case "DEREF":
          break;
        case "THROW":
          throw new Sums.Out("write fails for every set (" + e.pos + ")", true);
        default:
          throw new Sums.Out("write: " + e.kind + " at " + e.pos);
      }
    }
    int n = bits.size() / 8;
    if (T.sub(ev.lib.cur(w.st, "w", buf), ev.lib.cur(new St(), "w", buf)) != T.num(n)) throw new Sums.Out("writer position");
    Map<String, String> details = new LinkedHashMap<>();
    for (int prior = 0; prior < 2; prior++) {
      // into a new bitmap, and into one that holds anything
      Map<T, Bools.Fn[]> vars = new HashMap<>();
      Map<T, Bools.Fn[]> start = prior == 0 ? fresh(k) : null;
      for (int i = 0; i < k.fields.size(); i++) {
        T f = ev.readHeap(new St(), k.fields.get(i), k.self);
        Bools.Fn[] b = new Bools.Fn[64];
        for (int j = 0; j < 64; j++) b[j] = bs.var(STATE + k.from.get(i) + Math.min(j, k.width.get(i) - 1));
        vars.put(f, prior == 0 ? start.get(f) : b);
      }
      String into = prior == 0 ? "a new bitmap" : "a used bitmap";
      Bools.Val rm = bs.new Val(ev, vars);
      boolean[] open = {false}, onSet = {false};
      ev.lib.onRead =
          e -> {
            T off = T.sub(e.pos0, T.mk("cursor0", "r", buf));
            if (!off.isNum())
              throw onSet[0]
                  ? new Sums.Out("how many bytes are read depends on the positions that are set, but write always makes " + n, true)
                  : new Sums.Out("reads at " + off);
            int at = (int) off.n() * 8;
            Bools.Fn[] v = new Bools.Fn[64];
            for (int i = 0; i < 64; i++) v[i] = bs.O;
            for (int i = 0; i < e.width / 8; i++) {
              int low = e.little ? 8 * i : e.width - 8 - 8 * i;
              for (int j = 0; j < 8; j++) {
                int q = at + 8 * i + j;
                if (q >= bits.size() || q < 0) {
                  throw new Sums.Out("reads byte " + q / 8 + " where write made " + n, !open[0]);
                }
                v[low + j] = bits.get(q);
              }
            }
            rm.vars.put(e.res, v);
          };
      St.oracle =
          c -> {
            try {
              Bools.Fn b = rm.cond(c);
              if (bs.konst(b)) return T.bool(b == bs.I);
              open[0] = onSet[0] = true;
              return c;
            } catch (Sums.Out o) {
              open[0] = true;
              return c;
            }
          };
      Eval.Summary rd;
      try {
        rd = call(k, "read", List.of(buf), null);
      } finally {
        ev.lib.onRead = null;
        St.oracle = null;
      }
      T used = T.sub(ev.lib.cur(rd.st, "r", buf), T.mk("cursor0", "r", buf));
      if (!used.isNum()) throw new Sums.Out("reads " + used + " bytes");
      r.check(used.n() == n, "as many bytes read as written", k.name, pos(k, "read"), "read takes " + used + " bytes where write made " + n + " (into " + into + ")");
      Bools.Fn[] g = gets(k, after(k, rd.st, rm.vars));
      StringBuilder d = new StringBuilder();
      for (int q = 0; q < k.count; q++)
        if (g[q] != k.get[q]) d.append(d.length() == 0 ? "" : ",").append(q).append("<-").append(show(k, g[q]));
      details.put(into, d.toString());
    }
    if (new HashSet<>(details.values()).size() == 1 && !details.containsValue("")) {
      r.bad("same set read back", k.name, pos(k, "read"), "positions read back from others: " + details.values().iterator().next());
    } else
      for (Map.Entry<String, String> d : details.entrySet())
        if (d.getValue().isEmpty()) r.ok("same set read back", k.name + " into " + d.getKey());
        else r.bad("same set read back", k.name + " into " + d.getKey(), pos(k, "read"), "positions read back from others: " + d.getValue());
    r.sample(k.name + ": " + n + " bytes written and read");
  }
}
