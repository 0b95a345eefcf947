package wirefx;

import java.util.*;

/** What a codec puts on the wire in one scenario, and the matching of a decoder against it. */
final class Wire {
  static final class NeedSplit extends RuntimeException {
    final T cond;
    final String pos;

    NeedSplit(T cond, String pos) {
      super("undecided " + cond, null, false, false);
      this.cond = cond;
      this.pos = pos;
    }
  }

  /** the analysis has no answer here */
  static final class Undecided extends RuntimeException {
    final String pos;

    Undecided(String m, String pos) {
      super(m, null, false, false);
      this.pos = pos;
    }
  }

  /** the code breaks the rule here */
  static final class Mismatch extends RuntimeException {
    final String pos;

    Mismatch(String m, String pos) {
      super(m, null, false, false);
      this.pos = pos;
    }
  }

  static final class Item {
    String kind; // INT BYTES FIX MSG REP
    Eff e;
    T pos0, val, len, obj, idx, trip, size;
    int width;
    boolean little;
    String name;
    List<Item> body = List.of();
    List<Item> overwritten = new ArrayList<>();
    T first; // value before it was overwritten
    final TreeMap<Integer, Object[]> parts = new TreeMap<>(); // offset: {offset, bytes, value} of what overwrote a part

    String pos() {
      return e.pos;
    }

    @Override
    public String toString() {
      switch (kind) {
        case "INT":
          return width + "-bit " + (little ? "LE" : "BE") + " " + val;
        case "BYTES":
          return len + " bytes of " + val;
        case "FIX":
          return "text[" + len + "] " + name + " " + val;
        case "MSG":
          return "message " + obj;
        default:
          return "repeat " + trip + " " + body;
      }
    }
  }

  static boolean opaque(T t) {
    return t != null && t.any(x -> x.is("opaque") || x.is("phi") || x.is("wtrip") || x.is("exits") || x.is("fold") || x.is("scan") || x.is("pure") && !T.lossy(x.a) || x.is("last") || x.is("libobj") || x.is("gbytes"));
  }

  static boolean wireEffect(Eff e) {
    switch (e.kind) {
      case "FSET":
      case "DEREF":
      case "LMUT":
      case "AMUT":
      case "CHO":
      case "ALLOC":
      case "MPUT":
      case "MREM":
      case "MCLR":
      case "SWRITE":
      case "OBJCALL":
      case "CALC":
        return false;
      default:
        return true;
    }
  }

  // ------------------------------------------------------------------ encoder side

  final Ctx.Msg m;
  final Scn s;
  final T base;
  final List<Item> items = new ArrayList<>();
  T end; // write position after the last item, relative to base
  final List<Eff> calcs = new ArrayList<>();
  final List<Integer> calcAt = new ArrayList<>(); // number of wire effects before each calc
  final List<Eff> seeks = new ArrayList<>();
  int wireCount = 0;
  final List<Eff> patches = new ArrayList<>();
  final Map<Eff, Integer> orderOf = new HashMap<>();

  Wire(Ctx.Msg m, Scn s) {
    this.m = m;
    this.s = s;
    T b = m.encBuf();
    base = T.add(T.mk("cursor0", "r", b), T.mk("avail", null, b));
  }

  Wire build() {
    s.enter();
    end = T.ZERO;
    build(m.enc.tr, items, true);
    glue(items);
    built = true;
    return this;
  }

  boolean built;

  /** a number written in pieces counts as the number */
  private static void glue(List<Item> l) {
    for (Item i : l) if (i.kind.equals("REP")) glue(i.body);
    for (int a = 0; a < l.size(); a++) {
      if (!piece(l.get(a))) continue;
      search:
      for (int w : new int[] {64, 32, 16}) {
        int n = 0, b = a;
        while (b < l.size() && n < w && piece(l.get(b))) n += l.get(b++).width;
        if (n != w || b - a < 2) continue;
        for (boolean little : new boolean[] {false, true}) {
          List<T> ps = new ArrayList<>();
          List<Integer> ws = new ArrayList<>();
          boolean fits = true;
          for (int k = a; k < b; k++) {
            Item q = l.get(little ? b - 1 - (k - a) : k);
            fits &= q.width == 8 || q.little == little;
            ps.add(q.val);
            ws.add(q.width);
          }
          if (!fits || ps.stream().noneMatch(v -> v.any(x -> x.is("shl") || x.is("shr") || x.is("ushr")))) continue;
          T v = Bits.glue(ps, ws, w);
          if (v == null) continue;
          Item q = new Item();
          q.kind = "INT";
          q.e = l.get(a).e;
          q.pos0 = l.get(a).pos0;
          q.width = w;
          q.little = little;
          q.val = v;
          q.size = T.num(w / 8);
          l.subList(a, b).clear();
          l.add(a, q);
          break search;
        }
      }
    }
  }

  /** puts one empty text in place of the padding a text field is filled with by itself; null when it is something else */
  static Item blank(List<Item> l, int from, T len, String name) {
    if (!len.isNum() || from >= l.size() || !l.get(from).kind.matches("INT|BYTES|REP")) return null;
    long w = 0;
    int b = from;
    while (b < l.size() && w < len.n()) {
      Item i = l.get(b++);
      T c, n;
      switch (i.kind) {
        case "INT":
          c = i.width == 8 ? i.val : null;
          n = T.ONE;
          break;
        case "BYTES":
          c = i.val.is("bfill") ? i.val.k[0] : null;
          n = i.len;
          break;
        case "REP":
          c = i.body.size() == 1 && i.body.get(0).kind.equals("INT") && i.body.get(0).width == 8 ? i.body.get(0).val : null;
          n = i.trip;
          break;
        default:
          return null;
      }
      if (c == null || !c.isNum() || n == null || !n.isNum() || i.first != null || !i.parts.isEmpty() || !Lib.padName(T.num(c.n() & 0xff)).equals(name.split(" ")[0])) return null;
      w += n.n();
    }
    if (w != len.n()) return null;
    Item f = new Item();
    f.kind = "FIX";
    f.e = l.get(from).e;
    f.pos0 = l.get(from).pos0;
    f.len = f.size = len;
    f.name = name;
    f.val = T.str("");
    l.subList(from, b).clear();
    l.add(from, f);
    return f;
  }

  private static boolean piece(Item i) {
    return i.kind.equals("INT") && i.first == null && i.val.intLike();
  }

  /** what kind of thing an item is, as the properties see it */
  static String topic(Item i) {
    if (i == null) return "";
    switch (i.kind) {
      case "FIX":
        return "text";
      case "BYTES":
      case "REP":
        return "count";
      case "MSG":
        return "message";
      default:
        T v = i.val;
        if (v.any(x -> x.is("calc"))) return "checksum";
        if (v.any(x -> x.is("sizeof"))) return "length";
        if (v.any(x -> x.is("size") || x.is("blen") || x.is("slen"))) return "count";
        return "int";
    }
  }

  static String topic(Eff e) {
    if (e == null) return "";
    switch (e.kind) {
      case "RFIX":
      case "WFIX":
        return "text";
      case "RB":
      case "REP":
      case "WB":
        return "count";
      case "DEC":
      case "ENC":
        return "message";
      default:
        return "";
    }
  }

  T rel(T pos) {
    return T.sub(s.spec(pos), base);
  }

  private void build(List<Eff> tr, List<Item> out, boolean top) {
    for (Eff e : tr) {
      curEff = e;
      switch (e.kind) {
        case "CHO":
          {
            T c = s.spec(e.cond);
            if (c == T.TRUE) build(e.a, out, top);
            else if (c == T.FALSE) build(e.b, out, top);
            else if (Eff.anyOf(e.a, Wire::wireEffect) || Eff.anyOf(e.b, Wire::wireEffect)) throw new NeedSplit(c, e.pos);
            else if (Eff.anyOf(e.a, x -> nullDeref(x)) || Eff.anyOf(e.b, x -> nullDeref(x))) throw new NeedSplit(c, e.pos);
            else {
              build2(e.a);
              build2(e.b);
            }
            break;
          }
        case "W":
        case "WB":
        case "WFIX":
        case "ENC":
          {
            orderOf.put(e, wireCount++);
            if (s.spec(e.buf) != m.encBuf()) throw new Undecided("writes to another buffer", e.pos);
            Item i = new Item();
            i.e = e;
            i.pos0 = rel(e.pos0);
            if (e.is("W")) {
              i.kind = "INT";
              i.width = e.width;
              i.little = e.little;
              i.val = Bits.simp(s.spec(e.val));
              i.size = T.num(e.width / 8);
            } else if (e.is("WB")) {
              i.kind = "BYTES";
              i.val = s.spec(e.val);
              i.len = s.spec(e.len);
              i.size = i.len;
              if (i.len == T.ZERO) break;
            } else if (e.is("WFIX")) {
              i.kind = "FIX";
              i.val = s.spec(e.val);
              i.len = s.spec(e.len);
              i.size = i.len;
              i.name = e.name;
            } else {
              i.kind = "MSG";
              i.obj = s.spec(e.obj);
              if (i.obj.is("null")) throw new Mismatch("encode calls encode on null", e.pos);
              i.size = e.res;
              i.name = e.name;
            }
            npe(i.val, e.pos);
            npe(i.len, e.pos);
            if (i.pos0 != end) {
              // writing somewhere else than at the end: over an earlier item
              if (!top || !e.is("W") || !patch(items, i.pos0, e, e.pos))
                throw new Undecided("write at " + i.pos0 + ", the end being " + end, e.pos);
              break;
            }
            end = T.add(end, i.size);
            out.add(i);
            break;
          }
        case "SETAT":
          {
            orderOf.put(e, wireCount++);
            if (s.spec(e.buf) != m.encBuf()) throw new Undecided("writes to another buffer", e.pos);
            T at = rel(e.pos0);
            if (!patch(items, at, e, e.pos)) {
              T d = T.sub(at, end);
              if (at.isNum() || d.isNum())
                throw new Mismatch("overwrites bytes at offset " + at + " that are not a whole field written before", e.pos);
              boolean start = at.is("lin");
              if (start) for (T x : at.k) start &= x.is("cursor0") || x.is("avail");
              if (start) throw new Mismatch("overwrites bytes at a distance from the message that depends on where the message starts: " + at, e.pos);
              throw new Undecided("overwrites bytes at " + at, e.pos);
            }
            patches.add(e);
            break;
          }
        case "SEEK":
          seeks.add(e);
          if (!e.name.equals("w") || !top) throw new Undecided("moves the buffer's position", e.pos);
          // the position is checked where something is written and at the end
          break;
        case "REP":
          {
            if (e.narrow) throw new Mismatch("the loop counter is too narrow for the number of elements", e.pos);
            T trip = s.spec(e.trip);
            if (trip == T.ZERO) break;
            Item i = new Item();
            i.kind = "REP";
            i.e = e;
            i.idx = e.idx;
            i.trip = trip;
            i.pos0 = end;
            i.body = new ArrayList<>();
            T save = end;
            // the body is built at its own generic position
            List<Eff> b = e.a;
            T start = firstPos(b);
            if (start != null) end = start;
            T s0 = end;
            build(b, i.body, false);
            if (i.body.isEmpty()) {
              end = save;
              break;
            }
            T d = T.ZERO;
            for (Item q : i.body) d = T.add(d, q.size);
            i.size = T.psum("#" + e.loop, d, trip);
            end = T.add(save, i.size);
            out.add(i);
            break;
          }
        case "CALC":
          calcs.add(e);
          calcAt.add(wireCount);
          break;
        case "DEREF":
          if (s.spec(e.obj).is("null")) throw new Mismatch("encode goes through null: " + e.obj, e.pos);
          break;
        case "TRY":
          build(e.a, out, top);
          break;
        case "THROW":
          throw new Mismatch("encode throws " + e.name, e.pos);
        case "UNK":
          throw new Undecided(e.name, e.pos);
        case "REC":
          if (e.width == 0) throw new Undecided("recursion in " + e.name, e.pos);
          throw new Mismatch("recursion without end in " + e.name, e.pos);
        default:
          break;
      }
    }
  }

  private void build2(List<Eff> l) {
    Eff.walk(l, e -> {
      if (e.is("CALC")) {
        calcs.add(e);
        calcAt.add(wireCount);
      }
    });
  }

  private boolean nullDeref(Eff e) {
    return e.is("DEREF") && s.spec(e.obj).is("null");
  }

  private static void npe(T v, String pos) {
    if (v == null) return;
    if (v.any(x -> (x.is("encstr") || x.is("slen") || x.is("blen") || x.is("size") || x.is("get")) && x.k[0].is("null")))
      throw new Mismatch("encode goes through null: " + v, pos);
  }

  private T firstPos(List<Eff> b) {
    for (Eff e : b) {
      if (e.is("W") || e.is("WB") || e.is("WFIX") || e.is("ENC")) return rel(e.pos0);
      if (e.is("CHO")) {
        T c = s.spec(e.cond);
        T r = c == T.TRUE ? firstPos(e.a) : c == T.FALSE ? firstPos(e.b) : null;
        if (r != null) return r;
        if (!c.isBoolConst() && (Eff.anyOf(e.a, Wire::wireEffect) || Eff.anyOf(e.b, Wire::wireEffect)))
          throw new NeedSplit(c, e.pos);
      }
      if (e.is("REP")) {
        T r = firstPos(e.a);
        if (r != null) return T.subst(r, Map.of(e.idx, T.ZERO));
      }
    }
    return null;
  }

  private boolean patch(List<Item> l, T at, Eff e, String pos) {
    for (Item i : l)
      if (i.kind.equals("INT") && i.pos0 == at && i.width == e.width) {
        if (i.first == null) i.first = i.val;
        i.val = s.spec(e.val);
        i.little = e.little;
        i.e = e;
        i.parts.clear();
        return true;
      }
    for (Item i : l) {
      T d = T.sub(at, i.pos0);
      if (!i.kind.equals("INT") || !d.isNum() || d.n() < 0 || d.n() * 8 + e.width > i.width || e.width >= i.width) continue;
      // a part of a field: what the field becomes is known when all of it has been written
      if (i.first == null) i.first = i.val;
      int from = (int) d.n(), to = from + e.width / 8;
      i.parts.values().removeIf(o -> (Integer) o[0] < to && from < (Integer) o[0] + (Integer) o[1]);
      if (e.width > 8 && e.little != i.little) throw new Undecided("part of a field in another byte order", pos);
      i.parts.put(from, new Object[] {from, e.width / 8, s.spec(e.val)});
      i.e = e;
      TreeMap<Integer, Object[]> parts = new TreeMap<>(i.parts);
      boolean[] set = new boolean[i.width / 8];
      for (Object[] o : parts.values()) Arrays.fill(set, (Integer) o[0], (Integer) o[0] + (Integer) o[1], true);
      // what was there before stays in the bytes nobody wrote
      for (int k = 0; k < set.length; k++)
        if (!set[k]) parts.put(k, new Object[] {k, 1, T.bit("shr", i.width == 64 ? 64 : 32, i.first, T.num(8L * (i.little ? k : set.length - 1 - k)))});
      List<T> vs = new ArrayList<>();
      List<Integer> ws = new ArrayList<>();
      for (Object[] o : i.little ? parts.descendingMap().values() : parts.values()) {
        vs.add((T) o[2]);
        ws.add((Integer) o[1] * 8);
      }
      T g = Bits.glue(vs, ws, i.width);
      if (g == null) {
        for (T v : vs) if (Bits.of(v) == null) throw new Undecided("a field written in parts: " + vs, pos);
        g = T.mk("glued", null, vs.toArray(new T[0]));
      }
      i.val = g;
      return true;
    }
    return false;
  }

  T total() {
    return end;
  }

  /** value of a field of the message after encode */
  T encFinal(Ctx cx, com.sun.tools.javac.code.Symbol.VarSymbol f) {
    return s.spec(cx.ev.readHeap(m.enc.st, f, m.self));
  }

  static void each(List<Item> l, java.util.function.Consumer<Item> c) {
    for (Item i : l) {
      c.accept(i);
      each(i.body, c);
    }
  }

  // ------------------------------------------------------------------ decoder side

  final Map<T, T> env = new HashMap<>();
  private T.Rebuild dmemo;

  static final class Q {
    final List<Item> items;
    int i = 0;
    final Q outer;

    Q(List<Item> l, Q outer) {
      items = new ArrayList<>(l);
      this.outer = outer;
    }

    Item peek() {
      return i < items.size() ? items.get(i) : null;
    }

    T rest() {
      T r = T.ZERO;
      for (int j = i; j < items.size(); j++) r = T.add(r, items.get(j).size);
      return r;
    }
  }

  final Map<T, Q> queues = new HashMap<>();
  final List<Object[]> counts = new ArrayList<>(); // {decode effect, raw count term, item, prefix read effect}
  final List<Object[]> dispatch = new ArrayList<>(); // {item, map, key}
  Eff lastRead;
  final List<Eff> consumed = new ArrayList<>();
  int matched = 0;

  void bind(T k, T v) {
    if (k == v) return;
    env.put(k, v);
    dmemo = null;
  }

  /** a decoder term, with what it read replaced by what was written */
  T dv(T t) {
    if (t == null) return null;
    if (dmemo == null)
      dmemo =
          new T.Rebuild(
              x -> {
                T r = env.get(x);
                if (r != null) return r;
                return s.f(x);
              });
    return dmemo.go(t);
  }

  static final T TRAIL = T.mk("param", "trail:int");

  void match(List<Eff> tr) {
    s.fact(TRAIL, 0, Integer.MAX_VALUE);
    Q q = new Q(items, null);
    queues.put(m.decBuf(), q);
    run(tr, q);
    curItem = q.peek();
    if (q.peek() != null) throw new Mismatch("decode stops before " + q.peek() + " (written at " + q.peek().pos() + ")", m.decM == null ? "" : decPos());
    for (Map.Entry<T, Q> e : queues.entrySet())
      if (e.getValue() != q && e.getValue().peek() != null)
        throw new Mismatch("decode leaves " + e.getValue().peek() + " unread", decPos());
  }

  private String decPos() {
    return decPosS;
  }

  String decPosS = "?";

  private Q queue(Eff e, Q cur) {
    T b = dv(e.buf);
    if (b == m.decBuf()) return cur;
    Q q = queues.get(e.buf);
    if (q == null) q = queues.get(b);
    if (q == null) throw new Undecided("reads another buffer " + b, e.pos);
    return q;
  }

  private Item take(Q q, Eff e) {
    Item i = q.peek();
    if (i == null) throw new Mismatch("decode reads more than encode wrote", e.pos);
    q.i++;
    matched++;
    curItem = i;
    return i;
  }

  private T dcond(Eff e, Q q) {
    T c = e.cond;
    if (c.any(x -> x.is("avail"))) {
      T b = m.decBuf();
      T a = T.mk("avail", null, b), c0 = T.mk("cursor0", "r", b);
      T cur = e.curs == null ? null : e.curs.get(b);
      if (cur == null) cur = c0;
      T rest = T.add(q.rest(), TRAIL);
      for (Q o = q.outer; o != null; o = o.outer) {
        T r2 = T.ZERO;
        for (int j = o.i; j < o.items.size(); j++) r2 = T.add(r2, o.items.get(j).size);
        rest = T.add(rest, r2);
      }
      T av = T.add(T.sub(cur, c0), rest);
      // cancel the raw position before what was read is replaced
      c = T.subst(c, Map.of(a, av));
    }
    return dv(c);
  }

  Item curItem; // the item being read
  Eff curEff; // the decoder's action

  private void run(List<Eff> tr, Q q0) {
    for (Eff e : tr) {
      curEff = e;
      switch (e.kind) {
        case "CHO":
          {
            T c = dcond(e, q0);
            if (c == T.TRUE) run(e.a, q0);
            else if (c == T.FALSE) run(e.b, q0);
            else if (Eff.anyOf(e.a, Wire::wireEffect) || Eff.anyOf(e.b, Wire::wireEffect)) {
              if (opaque(c)) throw new Undecided("condition " + c, e.pos);
              throw new NeedSplit(c, e.pos);
            }
            break;
          }
        case "RD":
          {
            Q q = queue(e, q0);
            Item i = take(q, e);
            if (i.kind.equals("INT") && i.width > e.width && (e.width == 8 || e.little == i.little)) {
              // part of a number: the rest of it is still to be read
              Item part = new Item(), rest = new Item();
              for (Item x : new Item[] {part, rest}) {
                x.kind = "INT";
                x.e = i.e;
                x.little = i.little;
                x.width = x == part ? e.width : i.width - e.width;
                x.size = T.num(x.width / 8);
                x.pos0 = x == part ? i.pos0 : T.add(i.pos0, part.size);
              }
              Item low = i.little ? part : rest, high = i.little ? rest : part;
              low.val = T.ext(low.width, true, i.val);
              high.val = T.ext(high.width, true, T.bit("shr", 64, i.val, T.num(low.width)));
              q.items.set(q.i - 1, part);
              q.items.add(q.i, rest);
              i = part;
            }
            if (i.kind.equals("INT") && i.width < e.width) {
              T v = T.ext(i.width, false, i.val);
              int w = i.width;
              boolean ok = true;
              while (w < e.width && ok) {
                Item j = q.peek();
                ok = j != null && j.kind.equals("INT") && w + j.width <= e.width && (j.width == 8 || j.little == e.little) && (i.width == 8 || i.little == e.little);
                if (!ok) break;
                T x = T.ext(j.width, false, j.val);
                v = e.little ? T.bit("ior", 64, v, T.bit("shl", 64, x, T.num(w))) : T.bit("ior", 64, T.bit("shl", 64, v, T.num(j.width)), x);
                w += j.width;
                q.i++;
              }
              if (ok) {
                bind(e.res, T.ext(w, true, v));
                lastRead = e;
                consumed.add(e);
                break;
              }
            }
            if (!i.kind.equals("INT")) throw new Mismatch("decode reads a " + e.width + "-bit number where encode wrote " + i + " (" + i.pos() + ")", e.pos);
            if (i.width != e.width)
              throw new Mismatch("decode reads " + e.width + " bits where encode wrote " + i.width + " bits of " + i.val + " (" + i.pos() + ")", e.pos);
            if (e.width > 8 && i.little != e.little && !palin(i.val))
              throw new Mismatch("decode reads " + (e.little ? "little" : "big") + "-endian what encode wrote " + (i.little ? "little" : "big") + "-endian: " + i.val + " (" + i.pos() + ")", e.pos);
            bind(e.res, i.val);
            peeked(e, e.pos0, i);
            lastRead = e;
            consumed.add(e);
            break;
          }
        case "RB":
          {
            Q q = queue(e, q0);
            T len = dv(e.len);
            consumed.add(e);
            if (e.obj != null) {
              sub(e, q, len);
              break;
            }
            if (len == T.ZERO) {
              bind(e.res, T.mk("nobytes", null));
              break;
            }
            Item i = take(q, e);
            if (!i.kind.equals("BYTES")) throw new Mismatch("decode reads bytes where encode wrote " + i + " (" + i.pos() + ")", e.pos);
            if (i.len != len) {
              if (opaque(len)) throw new Undecided("length " + len, e.pos);
              throw new Mismatch("decode reads " + len + " bytes where encode wrote " + i.len + " (" + i.pos() + ")", e.pos);
            }
            counts.add(new Object[] {e, e.len, i, lastRead});
            bind(e.res, i.val);
            break;
          }
        case "RFIX":
          {
            Q q = queue(e, q0);
            Item i = take(q, e);
            consumed.add(e);
            T len = dv(e.len);
            if (!i.kind.equals("FIX")) {
              q.i--;
              Item f = blank(q.items, q.i, len, e.name);
              if (f == null) q.i++;
              else {
                i = f;
                q.i++;
              }
            }
            if (!i.kind.equals("FIX")) throw new Mismatch("decode reads fixed text where encode wrote " + i + " (" + i.pos() + ")", e.pos);
            if (i.len != len) throw new Mismatch("decode reads text of width " + len + " where encode wrote width " + i.len + " (" + i.pos() + ")", e.pos);
            if (!i.name.equals(e.name)) throw new Mismatch("decode trims with " + e.name + " where encode padded with " + i.name + " (" + i.pos() + ")", e.pos);
            bind(e.res, T.mk("fixtext", null, i.val));
            break;
          }
        case "DEC":
          {
            Q q = queue(e, q0);
            Item i = take(q, e);
            consumed.add(e);
            T o = dv(e.obj);
            if (!i.kind.equals("MSG")) throw new Mismatch("decode reads a message where encode wrote " + i + " (" + i.pos() + ")", e.pos);
            if (o.is("gamma")) throw new NeedSplit(o.k[0], e.pos);
            if (o.is("created")) {
              T g = o.k[0];
              if (!g.is("mget")) throw new Undecided("decodes an instance made by " + g, e.pos);
              dispatch.add(new Object[] {i, g.k[0], strip(g.k[1])});
            } else if (o.is("null")) throw new Mismatch("decode runs on null", e.pos);
            else {
              String cn = cls(o, e.name);
              if (cn == null) throw new Undecided("decodes an unknown object " + o, e.pos);
              if (!cn.equals(i.name))
                throw new Mismatch("decode builds a " + cn + " where encode wrote a " + i.name + " (" + i.pos() + ")", e.pos);
            }
            if (o == i.obj) throw new Undecided("decodes into the encoded object", e.pos);
            bind(e.obj, i.obj);
            bind(o, i.obj);
            bind(e.res, i.size);
            break;
          }
        case "SKIP":
          {
            Q q = queue(e, q0);
            T len = dv(e.len);
            consumed.add(e);
            T d = T.ZERO;
            while (d != len) {
              Item i = q.peek();
              if (i == null) throw new Mismatch("decode skips " + len + " bytes, of which encode wrote " + d, e.pos);
              q.i++;
              peeked(e, T.add(e.pos0, d), i);
              d = T.add(d, i.size);
              long[] r = T.range(T.sub(d, len));
              if (r[0] > 0) throw new Mismatch("decode skips " + len + " bytes, which is not a whole number of fields", e.pos);
            }
            break;
          }
        case "REP":
          {
            T trip = dv(e.trip);
            if (trip == T.ZERO) break;
            if (!Eff.anyOf(e.a, Wire::wireEffect)) break;
            if (e.narrow) throw new Mismatch("the loop counter is too narrow for the number of elements", e.pos);
            if (opaque(trip)) throw new Undecided("loop with trip count " + trip, e.pos);
            Item i = take(q0, e);
            if (!i.kind.equals("REP")) throw new Mismatch("decode repeats where encode wrote " + i + " (" + i.pos() + ")", e.pos);
            if (i.trip != trip) throw new Mismatch("decode repeats " + trip + " times where encode wrote " + i.trip + " elements (" + i.pos() + ")", e.pos);
            counts.add(new Object[] {e, e.trip, i, lastRead});
            List<Item> body = i.body;
            if (i.idx != e.idx) body = rename(body, i.idx, e.idx);
            s.fact(e.idx, 0, T.MAXSIZE - 1);
            Q q = new Q(body, q0);
            run(e.a, q);
            if (q.peek() != null) throw new Mismatch("decode does not read " + q.peek() + " of each element (" + q.peek().pos() + ")", e.pos);
            break;
          }
        case "DEREF":
          if (dv(e.obj).is("null")) throw new Mismatch("decode goes through null: " + e.obj, e.pos);
          break;
        case "TRY":
          run(e.a, q0);
          break;
        case "SEEK":
          if (e.name.equals("r")) {
            seek(e, q0);
            break;
          }
          throw new Mismatch("decode moves the buffer's write position", e.pos);
        case "THROW":
          throw new Mismatch("decode throws " + e.name + " on what encode wrote", e.pos);
        case "UNK":
          throw new Undecided(e.name, e.pos);
        case "REC":
          if (e.width == 0) throw new Undecided("recursion in " + e.name, e.pos);
          throw new Mismatch("recursion without end in " + e.name, e.pos);
        case "W":
        case "WB":
        case "WFIX":
        case "ENC":
        case "SETAT":
          throw new Mismatch("decode writes to a buffer", e.pos);
        default:
          break;
      }
    }
  }

  /** the item stands at this position: what an absolute get there sees */
  private void peeked(Eff e, T at, Item i) {
    if (!i.kind.equals("INT") || at == null) return;
    T b = Lib.root(e.buf), p = Lib.abs(e.buf, at);
    if (i.width == 8) bind(T.mk("getb", null, b, p), T.ext(8, false, i.val));
    else
      for (boolean le : new boolean[] {false, true})
        bind(T.mk("getn", i.width + (le ? "LE" : "BE"), b, p), le == i.little ? i.val : T.bswap(i.width, i.val));
  }

  /** going back to the start of something already read */
  private void seek(Eff e, Q q) {
    if (dv(e.buf) != m.decBuf() || q.outer != null) throw new Undecided("moves the buffer's read position", e.pos);
    T at = T.sub(dv(e.pos0), T.mk("cursor0", "r", m.decBuf())), d = T.ZERO;
    int k = 0;
    while (d != at && k < q.items.size()) d = T.add(d, q.items.get(k++).size);
    if (d != at) throw new Undecided("moves the buffer's read position to " + at, e.pos);
    q.i = k;
  }

  /** a slice of the given length becomes a queue of its own */
  private void sub(Eff e, Q q, T len) {
    List<Item> l = new ArrayList<>();
    T d = T.ZERO;
    while (d != len) {
      Item i = q.peek();
      if (i == null) throw new Mismatch("decode slices " + len + " bytes, of which encode wrote " + d, e.pos);
      q.i++;
      l.add(i);
      d = T.add(d, i.size);
      if (T.range(T.sub(d, len))[0] > 0)
        throw new Mismatch("decode slices " + len + " bytes, which is not a whole number of fields", e.pos);
    }
    queues.put(e.obj, new Q(l, null));
  }

  static List<Item> rename(List<Item> l, T from, T to) {
    Map<T, T> m = Map.of(from, to);
    List<Item> r = new ArrayList<>();
    for (Item i : l) {
      Item q = new Item();
      q.kind = i.kind;
      q.e = i.e;
      q.width = i.width;
      q.little = i.little;
      q.name = i.name;
      q.idx = i.idx;
      q.pos0 = i.pos0;
      q.val = i.val == null ? null : T.subst(i.val, m);
      q.len = i.len == null ? null : T.subst(i.len, m);
      q.obj = i.obj == null ? null : T.subst(i.obj, m);
      q.trip = i.trip == null ? null : T.subst(i.trip, m);
      q.size = T.subst(i.size, m);
      q.body = rename(i.body, from, to);
      r.add(q);
    }
    return r;
  }

  static boolean palin(T v) {
    return v == T.ZERO || v.isNum() && v.n() == -1;
  }

  static T strip(T t) {
    if (t.is("fixtext")) return t.k[0];
    return t;
  }

  static String cls(T o, String declared) {
    if (o.is("new")) {
      String x = (String) o.a;
      return x.substring(0, x.lastIndexOf('#'));
    }
    return declared;
  }
}
