package wirefx;

import java.nio.charset.StandardCharsets;
import java.util.*;

/**
 * Constant propagation on text terms: what a term of the analysis comes to for one particular text.
 * Used only to refute a term that is not recognised; agreement on texts proves nothing.
 */
final class Texts {
  final Eval ev;
  final Map<T, T> given = new HashMap<>();
  int steps;
  T bytes; // the bytes the text was read from
  byte[] raw;

  Texts(Eval ev) {
    this.ev = ev;
  }

  T go(T t, Map<T, T> env) {
    return new T.Rebuild(x -> one(x, env)).go(t);
  }

  /** the text a term comes to; Stuck if it does not, Fails if it fails there */
  String text(T t) {
    T v = go(t, Map.of());
    if (v == T.NULL) return null;
    if (!v.is("str")) throw new Folds.Stuck("" + v);
    return (String) v.a;
  }

  private static Map<T, T> with(Map<T, T> m, T k, T v) {
    Map<T, T> r = new HashMap<>(m);
    r.put(k, v);
    return r;
  }

  private T one(T x, Map<T, T> env) {
    T v = env.get(x);
    if (v == null) v = given.get(x);
    if (v != null) return v;
    switch (x.op) {
      case "opaque":
      case "last":
      case "exits":
      case "libobj":
        throw new Folds.Stuck("" + x);
      case "and":
      case "or":
        return junction(x, env);
      case "scan":
        {
          T n = go(x.k[0], env);
          if (!n.isNum()) throw new Folds.Stuck("bound " + n);
          long i = 0;
          for (; i < n.n(); i++) {
            tick();
            T c = go(x.k[1], with(env, T.mk("bv", 0), T.num(i)));
            if (c == T.FALSE) break;
            if (c != T.TRUE) throw new Folds.Stuck("" + c);
          }
          return T.num(i);
        }
      case "trip":
      case "xtrip":
        {
          T n = go(x.k[0], env);
          if (n.isNum()) return T.num(Math.max(0, n.n()));
          throw new Folds.Stuck("" + n);
        }
      case "wtrip":
        {
          Eval.LoopInfo li = ev.loops.get("" + x.a);
          if (li == null || x.k.length == 0 || li.inits.size() != li.phis.size()) throw new Folds.Stuck("loop");
          List<T> s = new ArrayList<>();
          for (T i : li.inits) s.add(go(i, env));
          for (long r = 0; ; r++) {
            Map<T, T> in = round(li, s, r, env);
            T c = go(x.k[0], in);
            if (c == T.FALSE) return T.num(r);
            if (c != T.TRUE) throw new Folds.Stuck("" + c);
            s = step(li, in);
          }
        }
      case "fold":
        {
          String a = (String) x.a;
          int dot = a.indexOf('.');
          Eval.LoopInfo li = ev.loops.get(a.substring(0, dot));
          int j = Integer.parseInt(a.substring(dot + 1));
          if (li == null || j < 0 || j >= li.phis.size()) throw new Folds.Stuck("loop");
          T n = go(x.k[0], env);
          if (!n.isNum()) throw new Folds.Stuck("rounds " + n);
          List<T> s = new ArrayList<>();
          for (int i = 0; i < li.phis.size(); i++) s.add(go(x.k[i + 1], env));
          for (long r = 0; r < n.n(); r++) s = step(li, round(li, s, r, env));
          return s.get(j);
        }
      case "psum":
        {
          Eval.LoopInfo li = ev.loops.get(((String) x.a).substring(1));
          T n = go(x.k[1], env), s = T.ZERO;
          if (li == null || !n.isNum()) throw new Folds.Stuck("" + n);
          for (long i = 0; i < n.n(); i++) {
            tick();
            s = T.add(s, go(x.k[0], with(env, li.idx, T.num(i))));
          }
          return s;
        }
      case "slen":
        return T.slen(go(x.k[0], env));
      case "charAt":
        {
          T s = go(x.k[0], env), i = go(x.k[1], env);
          if (!s.is("str") || !i.isNum()) throw new Folds.Stuck("" + s);
          String w = (String) s.a;
          if (i.n() < 0 || i.n() >= w.length()) throw new Folds.Fails("charAt(" + i + ")");
          return T.num(w.charAt((int) i.n()));
        }
      case "substr":
        {
          T s = go(x.k[0], env), a = go(x.k[1], env), b = go(x.k[2], env);
          if (!s.is("str") || !a.isNum() || !b.isNum()) throw new Folds.Stuck("" + s);
          if (a.n() < 0 || b.n() > ((String) s.a).length() || a.n() > b.n()) throw new Folds.Fails("substring(" + a + ", " + b + ")");
          return T.substr(s, a, b);
        }
      case "blen":
        if (bytes != null && x.k[0] == bytes) return T.num(raw.length);
        if (x.k[0].is("rbytes")) return null;
        return T.num(block(x.k[0], env).length);
      case "select":
        {
          if (bytes == null || x.k[0] != bytes) {
            if (out == null) return null;
            byte[] l = block(x.k[0], env);
            T i = go(x.k[1], env);
            if (!i.isNum()) throw new Folds.Stuck("" + i);
            if (i.n() < 0 || i.n() >= l.length) throw new Folds.Fails("byte " + i + " of " + l.length);
            return T.num(l[(int) i.n()]);
          }
          T i = go(x.k[1], env);
          if (!i.isNum()) throw new Folds.Stuck("" + i);
          if (i.n() < 0 || i.n() >= raw.length) throw new Folds.Fails("byte " + i + " of " + raw.length);
          return T.num(raw[(int) i.n()]);
        }
      case "decstr":
        if (bytes != null && x.k[1] == T.charset("UTF-8")) {
          T b = x.k[0];
          long from = 0, n = raw.length;
          if (b.is("sub") && b.k[0] == bytes) {
            T o = go(b.k[1], env), l = go(b.k[2], env);
            if (!o.isNum() || !l.isNum()) throw new Folds.Stuck("" + b);
            from = o.n();
            n = l.n();
            if (from < 0 || n < 0 || from + n > raw.length) throw new Folds.Fails("bytes " + from + " to " + (from + n) + " of " + raw.length);
          } else if (b != bytes) throw new Folds.Stuck("" + b);
          return T.str(new String(raw, (int) from, (int) n, StandardCharsets.UTF_8));
        }
        throw new Folds.Stuck("" + x);
      case "encstr":
        if (out != null) return x;
        throw new Folds.Stuck("" + x);
      case "rbytes":
        throw new Folds.Stuck("" + x);
      case "pure":
        {
          T[] k = new T[x.k.length];
          for (int i = 0; i < k.length; i++) k[i] = go(x.k[i], env);
          T r = plain((String) x.a, k);
          if (r != null) return r;
          r = T.pure((String) x.a, k);
          if (r.is("pure")) throw new Folds.Stuck("" + x.a);
          return r;
        }
      default:
        return null;
    }
  }

  // ------------------------------------------------------------------ what is written

  private byte[] out; // the bytes written so far, from START on
  private int at;

  private static final int START = 7;

  private int num(T t, Map<T, T> env) {
    T v = go(t, env);
    if (!v.isNum()) throw new Folds.Stuck("" + v);
    return (int) v.n();
  }

  /** the bytes a block of bytes comes to */
  private byte[] block(T b, Map<T, T> env) {
    tick();
    switch (b.op) {
      case "param":
      case "str":
        {
          T s = go(b, env);
          if (!s.is("str")) throw new Folds.Stuck("" + s);
          return ((String) s.a).getBytes(StandardCharsets.UTF_8);
        }
      case "encstr":
        {
          T s = go(b.k[0], env);
          if (s == T.NULL) throw new Folds.Fails("null");
          if (!s.is("str") || b.k[1] != T.charset("UTF-8")) throw new Folds.Stuck("" + b);
          return ((String) s.a).getBytes(StandardCharsets.UTF_8);
        }
      case "nobytes":
        return new byte[0];
      case "bfill":
        {
          int n = num(b.k[1], env);
          if (n < 0) throw new Folds.Fails("an array of " + n);
          byte[] r = new byte[n];
          if (n > 0) Arrays.fill(r, (byte) num(b.k[0], env));
          return r;
        }
      case "alit":
        {
          byte[] r = new byte[b.k.length];
          for (int i = 0; i < r.length; i++) r[i] = (byte) num(b.k[i], env);
          return r;
        }
      case "sub":
        {
          byte[] r = block(b.k[0], env);
          int o = num(b.k[1], env), n = num(b.k[2], env);
          if (o < 0 || n < 0 || o + n > r.length) throw new Folds.Fails("bytes " + o + " to " + (o + n) + " of " + r.length);
          return Arrays.copyOfRange(r, o, o + n);
        }
      case "astore":
        {
          byte[] r = block(b.k[0], env).clone();
          int i = num(b.k[1], env);
          if (i < 0 || i >= r.length) throw new Folds.Fails("byte " + i + " of " + r.length);
          r[i] = (byte) num(b.k[2], env);
          return r;
        }
      case "arep":
        {
          byte[] r = block(b.k[0], env).clone();
          int n = num(b.k[2], env);
          for (int j = 0; j < n; j++) {
            Map<T, T> in = with(env, b.k[3], T.num(j));
            int i = num(b.k[1], in);
            if (i < 0 || i >= r.length) throw new Folds.Fails("byte " + i + " of " + r.length);
            r[i] = (byte) num(b.k[4], in);
          }
          return r;
        }
      case "gamma":
        {
          T c = go(b.k[0], env);
          if (c == T.TRUE || c == T.FALSE) return block(c == T.TRUE ? b.k[1] : b.k[2], env);
          throw new Folds.Stuck("" + c);
        }
      case "bcat":
        {
          byte[] r = new byte[0];
          for (T k : b.k) {
            byte[] n = block(k, env);
            r = Arrays.copyOf(r, r.length + n.length);
            System.arraycopy(n, 0, r, r.length - n.length, n.length);
          }
          return r;
        }
      default:
        throw new Folds.Stuck("" + b);
    }
  }

  private void put(byte[] b, int where, boolean grow) {
    if (where < 0 || where + b.length > 4000 || !grow && where + b.length > 3000) throw new Folds.Fails("writes outside the buffer");
    System.arraycopy(b, 0, out, where, b.length);
  }

  private void trace(List<Eff> l, Map<T, T> env) {
    for (Eff e : l) {
      tick();
      switch (e.kind) {
        case "CHO":
          {
            T c = go(e.cond, env);
            if (c != T.TRUE && c != T.FALSE) throw new Folds.Stuck("" + c);
            trace(c == T.TRUE ? e.a : e.b, env);
            break;
          }
        case "W":
        case "SETAT":
          {
            if (e.width == 0 || e.width > 64 && e.val != T.ZERO) throw new Folds.Stuck(e.kind);
            T v = go(e.val, env);
            if (!v.isNum()) throw new Folds.Stuck("" + v);
            byte[] b = new byte[e.width / 8];
            for (int i = 0; i < b.length; i++) b[e.little ? i : b.length - 1 - i] = (byte) (i < 8 ? v.n() >> 8 * i : 0);
            if (e.is("W")) {
              put(b, at, true);
              at += b.length;
            } else put(b, num(e.pos0, env) - START, false);
            break;
          }
        case "WB":
          {
            byte[] b = block(e.val, env);
            put(b, at, true);
            at += b.length;
            break;
          }
        case "SEEK":
          if (!e.name.equals("w")) throw new Folds.Stuck(e.kind);
          at = num(e.pos0, env) - START;
          if (at < 0) throw new Folds.Fails("moves before the start");
          break;
        case "REP":
          {
            int n = num(e.trip, env);
            Eval.LoopInfo li = ev.loops.get("" + e.loop);
            List<T> s = new ArrayList<>();
            if (li != null) for (T i : li.inits) s.add(go(i, env));
            for (int r = 0; r < n; r++) {
              Map<T, T> in = li != null ? round(li, s, r, env) : with(env, e.idx, T.num(r));
              if (e.idx != null) in.put(e.idx, T.num(r));
              trace(e.a, in);
              if (li != null) s = step(li, in);
            }
            break;
          }
        case "DEREF":
          if (go(e.obj, env) == T.NULL) throw new Folds.Fails("goes through null");
          break;
        case "THROW":
          throw new Folds.Fails("throws " + e.name);
        case "TRY":
          if (Eff.anyOf(e.a, x -> x.is("THROW"))) throw new Folds.Stuck("try");
          trace(e.a, env);
          break;
        case "UNK":
          if (e.val == null) throw new Folds.Stuck(e.name);
          put(block(e.val, env), num(e.pos0, env) - START, false);
          break;
        case "FSET":
        case "AMUT":
        case "LMUT":
        case "ALLOC":
        case "CAST":
        case "OBJCALL":
          break;
        default:
          throw new Folds.Stuck(e.kind);
      }
    }
  }

  /** a text and a width for which what is written differs from the field expected, or null */
  static String miswritten(Eval ev, Eval.Summary s, boolean width, boolean content) {
    T buf = s.args.get(0);
    int stuck = 0;
    List<String> texts = new ArrayList<>(Arrays.asList(null, "", "a", "ab", "é", "aé", " a ", "0", "日本", "\t"));
    for (int n : new int[] {3, 7, 8, 9, 12, 33}) texts.add("abcdefghijklmnopqrstuvwxyz0123456789".substring(0, n));
    texts.add("é".repeat(9));
    for (int len : new int[] {1, 2, 3, 4, 5, 8, 9, 10, 12, 16, 20, 33, 64, 70, 300})
      for (String w : texts)
        for (int pc : new int[] {' ', '0', 'x'})
          for (boolean left : new boolean[] {true, false}) {
            Texts x = new Texts(ev);
            x.given.put(s.args.get(1), w == null ? T.NULL : T.str(w));
            x.given.put(s.args.get(2), T.num(len));
            x.given.put(s.args.get(3), T.num(pc));
            x.given.put(s.args.get(4), T.bool(left));
            x.given.put(T.mk("cursor0", "r", buf), T.num(3));
            x.given.put(T.mk("avail", null, buf), T.num(START - 3));
            x.out = new byte[5000];
            byte[] enc = w == null ? new byte[0] : w.getBytes(StandardCharsets.UTF_8), want = new byte[len];
            int n = Math.min(len, enc.length);
            Arrays.fill(want, (byte) pc);
            System.arraycopy(enc, 0, want, left ? len - n : 0, n);
            String of = show(w) + " in a field of " + len + " padded on the " + (left ? "left" : "right") + " with " + show("" + (char) pc);
            try {
              x.trace(s.tr, Map.of());
            } catch (Folds.Fails e) {
              return "fails (" + e.getMessage() + ") for " + of;
            } catch (Folds.Stuck e) {
              if (++stuck > 20) return null;
              continue;
            }
            if (width && x.at != len) return "writes " + x.at + " bytes for " + of;
            byte[] got = Arrays.copyOf(x.out, len);
            if (content && x.at == len && !Arrays.equals(got, want)) return "writes " + show(new String(got, StandardCharsets.UTF_8)) + " for " + of;
          }
    return null;
  }

  private void tick() {
    if (++steps > 20000) throw new Folds.Stuck("too long");
  }

  private Map<T, T> round(Eval.LoopInfo li, List<T> s, long r, Map<T, T> env) {
    tick();
    Map<T, T> in = new HashMap<>(env);
    if (li.idx != null) in.put(li.idx, T.num(r));
    for (int i = 0; i < s.size(); i++) in.put(li.phis.get(i), s.get(i));
    return in;
  }

  private List<T> step(Eval.LoopInfo li, Map<T, T> in) {
    List<T> z = new ArrayList<>();
    for (T t : li.steps) z.add(go(t, in));
    return z;
  }

  /** the operands have no order here: one that decides counts even where another one fails */
  private T junction(T x, Map<T, T> env) {
    T end = x.is("and") ? T.FALSE : T.TRUE;
    RuntimeException no = null;
    List<T> l = new ArrayList<>();
    for (T k : x.k) {
      try {
        T v = go(k, env);
        if (v == end) return end;
        l.add(v);
      } catch (Folds.Fails | Folds.Stuck e) {
        if (no == null || e instanceof Folds.Stuck) no = e;
      }
    }
    if (no != null) throw no;
    T r = l.get(0);
    for (int i = 1; i < l.size(); i++) r = x.is("and") ? T.and(r, l.get(i)) : T.or(r, l.get(i));
    return r;
  }

  /** methods of String, on constants */
  private static T plain(String n, T[] k) {
    if (k.length == 0 || !k[0].is("str")) return null;
    String s = (String) k[0].a;
    Object a = k.length > 1 ? arg(k[1]) : null, b = k.length > 2 ? arg(k[2]) : null;
    switch (n) {
      case "String.indexOf":
      case "String.lastIndexOf":
        {
          boolean last = n.endsWith("lastIndexOf");
          if (k.length > 3 || a == null || k.length == 3 && !(b instanceof Long)) return null;
          String w = a instanceof Long ? new String(Character.toChars((int) (long) (Long) a)) : (String) a;
          int from = k.length == 3 ? (int) (long) (Long) b : last ? s.length() : 0;
          return T.num(last ? s.lastIndexOf(w, from) : s.indexOf(w, from));
        }
      case "String.replace":
        if (a == null || b == null) return null;
        return T.str(s.replace(chars(a), chars(b)));
      case "String.replaceAll":
      case "String.replaceFirst":
        if (!(a instanceof String) || !(b instanceof String)) return null;
        try {
          return T.str(n.endsWith("All") ? s.replaceAll((String) a, (String) b) : s.replaceFirst((String) a, (String) b));
        } catch (RuntimeException e) {
          throw new Folds.Fails(n);
        }
      case "String.contains":
        return a instanceof String ? T.bool(s.contains((String) a)) : null;
      case "String.startsWith":
        return a instanceof String && k.length == 2 ? T.bool(s.startsWith((String) a)) : null;
      case "String.endsWith":
        return a instanceof String ? T.bool(s.endsWith((String) a)) : null;
      case "String.matches":
        return a instanceof String ? T.bool(s.matches((String) a)) : null;
      case "String.repeat":
        return a instanceof Long && (Long) a >= 0 && (Long) a < 1000 ? T.str(s.repeat((int) (long) (Long) a)) : null;
      case "String.compareTo":
        return a instanceof String ? T.num(s.compareTo((String) a)) : null;
      default:
        return null;
    }
  }

  private static String chars(Object o) {
    return o instanceof Long ? String.valueOf((char) (long) (Long) o) : (String) o;
  }

  private static Object arg(T t) {
    return t.isNum() ? (Object) t.n() : t.is("str") ? t.a : null;
  }

  /** a text for which the trimmed result differs from the one expected, or null */
  static String untrimmed(Eval ev, T v, T text, T bytes, T len, T pad, boolean left) {
    int[] pads = {' ', '0', 'x', 0};
    for (int pc : pads) {
      char[] al = {(char) pc, 'a', ' ', 0, '\t', '0'};
      for (String w : words(al, 3)) for (String body : new String[] {w, w + "b", "b" + w, w + "é" + w, w + (char) pc + (char) pc + (char) pc + (char) pc + (char) pc}) {
        if (body.isEmpty()) continue;
        Texts x = new Texts(ev);
        x.given.put(text, T.str(body));
        x.given.put(len, T.num(body.getBytes(StandardCharsets.UTF_8).length));
        x.given.put(pad, T.num(pc));
        x.bytes = bytes;
        x.raw = body.getBytes(StandardCharsets.UTF_8);
        int from = 0, to = body.length();
        if (left) while (from < to && body.charAt(from) == pc) from++;
        else while (to > from && body.charAt(to - 1) == pc) to--;
        String want = body.substring(from, to), got;
        try {
          got = x.text(v);
        } catch (Folds.Fails e) {
          return "fails (" + e.getMessage() + ") for " + show(body) + " padded with " + show("" + (char) pc);
        } catch (Folds.Stuck e) {
          continue;
        }
        if (!want.equals(got)) return "makes " + show(got) + " of " + show(body) + " padded with " + show("" + (char) pc);
      }
    }
    return null;
  }

  private static String show(String s) {
    return s == null ? "null" : "\"" + s.replace("\0", "\\0").replace("\t", "\\t") + "\"";
  }

  private static List<String> words(char[] al, int n) {
    List<String> l = new ArrayList<>(List.of("")), cur = l;
    for (int i = 0; i < n; i++) {
      List<String> next = new ArrayList<>();
      for (String s : cur) for (char c : al) next.add(s + c);
      l = new ArrayList<>(l);
      l.addAll(next);
      cur = next;
    }
    return new ArrayList<>(new LinkedHashSet<>(l));
  }
}
