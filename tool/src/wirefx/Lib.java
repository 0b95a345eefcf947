package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import com.sun.tools.javac.tree.JCTree;
import com.sun.tools.javac.tree.JCTree.*;
import java.util.*;
import java.util.regex.*;

/** Summaries of the library calls the repository's code makes or could be rewritten to make. */
final class Lib {
  final Eval ev;

  Lib(Eval ev) {
    this.ev = ev;
    streams = new Streams(this, ev);
  }

  final Streams streams;

  // ------------------------------------------------------------------ buffers

  T cur(St st, String rw, T buf) {
    T c = T.mk("cur", rw, buf);
    T v = st.cells.get(c);
    if (v != null) return v;
    T r0 = T.mk("cursor0", "r", buf);
    return rw.equals("r") ? r0 : T.add(r0, T.mk("avail", null, buf));
  }

  void setCur(St st, String rw, T buf, T v) {
    st.cells.put(T.mk("cur", "r", buf), cur(st, "r", buf));
    st.cells.put(T.mk("cur", "w", buf), cur(st, "w", buf));
    st.cells.put(T.mk("cur", rw, buf), v);
  }

  /** absolute position in the buffer the view was taken of */
  static T abs(T buf, T pos) {
    while (buf.is("view")) {
      if (((String) buf.a).startsWith("slice")) pos = T.add(pos, buf.k[1]);
      buf = buf.k[0];
    }
    return pos;
  }

  /** told of every number read, when set */
  java.util.function.Consumer<Eff> onRead;

  static T root(T buf) {
    while (buf.is("view")) buf = buf.k[0];
    return buf;
  }

  Eff eff(String k, String pos, T buf, St st) {
    T o = buf == null ? null : root(buf.is("leview") ? buf.k[0] : buf);
    if (Scratch.is(o) && ev.isStaticObj(o) && !ev.inStatic && (k.startsWith("W") || k.equals("ENC") || k.equals("SETAT") || k.equals("BUFOP"))) {
      // everyone who works in this buffer sees it
      Eff w = new Eff("SWRITE", pos);
      w.obj = o;
      w.name = "buffer contents";
      st.tr.add(w);
    }
    if (o != null && in(k, "W", "WB", "WFIX", "ENC", "SETAT", "COPYBUF")) writes.merge(o, 1, Integer::sum);
    Eff e = new Eff(k, pos);
    e.buf = buf;
    st.tr.add(e);
    return e;
  }

  /** how often each buffer has been written to, and where that stood when a copy was taken of it */
  final Map<T, Integer> writes = new HashMap<>(), copyAt = new HashMap<>();

  /** a copy that still equals what it was taken of */
  private boolean current(T b) {
    for (T v = b; v.is("view"); v = v.k[0]) if (copyAt.containsKey(v) && copyAt.get(v) != writes.getOrDefault(root(v), 0).intValue()) return false;
    return true;
  }

  private static boolean in(String k, String... l) {
    return Arrays.asList(l).contains(k);
  }

  T wint(St st, T buf, int w, boolean le, T v, String pos) {
    T low = v;
    while (low.is("ext") && Math.abs((Integer) low.a) >= w) low = low.k[0];
    if (low.is("bswap") && (Integer) low.a == w) return wint(st, buf, w, !le, low.k[0], pos);
    // through a view, bytes of the buffer are replaced; its own writer stays where it is
    boolean through = buf.is("view") && root(buf).is("param");
    Eff e = eff(through ? "SETAT" : "W", pos, through ? root(buf) : buf, st);
    e.width = w;
    e.little = le;
    e.val = v;
    e.pos0 = cur(st, "w", buf);
    if (through) {
      setCur(st, "w", buf, T.add(e.pos0, T.num(w / 8)));
      e.pos0 = abs(buf, e.pos0);
      return buf;
    }
    setCur(st, "w", buf, T.add(e.pos0, T.num(w / 8)));
    return buf;
  }

  T wbytes(St st, T buf, T bytes, String pos) {
    if (bytes.is("gamma")) {
      T b = bytes;
      ev.branch(st, b.k[0], s -> wbytes(s, buf, b.k[1], pos), s -> wbytes(s, buf, b.k[2], pos), pos);
      return buf;
    }
    if (bytes.is("nobytes")) return buf;
    T from = copied.get(bytes);
    if (from != null && !st.tr.isEmpty()) {
      Eff q = eff("COPYBUF", pos, buf, st);
      q.obj = from;
      q.pos0 = cur(st, "w", buf);
      q.len = T.blen(bytes);
      setCur(st, "w", buf, T.add(q.pos0, q.len));
      return buf;
    }
    Eff e = eff("WB", pos, buf, st);
    e.val = bytes;
    e.len = T.blen(bytes);
    e.pos0 = cur(st, "w", buf);
    setCur(st, "w", buf, T.add(e.pos0, e.len));
    return buf;
  }

  /** bytes in the other order; of a number just read: the number read in the other order */
  T swap(int w, JCExpression e, T x, St st) {
    T y = x;
    while (y.is("ext") && Math.abs((Integer) y.a) >= w) y = y.k[0];
    Eff l = st.tr.isEmpty() ? null : st.tr.get(st.tr.size() - 1);
    JCExpression a = e instanceof JCMethodInvocation && ((JCMethodInvocation) e).args.size() == 1 ? ((JCMethodInvocation) e).args.head : null;
    if (l != null && l.is("RD") && l.res == y && l.width == w && a instanceof JCMethodInvocation) {
      l.little = !l.little;
      return T.ext(w, true, y);
    }
    return T.bswap(w, x);
  }

  T rint(St st, T buf, int w, boolean le, boolean signed, String pos) {
    int id = T.freshId();
    Eff e = eff("RD", pos, buf, st);
    e.width = w;
    e.little = le;
    e.pos0 = cur(st, "r", buf);
    T rd = T.mk("rd", id);
    e.res = rd;
    setCur(st, "r", buf, T.add(e.pos0, T.num(w / 8)));
    if (onRead != null) onRead.accept(e);
    return T.ext(w, signed, rd);
  }

  T rbytes(St st, T buf, T len, String pos) {
    int id = T.freshId();
    Eff e = eff("RB", pos, buf, st);
    e.len = len;
    e.pos0 = cur(st, "r", buf);
    e.res = T.mk("rbytes", "#" + id, len);
    if (Scratch.is(buf) && e.pos0 == T.ZERO && len == cur(st, "w", buf)) copied.put(e.res, buf);
    setCur(st, "r", buf, T.add(e.pos0, len));
    return e.res;
  }

  /** arrays of bytes that hold all of a scratch buffer */
  final Map<T, T> copied = new HashMap<>();

  T view(St st, String kind, T buf, T off, T len) {
    T v = T.mk("view", kind + "#" + T.freshId(), buf, off);
    if (kind.equals("slice")) {
      st.cells.put(T.mk("cur", "r", v), T.ZERO);
      st.cells.put(T.mk("cur", "w", v), len);
    } else {
      st.cells.put(T.mk("cur", "r", v), cur(st, "r", buf));
      st.cells.put(T.mk("cur", "w", v), cur(st, "w", buf));
    }
    return v;
  }

  static final Pattern NUMOP =
      Pattern.compile(
          "(read|write|get|set)(Unsigned)?(Byte|Short|Medium|Int|Long|Char|Float|Double|Boolean)(LE)?");

  static int bits(String t) {
    switch (t) {
      case "Byte":
      case "Boolean":
        return 8;
      case "Short":
      case "Char":
        return 16;
      case "Medium":
        return 24;
      case "Int":
      case "Float":
        return 32;
      default:
        return 64;
    }
  }

  T buf(String n, T b, List<T> as, JCExpression e, St st, Eval.Frame f, String pos) {
    if (b.is("gamma"))
      return ev.choose(st, b.k[0], s -> buf(n, b.k[1], as, e, s, f, pos), s -> buf(n, b.k[2], as, e, s, f, pos), pos);
    if (!current(b)) {
      eff("UNK", pos, null, st).name = "a copy of a buffer that has been written to since";
      return T.opaque("copy");
    }
    if (copyAt.containsKey(b) && n.matches("(set|write).*")) {
      eff("UNK", pos, null, st).name = "writes into a copy";
      return T.opaque("copy");
    }
    if (n.equals("order") && as.size() == 1) {
      // a view in the other byte order; it shares content and cursors
      String o = as.get(0).toString();
      T u = b.is("leview") ? b.k[0] : b;
      if (o.contains("ByteOrder.LITTLE_ENDIAN")) return T.mk("leview", null, u);
      if (o.contains("ByteOrder.BIG_ENDIAN")) return u;
      if (as.get(0).is("gamma"))
        return ev.choose(st, as.get(0).k[0], s -> buf(n, b, List.of(as.get(0).k[1]), e, s, f, pos), s -> buf(n, b, List.of(as.get(0).k[2]), e, s, f, pos), pos);
      if (as.get(0).is("env")) return T.gamma(T.objEq(as.get(0), T.mk("libobj", "little-endian")), T.mk("leview", null, u), u);
    }
    if (n.equals("order") && as.isEmpty()) return T.mk("libobj", b.is("leview") ? "java.nio.ByteOrder.LITTLE_ENDIAN" : "java.nio.ByteOrder.BIG_ENDIAN");
    if (b.is("leview")) {
      Matcher o = NUMOP.matcher(n);
      String t = o.matches() && o.group(4) == null && bits(o.group(3)) > 8 ? n + "LE" : n;
      T r = buf(t, b.k[0], as, e, st, f, pos);
      return r == b.k[0] ? b : r != null && r.is("view") ? T.mk("leview", null, r) : r;
    }
    Matcher m = NUMOP.matcher(n);
    if (m.matches()) {
      String t = m.group(3);
      int w = bits(t);
      boolean le = m.group(4) != null, uns = m.group(2) != null || t.equals("Char");
      boolean fl = t.equals("Float") || t.equals("Double");
      switch (m.group(1)) {
        case "write":
          {
            T v = as.get(0);
            if (t.equals("Boolean")) v = T.gamma(v, T.ONE, T.ZERO);
            if (fl) v = T.fbits(w, v);
            return wint(st, b, w, le, v, pos);
          }
        case "read":
          {
            T v = rint(st, b, w, le, !uns, pos);
            if (fl) return T.bitsf(w, v);
            if (t.equals("Boolean")) return T.not(T.eq0(v));
            return v;
          }
        case "set":
          {
            T v = as.get(1);
            if (t.equals("Boolean")) v = T.gamma(v, T.ONE, T.ZERO);
            if (fl) v = T.fbits(w, v);
            boolean through = b.is("view") && root(b).is("param");
            Eff q = eff("SETAT", pos, through ? root(b) : b, st);
            q.pos0 = through ? abs(b, as.get(0)) : as.get(0);
            q.width = w;
            q.little = le;
            q.val = v;
            return b;
          }
        default:
          {
            T r = T.mk("getb", w == 8 ? null : w + (le ? "LE" : "BE"), root(b), abs(b, as.get(0)));
            if (w == 8) {
              if (t.equals("Boolean")) return T.not(T.eq0(r));
              return uns ? r : T.ext(8, true, r);
            }
            r = T.mk("getn", w + (le ? "LE" : "BE"), root(b), abs(b, as.get(0)));
            return fl ? T.bitsf(w, r) : T.ext(w, !uns, r);
          }
      }
    }
    switch (n) {
      case "writerIndex":
      case "readerIndex":
        {
          String rw = n.startsWith("w") ? "w" : "r";
          if (as.isEmpty()) return cur(st, rw, b);
          T c = cur(st, rw, b);
          T d = T.sub(as.get(0), c);
          if (d == T.ZERO) return b;
          if (rw.equals("r") && d.isNum() && d.n() > 0) {
            Eff q = eff("SKIP", pos, b, st);
            q.len = d;
            q.pos0 = c;
          } else if (!b.is("view")) {
            // a view has positions of its own
            Eff q = eff("SEEK", pos, b, st);
            q.name = rw;
            q.pos0 = as.get(0);
            q.val = c;
          }
          setCur(st, rw, b, as.get(0));
          return b;
        }
      case "setIndex":
        {
          if (!b.is("view")) {
            Eff q = eff("SEEK", pos, b, st);
            q.name = "rw";
            q.pos0 = as.get(1);
            q.val = as.get(0);
          }
          setCur(st, "r", b, as.get(0));
          setCur(st, "w", b, as.get(1));
          return b;
        }
      case "markReaderIndex":
      case "markWriterIndex":
        st.cells.put(T.mk("mark", n.substring(4, 5), b), cur(st, n.charAt(4) == 'R' ? "r" : "w", b));
        return b;
      case "resetReaderIndex":
      case "resetWriterIndex":
        {
          T mk = st.cells.get(T.mk("mark", n.substring(5, 6), b));
          if (mk == null) mk = T.opaque("mark");
          String rw = n.charAt(5) == 'R' ? "r" : "w";
          if (!b.is("view")) {
            Eff q = eff("SEEK", pos, b, st);
            q.name = rw;
            q.pos0 = mk;
            q.val = cur(st, rw, b);
          }
          setCur(st, rw, b, mk);
          return b;
        }
      case "readableBytes":
        return T.sub(cur(st, "w", b), cur(st, "r", b));
      case "isReadable":
        {
          T d = T.sub(cur(st, "w", b), cur(st, "r", b));
          return as.isEmpty() ? T.gt0(d) : T.gt0(T.add(T.sub(d, as.get(0)), T.ONE));
        }
      case "writableBytes":
      case "maxWritableBytes":
      case "capacity":
      case "maxCapacity":
        if (as.isEmpty()) return T.mk("bufprop", n, b);
        eff("BUFOP", pos, b, st).name = n;
        return b;
      case "isWritable":
        return T.mk("typed", n + ":boolean", b);
      case "ensureWritable":
        return b;
      case "alloc":
        return T.mk("libobj", "alloc");
      case "refCnt":
      case "isDirect":
      case "hasArray":
      case "arrayOffset":
      case "isReadOnly":
      case "nioBufferCount":
        return T.mk("bufprop", n + ":" + (n.startsWith("is") || n.startsWith("has") ? "boolean" : "int"), b);
      case "skipBytes":
        {
          Eff q = eff("SKIP", pos, b, st);
          q.len = as.get(0);
          q.pos0 = cur(st, "r", b);
          setCur(st, "r", b, T.add(q.pos0, q.len));
          return b;
        }
      case "writeZero":
        {
          T k = as.get(0);
          if (k.isNum() && (k.n() == 1 || k.n() == 2 || k.n() == 4 || k.n() == 8))
            return wint(st, b, (int) k.n() * 8, false, T.ZERO, pos);
          return wbytes(st, b, T.mk("bfill", ":byte", T.ZERO, k), pos);
        }
      case "writeBytes":
        {
          T x = as.get(0);
          if (x.is("leview")) x = x.k[0];
          if (isBuf(e, 0)) {
            T src = root(x), sr = src == x && Scratch.is(x) ? cur(st, "r", x) : null, sw = sr == null ? null : cur(st, "w", x);
            if (Scratch.is(src) && src != x && abs(x, cur(st, "r", x)) == T.ZERO && abs(x, cur(st, "w", x)) == cur(st, "w", src)) {
              sr = T.ZERO;
              sw = cur(st, "w", src);
            }
            if (sr != null && (as.size() == 1 && sr == T.ZERO || as.size() == 2 && sr == T.ZERO && as.get(1) == sw || as.size() == 3 && as.get(1) == T.ZERO && as.get(2) == sw)) {
              Eff q = eff("COPYBUF", pos, b, st);
              q.obj = src;
              q.pos0 = cur(st, "w", b);
              q.len = sw;
              setCur(st, "w", b, T.add(q.pos0, sw));
              if (as.size() < 3) setCur(st, "r", x, cur(st, "w", x));
              return b;
            }
            if (Scratch.is(src) && src == x && !ev.isStaticObj(src) && as.size() >= 2 && !Wire.opaque(as.get(as.size() - 1))) {
              // a part of it
              T off = as.size() == 2 ? sr : as.get(1), len = as.get(as.size() - 1);
              if (as.size() == 2) setCur(st, "r", x, T.add(sr, len));
              return wbytes(st, b, T.mk("bufpart", null, src, off, len), pos);
            }
            Eff q = eff("UNK", pos, b, st);
            q.name = "writeBytes(ByteBuf)";
            setCur(st, "w", b, T.add(cur(st, "w", b), T.opaque("copied")));
            return b;
          }
          T c = ev.content(st, "arr", x);
          if (as.size() == 3) return wpart(st, b, c, as.get(1), as.get(2), pos);
          if (as.size() == 1) return wbytes(st, b, c, pos);
          return null;
        }
      case "setBytes":
        {
          Eff q = eff("UNK", pos, b, st);
          q.name = "setBytes";
          if (e != null && isArr(e, 1) && (as.size() == 2 || as.size() == 4)) {
            T c = ev.content(st, "arr", as.get(1));
            q.pos0 = abs(b, as.get(0));
            q.val = as.size() == 2 ? c : T.part(c, as.get(2), as.get(3));
          }
          return b;
        }
      case "setZero":
        {
          T k = as.get(1);
          Eff q = eff("SETAT", pos, b, st);
          q.pos0 = as.get(0);
          q.width = k.isNum() ? (int) k.n() * 8 : 0;
          q.val = T.ZERO;
          return b;
        }
      case "writeCharSequence":
        {
          T by = T.encstr(as.get(0), as.get(1));
          wbytes(st, b, by, pos);
          return T.blen(by);
        }
      case "readCharSequence":
        {
          T by = rbytes(st, b, as.get(0), pos);
          // ByteBuf.readCharSequence looks at the capacity only, not at the writer position
          st.tr.get(st.tr.size() - 1).name = "unchecked";
          return T.decstr(by, as.get(1));
        }
      case "getBytes":
        {
          if (!isArr(e, 1) || as.size() != 2 && as.size() != 4) return null;
          T c = ev.content(st, "arr", as.get(1));
          T n1 = as.size() == 2 ? T.blen(c) : as.get(3), off = as.size() == 2 ? T.ZERO : as.get(2);
          T by = T.mk("gbytes", null, root(b), abs(b, as.get(0)), n1);
          if (off == T.ZERO && n1 == T.blen(c)) ev.setContent(st, "arr", as.get(1), o -> by);
          else ev.setContent(st, "arr", as.get(1), o -> T.splice(o, off, by, T.ZERO, n1));
          arrWritten(st, as.get(1), pos);
          return b;
        }
      case "readBytes":
        {
          T x = as.get(0);
          if (as.size() == 1 && isInt(e, 0)) {
            T by = rbytes(st, b, x, pos);
            T v = T.mk("view", "slice#" + T.freshId(), T.mk("copy", null, by), T.ZERO);
            st.cells.put(T.mk("cur", "r", v), T.ZERO);
            st.cells.put(T.mk("cur", "w", v), x);
            viewBytes.put(v, by);
            return v;
          }
          if (isArr(e, 0) && (as.size() == 1 || as.size() == 3)) {
            T c = ev.content(st, "arr", x);
            T n1 = as.size() == 1 ? T.blen(c) : as.get(2);
            T off = as.size() == 1 ? T.ZERO : as.get(1);
            T by = rbytes(st, b, n1, pos);
            if (off == T.ZERO && n1 == T.blen(c)) ev.setContent(st, "arr", x, o -> by);
            else ev.setContent(st, "arr", x, o -> T.splice(o, off, by, T.ZERO, n1));
            arrWritten(st, x, pos);
            return b;
          }
          Eff q = eff("UNK", pos, b, st);
          q.name = "readBytes";
          return T.opaque("readBytes");
        }
      case "readSlice":
      case "readRetainedSlice":
        {
          T by = rbytes(st, b, as.get(0), pos);
          Eff re = st.tr.get(st.tr.size() - 1);
          T v = T.mk("view", "slice#" + T.freshId(), b, re.pos0);
          st.cells.put(T.mk("cur", "r", v), T.ZERO);
          st.cells.put(T.mk("cur", "w", v), as.get(0));
          viewBytes.put(v, by);
          re.obj = v;
          sliceRead.put(v, re);
          if (n.equals("readRetainedSlice")) eff("BUFOP", pos, b, st).name = "retain";
          return v;
        }
      case "toString":
        {
          if (as.size() == 1) {
            T by = viewBytes.get(b);
            if (by != null && cur(st, "r", b) == T.ZERO) {
              // taken as text as a whole: the bytes are content, not a buffer to read from
              if (sliceRead.containsKey(b)) sliceRead.get(b).obj = null;
              return T.decstr(by, as.get(0));
            }
            return T.mk("bufstr", null, root(b), abs(b, cur(st, "r", b)), T.sub(cur(st, "w", b), cur(st, "r", b)), as.get(0));
          }
          if (as.size() == 3) {
            // toString(index, length, charset): the text of bytes that are skipped or read elsewhere
            return T.mk("bufstr", null, root(b), abs(b, as.get(0)), as.get(1), as.get(2));
          }
          return T.opaque("buffer text");
        }
      case "getCharSequence":
        return T.mk("bufstr", null, root(b), abs(b, as.get(0)), as.get(1), as.get(2));
      case "slice":
        if (as.isEmpty()) return view(st, "slice", b, cur(st, "r", b), T.sub(cur(st, "w", b), cur(st, "r", b)));
        return view(st, "slice", b, as.get(0), as.get(1));
      case "forEachByte":
      case "forEachByteDesc":
        if (as.size() == 1 || as.size() == 3) {
          // shown to the processor one by one, until it says stop
          T from = as.size() == 1 ? cur(st, "r", b) : as.get(0), many = as.size() == 1 ? T.sub(cur(st, "w", b), from) : as.get(1), fn = as.get(as.size() - 1);
          boolean[] all = {true};
          ev.iterate(st, f, pos, T.trip(many), (x, i) -> {
            T at = n.equals("forEachByte") ? T.add(from, i) : T.sub(T.sub(T.add(from, many), T.ONE), i);
            T r = ev.closure(fn, List.of(T.ext(8, true, T.mk("getb", null, root(b), abs(b, at)))), x, pos);
            all[0] &= r == T.TRUE;
            x.brk = T.or(x.brk, T.not(r));
          });
          return all[0] ? T.num(-1) : T.opaque(n);
        }
        {
          Eff q = eff("UNK", pos, b, st);
          q.name = n;
          return T.opaque(n);
        }
      case "copy":
        if (as.isEmpty() || as.size() == 2) {
          T v = as.isEmpty() ? view(st, "slice", b, cur(st, "r", b), T.sub(cur(st, "w", b), cur(st, "r", b))) : view(st, "slice", b, as.get(0), as.get(1));
          copyAt.put(v, writes.getOrDefault(root(v), 0));
          return v;
        }
        {
          Eff q = eff("UNK", pos, b, st);
          q.name = n;
          return T.opaque(n);
        }
      case "retainedSlice":
      case "retainedDuplicate":
        eff("BUFOP", pos, b, st).name = "retain";
        return n.equals("retainedDuplicate") ? view(st, "dup", b, T.ZERO, null)
            : as.isEmpty() ? view(st, "slice", b, cur(st, "r", b), T.sub(cur(st, "w", b), cur(st, "r", b)))
            : view(st, "slice", b, as.get(0), as.get(1));
      case "duplicate":
      case "asReadOnly":
        return view(st, "dup", b, T.ZERO, null);
      case "release":
      case "retain":
      case "touch":
        if (copyAt.containsKey(b) || viewBytes.containsKey(b) && b.k[0].is("copy")) return n.equals("release") ? T.TRUE : b;
        eff("BUFOP", pos, b, st).name = n;
        return n.equals("release") ? T.opaque("released") : b;
      case "clear":
      case "discardReadBytes":
      case "discardSomeReadBytes":
        eff("BUFOP", pos, b, st).name = n;
        if (n.equals("clear")) {
          setCur(st, "r", b, T.ZERO);
          setCur(st, "w", b, T.ZERO);
        }
        return b;
      case "array":
        {
          // only buffers on the heap have one
          T has = T.mk("bufprop", "hasArray:boolean", b);
          ev.branch(st, has, x -> {}, x -> ev.throwIt(x, "java.lang.UnsupportedOperationException", pos), pos);
          return T.mk("backing", null, b);
        }
      case "nioBuffer":
        if (as.isEmpty()) return T.mk("nio", null, b, cur(st, "r", b), T.sub(cur(st, "w", b), cur(st, "r", b)));
        return T.mk("nio", null, b, as.get(0), as.get(1));
      case "unwrap":
        return b.is("view") ? b.k[0] : T.mk("bufprop", n, b);
      default:
        return null;
    }
  }

  final Map<T, T> viewBytes = new HashMap<>();
  final Map<T, Eff> sliceRead = new HashMap<>();

  /** an array that other objects can reach was written */
  private void arrWritten(St st, T o, String pos) {
    if (o.is("new") && (!ev.isStaticObj(o) || ev.inStatic)) return;
    Eff q = new Eff(ev.isStaticObj(o) ? "SWRITE" : "AMUT", pos);
    q.obj = o;
    q.name = "array element";
    st.tr.add(q);
  }

  private T wpart(St st, T b, T c, T off, T len, String pos) {
    if (len.is("gamma")) {
      T g = len;
      ev.branch(st, g.k[0], s -> wpart(s, b, c, off, g.k[1], pos), s -> wpart(s, b, c, off, g.k[2], pos), pos);
      return b;
    }
    return wbytes(st, b, T.part(c, off, len), pos);
  }

  private Type argType(JCExpression e, int i) {
    if (!(e instanceof JCMethodInvocation)) return null;
    List<JCExpression> l = ((JCMethodInvocation) e).args;
    return i < l.size() ? l.get(i).type : null;
  }

  private boolean isBuf(JCExpression e, int i) {
    Type t = argType(e, i);
    return t != null && t.tsym != null && t.tsym.flatName().toString().startsWith("io.netty.buffer");
  }

  private boolean isInt(JCExpression e, int i) {
    Type t = argType(e, i);
    return t != null && (t.isNumeric() || ev.ty(t).equals("Integer") || ev.ty(t).equals("Short"));
  }

  private boolean isArr(JCExpression e, int i) {
    Type t = argType(e, i);
    return t != null && ev.p.types.isArray(t);
  }

  // ------------------------------------------------------------------ leaves of message codecs

  T nested(String n, T obj, T buf, St st, String pos, Type rtype) {
    int id = T.freshId();
    if (n.equals("encode")) {
      Eff e = eff("ENC", pos, buf, st);
      e.obj = obj;
      e.pos0 = cur(st, "w", buf);
      e.res = T.mk("sizeof", id);
      e.name = known(obj, rtype);
      setCur(st, "w", buf, T.add(e.pos0, e.res));
    } else {
      Eff e = eff("DEC", pos, buf, st);
      e.obj = obj;
      e.pos0 = cur(st, "r", buf);
      e.res = T.mk("dsize", id);
      e.name = known(obj, rtype);
      setCur(st, "r", buf, T.add(e.pos0, e.res));
      List<T> drop = new ArrayList<>();
      for (T c : st.cells.keySet()) if (c.is("heap") && c.k[0] == obj) drop.add(c);
      for (T c : drop) st.cells.remove(c);
      if (obj.is("new")) st.cells.put(T.mk("decoded", null, obj), T.TRUE);
    }
    return T.UNIT;
  }

  /** the most specific class known for a receiver */
  private String known(T o, Type rtype) {
    String d = rtype == null ? "" : ev.ty(rtype), v = o.is("fld") || o.is("get") || o.is("param") ? o.vtype() : null;
    if (v == null || v.equals(d)) return d;
    ClassSymbol a = ev.p.byName.get(v), b = ev.p.byName.get(d);
    return a != null && (b == null || ev.p.types.isSubtype(ev.p.types.erasure(a.type), ev.p.types.erasure(b.type))) ? v : d;
  }

  T fixed(MethodSymbol m, List<T> as, St st, String pos) {
    T buf = as.get(0);
    if (buf.is("leview")) buf = buf.k[0];
    if (m.name.contentEquals("writeFixedString")) {
      Eff e = eff("WFIX", pos, buf, st);
      e.val = as.get(1);
      e.len = as.get(2);
      e.cond = null;
      e.name = padName(as.get(3)) + (as.get(4) == T.TRUE ? " left" : as.get(4) == T.FALSE ? " right" : " " + as.get(4));
      e.pos0 = cur(st, "w", buf);
      setCur(st, "w", buf, T.add(e.pos0, e.len));
      return T.UNIT;
    }
    Eff e = eff("RFIX", pos, buf, st);
    e.len = as.get(1);
    e.name = padName(as.get(2)) + (as.get(3) == T.TRUE ? " left" : as.get(3) == T.FALSE ? " right" : " " + as.get(3));
    e.pos0 = cur(st, "r", buf);
    e.res = T.mk("rfix", "#" + T.freshId());
    setCur(st, "r", buf, T.add(e.pos0, e.len));
    return e.res;
  }

  static String padName(T p) {
    if (p.isNum()) {
      char c = (char) p.n();
      if (c == 0) return "pad:NUL";
      if (c == ' ') return "pad:SP";
      if (c > 32 && c < 127) return "pad:'" + c + "'";
      return "pad:" + (int) c;
    }
    return "pad:" + p;
  }

  T service(MethodSymbol m, T svc, List<T> as, JCExpression x, St st, String pos) {
    if (m.name.contentEquals("calc")) {
      T b = as.get(0);
      if (b.is("gamma"))
        return ev.choose(st, b.k[0], s -> service(m, svc, List.of(b.k[1]), x, s, pos), s -> service(m, svc, List.of(b.k[2]), x, s, pos), pos);
      if (!current(b)) {
        eff("UNK", pos, null, st).name = "a copy of a buffer that has been written to since";
        return T.opaque("calc");
      }
      Eff e = eff("CALC", pos, b, st);
      e.obj = svc;
      e.buf = root(b);
      e.pos0 = abs(b, cur(st, "r", b));
      e.len = T.sub(cur(st, "w", b), cur(st, "r", b));
      e.res = T.mk("calc", T.freshId());
      if (x != null && x.type != null) T.CALCTY.put(e.res.a, ev.ty(x.type));
      return e.res;
    }
    if (m.name.contentEquals("algorithm")) return T.mk("algo", null, svc);
    return null;
  }

  T enumStatic(MethodSymbol m, List<T> as, St st, String pos) {
    ClassSymbol c = (ClassSymbol) m.owner;
    if (!c.isEnum() || ev.p.methods.get(m) != null && ev.p.methods.get(m).body != null) return null;
    if (m.name.contentEquals("values")) {
      ev.init(c);
      List<T> l = new ArrayList<>();
      for (JCTree t : ev.p.classes.get(c).defs)
        if (t instanceof JCVariableDecl && (((JCVariableDecl) t).sym.flags() & Flags.ENUM) != 0)
          l.add(ev.get(st, T.mk("sfield", ev.fkey(((JCVariableDecl) t).sym))));
      T arr = T.mk("new", "array#" + T.freshId());
      st.cells.put(T.mk("arr", null, arr), T.mk("alit", null, l.toArray(new T[0])));
      return arr;
    }
    return T.pure( "valueOf", as.toArray(new T[0]));
  }

  // ------------------------------------------------------------------ objects

  T staticField(String q, VarSymbol v, St st) {
    switch (q) {
      case "java.nio.charset.StandardCharsets.UTF_8":
      case "io.netty.util.CharsetUtil.UTF_8":
        return T.charset("UTF-8");
      case "java.nio.charset.StandardCharsets.US_ASCII":
      case "io.netty.util.CharsetUtil.US_ASCII":
        return T.charset("US-ASCII");
      case "java.nio.charset.StandardCharsets.ISO_8859_1":
      case "io.netty.util.CharsetUtil.ISO_8859_1":
        return T.charset("ISO-8859-1");
      case "java.lang.Boolean.TRUE":
        return T.TRUE;
      case "java.lang.Boolean.FALSE":
        return T.FALSE;
      case "io.netty.buffer.Unpooled.EMPTY_BUFFER":
        return T.mk("emptybuf", null);
      default:
        if (q.startsWith("java.nio.charset.") || q.startsWith("io.netty.util.CharsetUtil."))
          return T.charset(q.substring(q.lastIndexOf('.') + 1).replace('_', '-'));
        return T.mk("sfld", q + ":" + ev.ty(v.type));
    }
  }

  static boolean listClass(String c) {
    return c.equals("java.util.ArrayList") || c.equals("java.util.LinkedList") || c.equals("java.util.Vector")
        || c.equals("java.util.concurrent.CopyOnWriteArrayList");
  }

  private void put(T o, T c, T k, T v, St st, String pos) {
    T m = T.mk("mput", null, c, k, v);
    st.cells.put(T.mk("map", null, o), m);
    String cn = ev.className(o);
    ClassSymbol cs = cn == null ? null : ev.p.byName.get(cn);
    MethodSymbol evict = cs == null ? null : ev.p.method(cs, "removeEldestEntry", "*");
    if (evict == null || !ev.p.methods.containsKey(evict)) return;
    // which entry goes depends on the history: any may
    T full = ev.invoke(evict, o, List.of(T.mk("ment", null, m)), st, pos, true);
    st.cells.put(T.mk("map", null, o), T.gamma(full, T.mk("mempty", null), m));
  }

  static boolean mapClass(String c) {
    return c.startsWith("java.util.") && c.endsWith("Map");
  }

  T newObject(String c, JCNewClass e, List<T> as, St st, Eval.Frame f, String pos) {
    T o = T.mk("new", c + "#" + T.freshId());
    if (ev.inStatic) ev.staticObjs.add(o);
    if (listClass(c) || Streams.setClass(c)) {
      T con = T.mk("lempty", null);
      if (as.size() == 1) {
        Type t = e == null || e.args.isEmpty() ? null : e.args.head.type;
        if (t != null && !t.isNumeric()) con = ev.lst(st, as.get(0));
        else {
          Eff a = new Eff("ALLOC", pos);
          a.len = as.get(0);
          a.name = "list";
          st.tr.add(a);
        }
      }
      st.cells.put(T.mk("lst", null, o), con);
      return o;
    }
    if (mapClass(c)) {
      T init = T.mk("mempty", null);
      Type t = e == null || e.args.isEmpty() ? null : e.args.head.type;
      if (c.equals("java.util.WeakHashMap")) init = T.mk("mempty", "weak");
      else if (c.equals("java.util.IdentityHashMap")) init = T.mk("mempty", "ident");
      else if (as.size() == 1 && t != null && !t.isNumeric()) {
        String tn = t.tsym.flatName().toString();
        if (mapClass(tn)) init = ev.content(st, "map", as.get(0).is("roview") ? as.get(0).k[0] : as.get(0));
        else if ((as.get(0).is("sfield") || as.get(0).is("sfld")) && as.get(0).toString().contains("CASE_INSENSITIVE_ORDER")) init = T.mk("mempty", "nocase");
        else init = T.opaque("ordered map", as.get(0));
      }
      st.cells.put(T.mk("map", null, o), init);
      return o;
    }
    if (c.equals("java.lang.StringBuilder") || c.equals("java.lang.StringBuffer")) {
      T s = T.str("");
      if (as.size() == 1 && e != null && !e.args.head.type.isNumeric()) s = as.get(0);
      st.cells.put(T.mk("sb", null, o), s);
      return o;
    }
    if (Zips.is(c) && as.isEmpty()) {
      Zips.reset(ev, c, o, st, pos);
      return o;
    }
    if (c.equals("java.util.StringJoiner")) {
      st.cells.put(T.mk("sb", null, o), T.str(""));
      st.cells.put(T.mk("sjn", null, o), T.ZERO);
      st.cells.put(T.mk("sjsep", null, o), as.get(0));
      st.cells.put(T.mk("sjpre", null, o), as.size() > 1 ? as.get(1) : T.str(""));
      st.cells.put(T.mk("sjsuf", null, o), as.size() > 2 ? as.get(2) : T.str(""));
      return o;
    }
    if (c.equals("java.lang.String")) {
      if (as.isEmpty()) return T.str("");
      Type t0 = e == null ? null : e.args.head.type;
      if (t0 != null && ev.p.types.isArray(t0) && ev.ty(ev.p.types.elemtype(t0)).equals("byte")) {
        T b = ev.content(st, "arr", as.get(0));
        if (as.size() == 1) return T.decstr(b, T.charset("platform default"));
        if (as.size() == 2) return T.decstr(b, cs(as.get(1)));
        if (as.size() == 4) return T.decstr(T.part(b, as.get(1), as.get(2)), cs(as.get(3)));
        return T.decstr(T.part(b, as.get(1), as.get(2)), T.charset("platform default"));
      }
      if (t0 != null && ev.isStr(t0)) return as.get(0);
      if (t0 != null && ev.p.types.isArray(t0)) return textOf(st, as);
      return T.pure( "new String", as.toArray(new T[0]));
    }
    if (c.endsWith("Exception") || c.endsWith("Error")) return o;
    if (c.equals("java.lang.Object")) return o;
    List<T> all = new ArrayList<>(as);
    T lo = T.mk("libobj", c + "#" + T.freshId(), all.toArray(new T[0]));
    if (ev.inStatic) ev.staticObjs.add(lo);
    return lo;
  }

  T cs(T t) {
    if (t.is("str")) return T.charset(canonCs((String) t.a));
    return t;
  }

  static String canonCs(String s) {
    try {
      return java.nio.charset.Charset.forName(s).name();
    } catch (Exception x) {
      return s;
    }
  }

  T superCall(MethodSymbol m, T recv, List<T> as, St st, String pos) {
    switch (m.name.toString()) {
      case "hashCode":
        return T.mk("identity", null, recv);
      case "equals":
        return T.same(recv, as.get(0));
      case "toString":
        return T.cat(T.cat(T.mk("classname", null, recv), T.str("@")), T.mk("identity", null, recv));
      case "getClass":
        return null;
      default:
        return null;
    }
  }

  /** an argument the callee could change or call back */
  private boolean av0Mutable(List<T> as) {
    for (T a : as) if (a.is("new") || a.is("closure") || a.is("lambda")) return true;
    return false;
  }

  static final Set<String> ENV =
      Set.of("java.lang.System.getProperty", "java.lang.System.getenv", "java.lang.System.currentTimeMillis",
          "java.lang.System.nanoTime", "java.util.Locale.getDefault", "java.lang.Math.random",
          "java.nio.ByteOrder.nativeOrder", "java.lang.System.lineSeparator", "java.lang.Boolean.getBoolean",
          "java.lang.Integer.getInteger", "java.lang.Long.getLong", "java.time.Instant.now",
          "java.time.LocalDateTime.now", "java.time.LocalDate.now", "java.util.UUID.randomUUID",
          "java.util.TimeZone.getDefault", "java.time.ZoneId.systemDefault", "java.lang.System.identityHashCode",
          "java.lang.Runtime.getRuntime", "java.util.concurrent.ThreadLocalRandom.current",
          "java.lang.Thread.currentThread", "io.netty.util.internal.SystemPropertyUtil.get",
          "io.netty.util.internal.SystemPropertyUtil.getInt", "io.netty.util.internal.SystemPropertyUtil.getBoolean");

  T call(MethodSymbol m, T recv, Type rtype, List<T> as, JCExpression e, St st, Eval.Frame f, String pos) {
    String owner = m.owner.flatName().toString(), n = m.name.toString(), q = owner + "." + n;
    T[] av = as.toArray(new T[0]);
    if (owner.equals("io.netty.buffer.ByteBuf") || (recv != null && isBufType(rtype) && !owner.equals("java.lang.Object")))
      return buf(n, recv, as, e, st, f, pos);
    if (ENV.contains(q) || owner.startsWith("java.time.") && (n.equals("now") || n.startsWith("system") || n.startsWith("tick"))) return T.mk("env", q, av);
    if (q.equals("java.util.Calendar.getInstance") || q.equals("java.util.Currency.getInstance")) return T.mk("env", q, av);
    if (recv != null && recv.is("env") && !n.equals("equals")) return T.pure(q, cons(recv, av));
    // immutable value classes
    if ((owner.startsWith("java.time.") || owner.startsWith("java.math.") || owner.equals("java.util.UUID"))
        && !av0Mutable(as)) return T.pure(q, recv == null ? av : cons(recv, av));
    if (q.equals("java.nio.charset.Charset.defaultCharset")) return T.charset("platform default");
    if (q.equals("java.nio.charset.Charset.forName"))
      return av[0].is("str") ? T.charset(canonCs((String) av[0].a)) : T.mk("charset", "?", av);
    if (owner.startsWith("java.io.PrintStream")) return T.UNIT;
    if (n.equals("printStackTrace")) return T.UNIT;
    if (owner.startsWith("java.util.logging.") || owner.startsWith("io.netty.util.internal.logging.")) {
      return n.startsWith("is") ? T.mk("typed", "log:boolean") : n.startsWith("get") ? T.mk("libobj", "log") : T.UNIT;
    }
    switch (owner) {
      case "java.lang.String":
      case "java.lang.CharSequence":
        return string(n, recv, as, e, st, f, pos);
      case "io.netty.util.internal.StringUtil":
        if (n.equals("isNullOrEmpty")) return T.or(T.isnull(av[0]), T.eq0(T.slen(av[0])));
        break;
      case "io.netty.buffer.Unpooled":
      case "io.netty.buffer.ByteBufAllocator":
        {
          boolean ints = as.isEmpty();
          // one with a limit of its own can be too small
          if (as.size() == 2 && isInt(e, 1) && as.get(1) != T.num(Integer.MAX_VALUE)) break;
          if (!as.isEmpty()) {
            ints = true;
            for (int i = 0; i < as.size(); i++) ints &= isInt(e, i);
          }
          if (ints && (n.equals("buffer") || n.equals("directBuffer") || n.equals("heapBuffer") || n.equals("ioBuffer"))) {
            T o = T.mk("new", "io.netty.buffer.ByteBuf#" + T.freshId());
            if (ev.inStatic) {
              // whatever was written to it before
              ev.staticObjs.add(o);
              return o;
            }
            st.cells.put(T.mk("cur", "r", o), T.ZERO);
            st.cells.put(T.mk("cur", "w", o), T.ZERO);
            if (!as.isEmpty() && !as.get(0).isNum()) {
              Eff a = new Eff("ALLOC", pos);
              a.len = as.get(0);
              a.name = "buffer";
              st.tr.add(a);
            }
            return o;
          }
        }
        break;
      case "io.netty.buffer.ByteBufUtil":
        if (n.equals("swapInt")) return swap(32, e, av[0], st);
        if (n.equals("swapLong")) return swap(64, e, av[0], st);
        if (n.equals("swapShort")) return swap(16, e, av[0], st);
        if (n.equals("getBytes") && as.size() == 1 && Scratch.is(av[0])) {
          T r0 = cur(st, "r", av[0]);
          T by = rbytes(st, av[0], T.sub(cur(st, "w", av[0]), r0), pos);
          setCur(st, "r", av[0], r0);
          T o = T.mk("new", "array#" + T.freshId());
          st.cells.put(T.mk("arr", null, o), by);
          return o;
        }
        if (n.equals("writeUtf8") && as.size() == 2) {
          T by = T.encstr(av[1], T.charset("UTF-8"));
          wbytes(st, av[0], by, pos);
          return T.blen(by);
        }
        if (n.equals("writeAscii") && as.size() == 2) {
          T by = T.encstr(av[1], T.charset("US-ASCII"));
          wbytes(st, av[0], by, pos);
          return T.blen(by);
        }
        if (n.equals("utf8Bytes") && as.size() == 1) return T.blen(T.encstr(av[0], T.charset("UTF-8")));
        break;
      case "java.util.Objects":
        switch (n) {
          case "equals":
            {
              T mis = boxMismatch(e, 0, 1);
              if (mis != null) return mis;
              if (arrayArg(e, 0)) return T.same(av[0], av[1]);
              return eqv(st, av[0], av[1]);
            }
          case "deepEquals":
            return arrayArg(e, 0) ? aeq(st, av[0], av[1]) : eqv(st, av[0], av[1]);
          case "hash":
            {
              T c = ev.content(st, "arr", av[0]);
              if (c.is("alit")) {
                List<T> hs = new ArrayList<>();
                int i = 0;
                for (T x : c.k) {
                  Type at = argType(e, i++);
                  hs.add(at != null && ev.p.types.isArray(at) && c.k.length > 1 ? T.mk("identity", null, x) : x);
                }
                return T.mk("hash", null, hs.toArray(new T[0]));
              }
              return T.mk("hash", null, c);
            }
          case "hashCode":
            // a number is its own hash
            if (argType(e, 0) != null && Set.of("int", "short", "byte", "char").contains("" + argType(e, 0)) && av[0].intLike()) return av[0];
            return arrayArg(e, 0) ? T.mk("identity", null, av) : hashOf(st, av[0]);
          case "isNull":
            return T.isnull(av[0]);
          case "nonNull":
            return T.not(T.isnull(av[0]));
          case "requireNonNull":
            ev.branch(st, T.isnull(av[0]), s -> ev.throwIt(s, "java.lang.NullPointerException", pos), s -> {}, pos);
            return av[0];
          case "requireNonNullElse":
            return T.gamma(T.isnull(av[0]), av[1], av[0]);
          case "toString":
            if (av.length == 1) return av[0];
            return T.gamma(T.isnull(av[0]), av[1], av[0]);
          case "checkIndex":
            return av[0];
          default:
            return null;
        }
      case "java.text.Normalizer":
        return T.pure(q, av);
      case "java.lang.Math":
      case "java.lang.StrictMath":
        switch (n) {
          case "min":
            return av[0].intLike() || av[0].is("lin") ? T.min(av[0], av[1]) : T.pure( q, av);
          case "max":
            return av[0].intLike() ? T.max(av[0], av[1]) : T.pure( q, av);
          case "addExact":
            return T.add(av[0], av[1]);
          case "subtractExact":
            return T.sub(av[0], av[1]);
          case "toIntExact":
            return av[0];
          case "abs":
          case "absExact":
            if (T.range(av[0])[0] >= 0) return av[0];
            if (av[0].intLike() || av[0].is("lin")) return T.gamma(T.lt(av[0], T.ZERO), T.sub(T.ZERO, av[0]), av[0]);
            return T.pure( q, av);
          case "negateExact":
            return T.sub(T.ZERO, av[0]);
          case "incrementExact":
            return T.add(av[0], T.num(1));
          case "decrementExact":
            return T.sub(av[0], T.num(1));
          case "multiplyExact":
            return T.mul(av[0], av[1]);
          case "floorDiv":
            if (T.range(av[0])[0] >= 0 && T.range(av[1])[0] > 0) return T.div(av[0], av[1]);
            return T.pure( q, av);
          case "floorMod":
            if (T.range(av[0])[0] >= 0) return T.rem(av[0], av[1]);
            return T.mk("floormod", null, av);
          default:
            return T.pure( q, av);
        }
      case "java.util.Arrays":
        switch (n) {
          case "hashCode":
          case "deepHashCode":
            return hashOf(st, av[0]);
          case "equals":
          case "deepEquals":
            if (av.length != 2) return null;
            return aeq(st, av[0], av[1]);
          case "fill":
            if (av.length == 2) {
              ev.setContent(st, "arr", av[0], o -> T.mk("bfill", ":", av[1], T.blen(o)));
              arrWritten(st, av[0], pos);
              return T.UNIT;
            }
            if (av.length == 4) {
              T n1 = T.sub(av[2], av[1]);
              ev.setContent(st, "arr", av[0], o -> T.splice(o, av[1], T.mk("bfill", ":", av[3], n1), T.ZERO, n1));
              arrWritten(st, av[0], pos);
              return T.UNIT;
            }
            break;
          case "asList":
            {
              T o = T.mk("new", "java.util.Arrays$ArrayList#" + T.freshId());
              T c = ev.content(st, "arr", av[0]);
              T l = T.mk("lempty", null);
              if (c.is("alit")) for (T x : c.k) l = T.mk("lapp", null, l, x);
              else l = T.opaque("asList", c);
              st.cells.put(T.mk("lst", null, o), l);
              return o;
            }
          case "stream":
            {
              T c = ev.content(st, "arr", av[0]);
              if (c.is("alit") && av.length == 1) {
                T[] k = new T[c.k.length * 2];
                for (int i = 0; i < c.k.length; i++) {
                  k[2 * i] = T.TRUE;
                  k[2 * i + 1] = c.k[i];
                }
                return T.mk("strm", null, k);
              }
              break;
            }
          case "toString":
          case "deepToString":
            {
              List<T> xs = items(ev.content(st, "arr", av[0]));
              if (xs != null) return listed(xs);
              return T.pure( q, av);
            }
          case "copyOf":
            {
              T c = ev.content(st, "arr", av[0]);
              if (av[1] == T.blen(c)) {
                T o = T.mk("new", "array#" + T.freshId());
                st.cells.put(T.mk("arr", null, o), c);
                return o;
              }
              Type at = argType(e, 0);
              if (at instanceof Type.ArrayType && ((Type.ArrayType) at).elemtype.isPrimitive()) {
                T o = T.mk("new", "array#" + T.freshId());
                T n1 = T.blen(c);
                st.cells.put(T.mk("arr", null, o), T.gamma(T.le(av[1], n1), T.part(c, T.ZERO, av[1]), T.bcat(Arrays.asList(c, T.mk("bfill", ":", T.ZERO, T.sub(av[1], n1))))));
                return o;
              }
              return T.pure( q, c, av[1]);
            }
          case "copyOfRange":
            {
              T c = ev.content(st, "arr", av[0]);
              T o = T.mk("new", "array#" + T.freshId());
              st.cells.put(T.mk("arr", null, o), T.part(c, av[1], T.sub(av[2], av[1])));
              return o;
            }
          default:
            break;
        }
        return null;
      case "java.util.Collections":
        switch (n) {
          case "emptyList":
            {
              T o = T.mk("new", "java.util.Collections$EmptyList#" + T.freshId());
              st.cells.put(T.mk("lst", null, o), T.mk("lempty", null));
              return o;
            }
          case "unmodifiableMap":
            return T.mk("roview", null, av[0]);
          case "synchronizedMap":
            return av[0];
          case "sort":
            return list("sort", av[0], as.subList(1, as.size()), e, st, f, pos, rtype);
          case "reverse":
          case "shuffle":
          case "swap":
            lmut(av[0], n, st, pos);
            ev.setContent(st, "lst", av[0], c -> n.equals("shuffle") ? T.mk("lperm", "any order", c, T.mk("env", "random numbers")) : T.opaque(n, c));
            return T.UNIT;
          case "nCopies":
            {
              T o = T.mk("new", "java.util.ImmutableList#" + T.freshId());
              st.cells.put(T.mk("lst", null, o), T.lrep(T.trip(av[0]), T.mk("idx", T.freshId()), av[1]));
              return o;
            }
          default:
            break;
        }
      default:
        break;
    }
    if (owner.equals("java.util.List") && n.equals("of") || owner.equals("java.util.List") && n.equals("copyOf")) {
      T o = T.mk("new", "java.util.ImmutableList#" + T.freshId());
      if (ev.inStatic) ev.staticObjs.add(o);
      T l = T.mk("lempty", null);
      if (n.equals("copyOf")) l = ev.lst(st, av[0]);
      else if (av.length == 1 && m.isVarArgs()) {
        T c = ev.content(st, "arr", av[0]);
        if (c.is("alit")) for (T x : c.k) l = T.mk("lapp", null, l, x);
      } else for (T x : av) l = T.mk("lapp", null, l, x);
      st.cells.put(T.mk("lst", null, o), l);
      return o;
    }
    if (owner.equals("java.util.Collections") && (n.equals("singletonMap") || n.equals("emptyMap")) || owner.equals("java.util.Map") && recv == null && n.equals("of") && av.length % 2 == 0) {
      T o = T.mk("new", "java.util.ImmutableMap#" + T.freshId()), con = T.mk("mempty", null);
      if (ev.inStatic) ev.staticObjs.add(o);
      for (int i = 0; i + 1 < av.length; i += 2) con = T.mk("mput", null, con, av[i], av[i + 1]);
      st.cells.put(T.mk("map", null, o), con);
      return T.mk("roview", null, o);
    }
    if (owner.equals("java.util.Collections") && (n.equals("unmodifiableList") || n.equals("unmodifiableCollection") || n.equals("singletonList") || n.equals("singleton") || n.equals("emptyList") || n.equals("emptySet"))) {
      T o = T.mk("new", "java.util.ImmutableList#" + T.freshId());
      if (ev.inStatic) ev.staticObjs.add(o);
      T em = T.mk("lempty", null);
      st.cells.put(T.mk("lst", null, o), n.startsWith("empty") ? em : n.startsWith("singleton") ? T.mk("lapp", null, em, av[0]) : ev.lst(st, av[0]));
      return o;
    }
    if (owner.startsWith("java.lang.") && boxOp(owner)) return box(owner.substring(10), n, recv, as, e, st, pos);
    if (owner.equals("java.lang.StringBuilder") || owner.equals("java.lang.StringBuffer") || owner.equals("java.lang.AbstractStringBuilder"))
      return builder(n, recv, as, e, st, pos);
    if (owner.startsWith("java.util.zip.") && recv != null && recv.is("new") && !ev.isStaticObj(recv) && Zips.is(ev.className(recv))) {
      T z = Zips.call(ev, ev.className(recv), n, recv, av, e, st, pos);
      if (z != null) return z;
    }
    if (owner.equals("java.lang.ThreadLocal") && recv != null) {
      T cell = T.mk("sfield", "ThreadLocal " + recv);
      if (n.equals("get") && as.isEmpty()) return ev.get(st, cell);
      if (n.equals("set") || n.equals("remove")) {
        T v = n.equals("set") ? av[0] : T.NULL;
        st.cells.put(cell, v);
        Eff kept = new Eff("SWRITE", pos);
        kept.name = "" + cell.a;
        kept.val = v;
        st.tr.add(kept);
        return T.UNIT;
      }
    }
    if (owner.equals("java.util.StringJoiner")) return joiner(n, recv, as, e, st, pos);
    if (recv != null && (recv.is("mvals") || recv.is("mkeys") || recv.is("ments"))) {
      T r = mapView(n, recv, as, st, f, pos);
      if (r != null) return r;
    }
    if (isListType(rtype) || isListOwner(owner)) {
      T r = list(n, recv, as, e, st, f, pos, rtype);
      if (r != null) return r;
    }
    if (isMapType(rtype)) {
      if (n.equals("forEach") && as.size() == 1) {
        T fn = as.get(0);
        ev.foreach(T.mk("ments", null, recv.is("roview") ? recv.k[0] : recv), null, st, f, pos, (s, x) -> ev.closure(fn, List.of(x.k[0], x.k[1]), s, pos));
        return T.UNIT;
      }
      T r = map(n, recv, as, e, st, pos, rtype);
      if (r != null) return r;
    }
    if (recv != null && recv.is("ment")) {
      if (n.equals("getKey")) return recv.k[0];
      if (n.equals("getValue")) return recv.k[1];
    }
    if (recv != null && (recv.is("strm") || recv.is("opt") || owner.equals("java.util.Optional"))) {
      T r = stream(n, recv, as, st, pos);
      if (r != null) return r;
    }
    if (owner.equals("java.util.Optional") && recv == null) {
      if (n.equals("ofNullable") || n.equals("of")) return T.mk("opt", null, av);
      if (n.equals("empty")) return T.mk("opt", null, T.NULL);
    }
    if (owner.equals("java.util.stream.IntStream") && recv == null && (n.equals("range") || n.equals("rangeClosed")))
      return T.mk("irange", null, av[0], n.equals("range") ? av[1] : T.add(av[1], T.ONE));
    if (recv != null && (recv.is("irange") || recv.is("lstrm"))) {
      T r = streams.call(owner, n, recv.is("irange") ? T.mk("lstrm", "", recv) : recv, as, st, f, pos);
      if (r != null) return r;
    }
    if (owner.equals("java.util.Comparator") && !n.equals("compare")) return T.mk("comparator", n, recv == null ? av : cons(recv, av));
    if (owner.equals("java.util.stream.Collectors")) return T.mk("collector", n, av);
    if (recv != null && isSet(recv) && (rtype == null || !isListType(rtype))) {
      T r = list(n, recv, as, e, st, f, pos, rtype);
      if (r != null) return r;
    }
    if (recv != null && recv.is("miter")) {
      T cell = T.mk("itpos", null, recv);
      T i = st.cells.getOrDefault(cell, T.ZERO), c = st.cells.get(T.mk("itmap", null, recv));
      T mo = recv.k[0].k[0];
      if (c != null) {
        if (n.equals("hasNext")) return T.lt(i, T.mk("typed", "msize:int", c));
        if (n.equals("next")) {
          st.cells.put(cell, T.add(i, T.ONE));
          return viewElem(recv.k[0], c, i);
        }
        if (n.equals("remove") && as.isEmpty()) {
          T mc = ev.content(st, "map", mo);
          T k = T.mk("mkat", null, c, T.sub(i, T.ONE));
          mutMap(mo, "MREM", k, null, st, pos);
          st.cells.put(T.mk("map", null, mo), T.mk("mrit", null, mc, k));
          return T.UNIT;
        }
      }
    }
    if (recv != null && recv.is("iter")) {
      T cell = T.mk("itpos", null, recv);
      T i = st.cells.getOrDefault(cell, T.ZERO);
      if (n.equals("hasNext")) return T.lt(i, T.size(ev.lst(st, recv.k[0])));
      if (n.equals("next")) {
        st.cells.put(cell, T.add(i, T.ONE));
        return T.lget(ev.lst(st, recv.k[0]), i, e == null ? "java.lang.Object" : ev.ty(e.type));
      }
      if (n.equals("remove") || n.equals("set") || n.equals("add")) {
        lmut(recv.k[0], n, st, pos);
        ev.setContent(st, "lst", recv.k[0], c -> T.opaque("iterator " + n, c));
        return T.UNIT;
      }
    }
    if (owner.startsWith("java.util.function.") || owner.equals("java.lang.Runnable") || owner.equals("java.util.concurrent.Callable")
        || (recv != null && ev.clos.containsKey(recv) && !owner.equals("java.lang.Object"))) {
      if (recv != null && ev.clos.containsKey(recv)) return ev.closure(recv, as, st, pos);
      if (n.equals("get") && as.isEmpty() && recv != null) {
        if (recv.is("gamma"))
          return ev.choose(st, recv.k[0], s -> call(m, recv.k[1], rtype, as, e, s, f, pos), s -> call(m, recv.k[2], rtype, as, e, s, f, pos), pos);
        // an instance made by a registered factory
        T r = T.mk("created", "#" + T.freshId(), recv);
        return r;
      }
      return null;
    }
    if (owner.equals("java.lang.Object") || owner.equals("java.lang.Enum") || owner.equals("java.lang.Class")
        || owner.equals("java.lang.Record")) {
      switch (n) {
        case "getClass":
          {
            String c = ev.className(recv);
            if (c != null) return T.mk("class", c);
            if (recv.is("gamma")) return T.gamma(recv.k[0], call(m, recv.k[1], rtype, as, e, st, f, pos), call(m, recv.k[2], rtype, as, e, st, f, pos));
            return T.mk("getclass", null, recv);
          }
        case "equals":
          if (rtype != null && ev.p.types.isArray(rtype)) return T.same(recv, av[0]);
          if (owner.equals("java.lang.Object") && recv.is("this")) return T.same(recv, av[0]);
          return T.and(T.not(T.isnull(av[0])), T.objEq(recv, av[0]));
        case "hashCode":
          if (recv.is("this") || rtype != null && ev.p.types.isArray(rtype)) return T.mk("identity", null, recv);
          return T.mk("hash", null, recv);
        case "toString":
          if (recv.is("this")) return T.mk("identity", null, recv);
          return ev.strOf(recv, rtype);
        case "getName":
        case "getSimpleName":
        case "getTypeName":
        case "getCanonicalName":
          if (recv.is("class")) {
            String s = (String) recv.a;
            if (n.equals("getSimpleName")) s = s.substring(Math.max(s.lastIndexOf('.'), s.lastIndexOf('$')) + 1);
            return T.str(s);
          }
          return T.pure( n, recv);
        case "name":
          if (recv.is("enum")) return T.str(((String) recv.a).substring(((String) recv.a).lastIndexOf('.') + 1));
          return T.pure( n, recv);
        case "ordinal":
          return T.pure( n, recv);
        case "isInstance":
          if (recv.is("class")) {
            T c = T.mk("getclass", null, av[0]);
            return T.and(T.not(T.isnull(av[0])), T.mk("classis", recv.a, av[0]));
          }
          return T.pure( n, recv, av[0]);
        case "cast":
          return av[0];
        case "compareTo":
          return T.pure( n, recv, av[0]);
        default:
          return T.pure( q, cons(recv, av));
      }
    }
    if (owner.equals("java.lang.System") && n.equals("arraycopy")) {
      T src = ev.content(st, "arr", av[0]);
      ev.setContent(st, "arr", av[2], o -> T.splice(o, av[3], src, av[1], av[4]));
      arrWritten(st, av[2], pos);
      return T.UNIT;
    }
    if (n.equals("equals") && as.size() == 1 && recv != null) return T.and(T.not(T.isnull(av[0])), T.objEq(recv, av[0]));
    if (n.equals("hashCode") && as.isEmpty() && recv != null) return T.mk("hash", null, recv);
    if (n.equals("toString") && as.isEmpty() && recv != null) return ev.strOf(recv, rtype);
    if (recv != null && recv.is("libobj") || recv != null && ev.isStaticObj(recv)) {
      Eff x = new Eff("OBJCALL", pos);
      x.obj = recv;
      x.name = q;
      st.tr.add(x);
      if (!n.matches("(get|is|contains|index|lastIndex|size|equals|hash|to|stream|iterator|forEach|compare|element|peek|first|last).*")) {
        smear(st, recv, q);
        for (T y : av) smear(st, y, q);
      }
      return T.opaque("result of " + q, cons(recv, av));
    }
    if (recv != null && (recv.is("fld") || recv.is("sfld"))) {
      // a library object kept in a field: its state outlives the call
      Eff x = new Eff("OBJCALL", pos);
      x.obj = recv;
      x.name = q;
      st.tr.add(x);
    }
    return null;
  }

  private static T[] cons(T a, T[] b) {
    List<T> l = new ArrayList<>();
    if (a != null) l.add(a);
    l.addAll(Arrays.asList(b));
    return l.toArray(new T[0]);
  }

  boolean isBufType(Type t) {
    return t != null && t.tsym != null && t.tsym.flatName().toString().equals("io.netty.buffer.ByteBuf");
  }

  boolean isListOwner(String o) {
    return o.equals("java.util.List") || o.equals("java.util.Collection") || o.equals("java.lang.Iterable") || listClass(o)
        || o.equals("java.util.ArrayList") || o.equals("java.util.AbstractCollection") || o.equals("java.util.AbstractList");
  }

  boolean isListType(Type t) {
    if (t == null || !(t.tsym instanceof ClassSymbol)) return false;
    String s = t.tsym.flatName().toString();
    return s.equals("java.util.List") || s.equals("java.util.Collection") || listClass(s) || s.equals("java.lang.Iterable");
  }

  boolean isSet(T o) {
    String c = o.is("new") ? ev.className(o) : null;
    return c != null && Streams.setClass(c);
  }

  boolean isMapType(Type t) {
    if (t == null || !(t.tsym instanceof ClassSymbol)) return false;
    return mapClass(t.tsym.flatName().toString());
  }

  private boolean arrayArg(JCExpression e, int i) {
    Type t = argType(e, i);
    return t != null && ev.p.types.isArray(t);
  }

  static final Map<String, String> BOX =
      Map.of("byte", "Byte", "short", "Short", "int", "Integer", "long", "Long", "char", "Character",
          "boolean", "Boolean", "float", "Float", "double", "Double");

  String boxed(Type t) {
    if (t == null) return null;
    String s = ev.ty(t);
    return BOX.containsKey(s) ? BOX.get(s) : BOX.containsValue(s) ? s : null;
  }

  private T boxMismatch(JCExpression e, int i, int j) {
    String a = boxed(argType(e, i)), b = boxed(argType(e, j));
    if (a != null && b != null && !a.equals(b)) return T.FALSE;
    return null;
  }

  static boolean boxOp(String owner) {
    String c = owner.substring(10);
    return BOX.containsValue(c) || c.equals("Number");
  }

  T box(String c, String n, T recv, List<T> as, JCExpression e, St st, String pos) {
    T x = as.isEmpty() ? recv : as.get(0);
    switch (n) {
      case "valueOf":
        if (as.size() == 1 && !(ev.isStr(argType(e, 0)))) return x;
        return T.pure( c + ".valueOf", as.toArray(new T[0]));
      case "intValue":
        if (c.equals("Double") || c.equals("Float")) return T.pure(c + ".intValue", recv);
        return c.equals("Long") ? T.ext(32, true, recv) : recv;
      case "longValue":
        if (c.equals("Double") || c.equals("Float")) return T.pure(c + ".longValue", recv);
        return recv;
      case "charValue":
      case "booleanValue":
      case "doubleValue":
      case "floatValue":
        return recv;
      case "shortValue":
        return T.ext(16, true, recv);
      case "byteValue":
        return T.ext(8, true, recv);
      case "toUnsignedInt":
      case "toUnsignedLong":
        {
          int w = c.equals("Byte") ? 8 : c.equals("Short") ? 16 : 32;
          return T.ext(w, false, x);
        }
      case "reverseBytes":
        return swap(c.equals("Short") || c.equals("Character") ? 16 : c.equals("Long") ? 64 : 32, e, x, st);
      case "hashCode":
        return Set.of("Integer", "Short", "Byte", "Character").contains(c) && x.intLike() ? x : T.mk("hash", null, x);
      case "equals":
        {
          String b = boxed(argType(e, 0));
          if (b != null && !b.equals(c)) return T.FALSE;
          return T.and(T.not(T.isnull(as.get(0))), T.objEq(recv, as.get(0)));
        }
      case "compare":
        return T.mk("compare", c.equals("Float") ? "float" : c.equals("Double") ? "double" : "int", as.get(0), as.get(1));
      case "compareTo":
        return T.mk("compare", c.equals("Float") ? "float" : c.equals("Double") ? "double" : "int", recv, as.get(0));
      case "toString":
        if (as.size() > 1 && as.get(1) != T.num(10)) return T.pure(c + ".toString", as.toArray(new T[0]));
        return c.equals("Character") ? T.mk("charstr", null, x) : x;
      case "floatToIntBits":
      case "floatToRawIntBits":
        return T.fbits(32, x);
      case "doubleToLongBits":
      case "doubleToRawLongBits":
        return T.fbits(64, x);
      case "intBitsToFloat":
        return T.bitsf(32, x);
      case "longBitsToDouble":
        return T.bitsf(64, x);
      case "min":
        return T.min(as.get(0), as.get(1));
      case "max":
        return T.max(as.get(0), as.get(1));
      case "sum":
        return T.add(as.get(0), as.get(1));
      default:
        return T.pure( c + "." + n, cons(recv, as.toArray(new T[0])));
    }
  }

  /** the text of an array of characters, or of a part of it */
  private T textOf(St st, List<T> as) {
    T b = ev.content(st, "arr", as.get(0));
    if (as.size() == 3) b = T.part(b, as.get(1), as.get(2));
    T s = T.ofChars(b);
    return s != null ? s : T.pure("new String", b);
  }

  T string(String n, T s, List<T> as, JCExpression e, St st, Eval.Frame f, String pos) {
    T[] av = as.toArray(new T[0]);
    switch (n) {
      case "length":
        return T.slen(s);
      case "isEmpty":
        return T.eq0(T.slen(s));
      case "charAt":
        return T.charAt(s, av[0]);
      case "getBytes":
        if (av.length == 0) return T.encstr(s, T.charset("platform default"));
        return T.encstr(s, cs(av[0]));
      case "toString":
      case "intern":
        return s;
      case "substring":
      case "subSequence":
        {
          T lo = av[0], hi = av.length > 1 ? av[1] : T.slen(s);
          return T.substr(s, lo, hi);
        }
      case "equals":
      case "contentEquals":
        return T.and(T.not(T.isnull(av[0])), T.objEq(s, av[0]));
      case "hashCode":
        return T.mk("hash", null, s);
      case "concat":
        return T.cat(s, av[0]);
      case "valueOf":
      case "copyValueOf":
        if (av.length == 1 && !(arrayArg(e, 0))) return ev.strOf(av[0], argType(e, 0));
        return (av.length == 1 || av.length == 3) && arrayArg(e, 0) ? textOf(st, as) : T.pure( "String.valueOf", av);
      case "toCharArray":
        {
          T o = T.mk("new", "array#" + T.freshId());
          st.cells.put(T.mk("arr", null, o), T.chars(s));
          return o;
        }
      case "getChars":
        if (av.length == 4) {
          T n1 = T.sub(av[1], av[0]);
          ev.setContent(st, "arr", av[2], o -> T.splice(o, av[3], T.chars(s), av[0], n1));
          arrWritten(st, av[2], pos);
          return T.UNIT;
        }
        break;
      case "format":
        return format(av, e, st, m2(e));
      case "join":
        {
          if (av.length == 2) {
            T c = ev.content(st, "arr", av[1]);
            if (c.is("alit")) {
              T r = T.str("");
              for (int i = 0; i < c.k.length; i++) {
                if (i > 0) r = T.cat(r, av[0]);
                r = T.cat(r, c.k[i]);
              }
              return r;
            }
          }
          return T.pure( "String.join", av);
        }
      case "toUpperCase":
      case "toLowerCase":
        if (av.length == 0) return T.pure( n, s, T.mk("env", "java.util.Locale.getDefault"));
        return T.pure( n, cons(s, av));
      default:
        break;
    }
    return T.pure("String." + n, cons(s, av));
  }

  private boolean m2(JCExpression e) {
    return false;
  }

  /** String.format with a constant pattern of plain %s and %d */
  T format(T[] av, JCExpression e, St st, boolean x) {
    int i = 0;
    boolean loc = av[0].is("sfld") || av[0].is("env") || !av[0].is("str");
    if (loc) i = 1;
    if (av.length != i + 2 || !av[i].is("str")) return T.pure( "String.format", av);
    String p = (String) av[i].a;
    T c = ev.content(st, "arr", av[i + 1]);
    if (!c.is("alit")) return T.pure( "String.format", av);
    T r = T.str("");
    int k = 0;
    StringBuilder lit = new StringBuilder();
    for (int j = 0; j < p.length(); j++) {
      char ch = p.charAt(j);
      if (ch != '%') {
        lit.append(ch);
        continue;
      }
      j++;
      if (j >= p.length()) return T.pure( "String.format", av);
      char t = p.charAt(j);
      if (t == '%') lit.append('%');
      else if (t == 'n') lit.append("\n");
      else if ((t == 's' || t == 'd') && k < c.k.length) {
        r = T.cat(T.cat(r, T.str(lit.toString())), t == 's' ? c.k[k] : c.k[k]);
        k++;
        lit.setLength(0);
      } else {
        java.util.regex.Matcher w = java.util.regex.Pattern.compile("[-0]?\\d*(\\.\\d+)?[sdxXohHcS]").matcher(p.substring(j));
        if (!w.lookingAt() || k >= c.k.length) return T.pure("String.format", cons(c, av));
        r = T.cat(T.cat(r, T.str(lit.toString())), T.pure("format %" + w.group(), c.k[k]));
        k++;
        lit.setLength(0);
        j += w.end() - 1;
      }
    }
    return T.cat(r, T.str(lit.toString()));
  }

  T builder(String n, T o, List<T> as, JCExpression e, St st, String pos) {
    if (ev.isStaticObj(o) && !ev.inStatic && n.matches("append.*|setLength|setCharAt|delete.*|insert|replace|reverse")) {
      Eff w = new Eff("SWRITE", pos);
      w.obj = o;
      w.name = "array element";
      st.tr.add(w);
    }
    switch (n) {
      case "append":
        {
          boolean part = as.size() == 3 && e != null;
          if (as.size() != 1 && !part) return null;
          T v = part && arrayArg(e, 0) ? textOf(st, as) : part ? T.substr(as.get(0), as.get(1), as.get(2)) : e != null && arrayArg(e, 0) ? textOf(st, as) : ev.strOf(as.get(0), e == null ? null : argType(e, 0));
          ev.setContent(st, "sb", o, c -> T.cat(c, v));
          return o;
        }
      case "toString":
        return ev.content(st, "sb", o);
      case "length":
        return T.slen(ev.content(st, "sb", o));
      case "setLength":
        {
          T c = ev.content(st, "sb", o);
          T l = as.get(0);
          T r = l == T.ZERO ? T.str("") : c.is("cat") || c.is("str") || c.is("gamma") ? T.substr(c, T.ZERO, l) : T.opaque("sb");
          st.cells.put(T.mk("sb", null, o), r);
          return T.UNIT;
        }
      case "isEmpty":
        return T.eq0(T.slen(ev.content(st, "sb", o)));
      case "charAt":
        return T.charAt(ev.content(st, "sb", o), as.get(0));
      case "substring":
        {
          T c = ev.content(st, "sb", o);
          return T.substr(c, as.get(0), as.size() > 1 ? as.get(1) : T.slen(c));
        }
      case "deleteCharAt":
      case "delete":
        {
          T c = ev.content(st, "sb", o), to = n.equals("delete") ? as.get(1) : T.add(as.get(0), T.ONE);
          ev.setContent(st, "sb", o, x -> T.cat(T.substr(x, T.ZERO, as.get(0)), T.substr(x, to, T.slen(x))));
          return o;
        }
      case "insert":
        {
          T v = ev.strOf(as.get(1), e == null ? null : argType(e, 1)), at = as.get(0);
          ev.setContent(st, "sb", o, x -> T.cat(T.cat(T.substr(x, T.ZERO, at), v), T.substr(x, at, T.slen(x))));
          return o;
        }
      default:
        return null;
    }
  }

  T joiner(String n, T o, List<T> as, JCExpression e, St st, String pos) {
    T cn = T.mk("sjn", null, o), cs = T.mk("sb", null, o);
    switch (n) {
      case "add":
        {
          T cnt = st.cells.get(cn), c = st.cells.get(cs);
          T sep = st.cells.get(T.mk("sjsep", null, o));
          T first = T.eq0(cnt);
          st.cells.put(cs, T.cat(first == T.TRUE ? c : T.cat(c, sep), as.get(0)));
          st.cells.put(cn, T.add(cnt, T.ONE));
          return o;
        }
      case "toString":
        return T.cat(T.cat(st.cells.get(T.mk("sjpre", null, o)), st.cells.get(cs)), st.cells.get(T.mk("sjsuf", null, o)));
      default:
        return null;
    }
  }

  /** the elements of a list or array of known length */
  static List<T> items(T c) {
    if (c.is("alit")) return Arrays.asList(c.k);
    if (c.is("lempty")) return new ArrayList<>();
    if (c.is("lapp")) {
      List<T> l = items(c.k[0]);
      if (l != null) (l = new ArrayList<>(l)).add(c.k[1]);
      return l;
    }
    return null;
  }

  private List<T> contents(St st, T o, String kind) {
    return o.is("new") ? items(ev.content(st, kind, o)) : null;
  }

  private T each(St st, List<T> x, List<T> y) {
    if (x.size() != y.size()) return T.FALSE;
    T r = T.TRUE;
    for (int i = 0; i < x.size(); i++) r = T.and(r, eqv(st, x.get(i), y.get(i)));
    return r;
  }

  /** Objects.equals, into lists built here */
  T eqv(St st, T a, T b) {
    if (a != b && a.is("new") && b.is("new")) {
      List<T> x = contents(st, a, "lst"), y = contents(st, b, "lst");
      if (x != null && y != null) return each(st, x, y);
    }
    return T.objEq(a, b);
  }

  /** Arrays.equals */
  T aeq(St st, T a, T b) {
    if (a == b) return T.TRUE;
    List<T> x = contents(st, a, "arr"), y = contents(st, b, "arr");
    if (x != null && y != null) return each(st, x, y);
    T c = ev.content(st, "arr", a), d = ev.content(st, "arr", b);
    if (c == d) return T.TRUE;
    return T.mk("aeq", null, c, d);
  }

  /** hash code of a value, into lists and arrays built here */
  T hashOf(St st, T o) {
    List<T> x = contents(st, o, "lst");
    if (x == null) x = contents(st, o, "arr");
    return x == null ? T.mk("hash", null, o) : T.mk("hash", null, x.toArray(new T[0]));
  }

  /** [a, b, c] */
  static T listed(List<T> xs) {
    T r = T.str("[");
    for (int i = 0; i < xs.size(); i++) r = T.cat(i == 0 ? r : T.cat(r, T.str(", ")), xs.get(i));
    return T.cat(r, T.str("]"));
  }

  /** when a list is one of those nothing can be added to */
  private T frozen(T o) {
    if (o.is("gamma")) return T.gamma(o.k[0], frozen(o.k[1]), frozen(o.k[2]));
    String c = o.is("new") ? "" + o.a : "";
    return T.bool(c.startsWith("java.util.ImmutableList#") || c.startsWith("java.util.Collections$EmptyList#") || c.startsWith("java.util.Arrays$ArrayList#"));
  }

  Eff lmut(T o, String n, St st, String pos) {
    if (n.equals("add") || n.equals("set") || n.equals("addAll")) {
      T c = frozen(o);
      if (n.equals("set") && c == T.TRUE && ("" + o.a).startsWith("java.util.Arrays$")) c = T.FALSE;
      if (c != T.FALSE) ev.branch(st, c, s -> ev.throwIt(s, "java.lang.UnsupportedOperationException", pos), s -> {}, pos);
    }
    Eff q = new Eff(ev.isStaticObj(o) && !ev.inStatic ? "SWRITE" : "LMUT", pos);
    q.obj = o;
    q.name = n;
    if (!o.is("new") || ev.isStaticObj(o)) st.tr.add(q);
    return q;
  }

  T list(String n, T o, List<T> as, JCExpression e, St st, Eval.Frame f, String pos, Type rtype) {
    T[] av = as.toArray(new T[0]);
    String et = e == null || e.type == null ? "java.lang.Object" : ev.ty(e.type);
    switch (n) {
      case "size":
        return T.size(ev.lst(st, o));
      case "isEmpty":
        return T.eq0(T.size(ev.lst(st, o)));
      case "get":
        {
          T c = ev.lst(st, o);
          if (c.is("lof") && av[0].isNum()) {
            // a list that came in may have fewer elements
            T none = av[0].n() < 0 ? T.TRUE : av[0].n() == 0 ? T.eq0(T.size(c)) : T.not(T.lt(av[0], T.size(c)));
            ev.branch(st, none, s -> ev.throwIt(s, "java.lang.IndexOutOfBoundsException", pos), s -> {}, pos);
          }
          return T.lget(c, av[0], et);
        }
      case "add":
        if (av.length == 1) {
          lmut(o, n, st, pos);
          ev.setContent(st, "lst", o, c -> T.mk("lapp", null, c, av[0]));
          if (isSet(o)) return T.pure("Set.add", ev.lst(st, o), av[0]);
          return T.TRUE;
        }
        lmut(o, n, st, pos);
        ev.setContent(st, "lst", o, c -> c.is("lempty") || av[0] == T.size(c) ? T.mk("lapp", null, c, av[1]) : av[0] == T.ZERO ? T.lcat(T.mk("lapp", null, T.mk("lempty", null), av[1]), c) : T.opaque("insert", c, av[1]));
        return T.UNIT;
      case "addAll":
        if (av.length == 1) {
          T src = ev.lst(st, av[0]);
          if (src.is("lempty")) return T.FALSE;
          lmut(o, n, st, pos);
          ev.setContent(st, "lst", o, c -> T.lcat(c, src));
          return T.TRUE;
        }
        return null;
      case "clear":
        lmut(o, n, st, pos);
        ev.setContent(st, "lst", o, c -> T.mk("lempty", null));
        return T.UNIT;
      case "set":
        {
          lmut(o, n, st, pos);
          ev.setContent(st, "lst", o, c -> T.opaque("lset", c, av[0], av[1]));
          return T.opaque("old");
        }
      case "sort":
        lmut(o, n, st, pos);
        ev.setContent(st, "lst", o, c -> T.mk("lperm", "sorted", cons(c, av)));
        return T.UNIT;
      case "remove":
      case "removeIf":
      case "retainAll":
      case "removeAll":
      case "replaceAll":
        lmut(o, n, st, pos);
        ev.setContent(st, "lst", o, c -> T.opaque(n, c));
        return T.opaque(n);
      case "ensureCapacity":
        {
          Eff a = new Eff("ALLOC", pos);
          a.len = av[0];
          a.name = "list";
          st.tr.add(a);
          return T.UNIT;
        }
      case "trimToSize":
        return T.UNIT;
      case "forEach":
        {
          String lt = "java.lang.Object";
          if (rtype != null && rtype.getTypeArguments().nonEmpty()) lt = ev.ty(rtype.getTypeArguments().head);
          String q = lt;
          ev.iterate(st, f, pos, T.size(ev.lst(st, o)), (s, i) -> ev.closure(av[0], List.of(T.lget(ev.lst(s, o), i, q)), s, pos));
          return T.UNIT;
        }
      case "iterator":
      case "listIterator":
        {
          T it = T.mk("iter", T.freshId(), o);
          st.cells.put(T.mk("itpos", null, it), T.ZERO);
          return it;
        }
      case "hashCode":
        return hashOf(st, o);
      case "equals":
        return T.and(T.not(T.isnull(av[0])), eqv(st, o, av[0]));
      case "contains":
      case "indexOf":
      case "lastIndexOf":
      case "containsAll":
        return T.pure( "List." + n, ev.lst(st, o), n.equals("containsAll") ? ev.lst(st, av[0]) : av[0]);
      case "toString":
        {
          List<T> xs = o.is("new") ? items(ev.lst(st, o)) : null;
          return xs != null ? listed(xs) : o;
        }
      case "subList":
        {
          T v = T.mk("new", "java.util.SubList#" + T.freshId()), c = ev.lst(st, o);
          if (ev.inStatic) ev.staticObjs.add(v);
          st.cells.put(T.mk("lst", null, v), T.lsub(c, av[0], T.sub(av[1], av[0])));
          return v;
        }
      case "stream":
        return Streams.of(o);
      case "parallelStream":
        return streams.call("", "parallel", Streams.of(o), List.of(), st, f, pos);
      default:
        return null;
    }
  }

  void mutMap(T o, String k, T key, T val, St st, String pos) {
    Eff q = new Eff(k, pos);
    q.obj = o;
    q.pos0 = key;
    q.val = val;
    st.tr.add(q);
  }

  private T keyMismatch(JCExpression e, Type rtype) {
    if (rtype == null || rtype.getTypeArguments().isEmpty()) return null;
    String k = boxed(rtype.getTypeArguments().head), a = boxed(argType(e, 0));
    return k != null && a != null && !k.equals(a) ? T.FALSE : null;
  }

  private static final Set<String> READS = Set.of("get", "containsKey", "getOrDefault", "size", "isEmpty", "values", "keySet", "entrySet", "containsValue", "forEach");

  T map(String n, T o, List<T> as, JCExpression e, St st, String pos, Type rtype) {
    if (o.is("roview")) {
      if (READS.contains(n)) return map(n, o.k[0], as, e, st, pos, rtype);
      if (n.equals("equals") || n.equals("hashCode") || n.equals("toString")) return null;
      ev.throwIt(st, "java.lang.UnsupportedOperationException", pos);
      return T.NULL;
    }
    T[] av = as.toArray(new T[0]);
    T c = ev.content(st, "map", o);
    switch (n) {
      case "get":
        if (keyMismatch(e, rtype) != null) return T.NULL;
        return T.mget(c, av[0]);
      case "containsKey":
        if (keyMismatch(e, rtype) != null) return T.FALSE;
        return T.not(T.isnull(T.mget(c, av[0])));
      case "containsValue":
        {
          // a value of a class the values cannot have is not among them
          Type a = argType(e, 0);
          if (a != null && rtype != null && rtype.getTypeArguments().size() == 2 && (ev.ty(a).equals("java.lang.String") || boxed(a) != null)) {
            Type v = ev.p.types.erasure(rtype.getTypeArguments().tail.head), w = ev.p.types.boxedTypeOrType(ev.p.types.erasure(a));
            if (!ev.p.types.isSubtype(w, v)) return T.FALSE;
          }
          return plainEquals(av[0]) ? T.mhas(c, av[0]) : null;
        }
      case "getOrDefault":
        {
          T g = T.mget(c, av[0]);
          return T.gamma(T.isnull(g), av[1], g);
        }
      case "put":
        {
          T old = T.mget(c, av[0]);
          mutMap(o, "MPUT", av[0], av[1], st, pos);
          put(o, c, av[0], av[1], st, pos);
          return old;
        }
      case "putIfAbsent":
        {
          T old = T.mget(c, av[0]);
          ev.branch(st, T.isnull(old), s -> {
            mutMap(o, "MPUT", av[0], av[1], s, pos);
            put(o, c, av[0], av[1], s, pos);
          }, s -> {}, pos);
          return old;
        }
      case "computeIfAbsent":
        {
          T old = T.mget(c, av[0]);
          T nv = ev.choose(st, T.isnull(old), s -> {
            T v = ev.closure(av[1], List.of(av[0]), s, pos);
            mutMap(o, "MPUT", av[0], v, s, pos);
            put(o, c, av[0], v, s, pos);
            return v;
          }, s -> old, pos);
          return nv;
        }
      case "remove":
        {
          if (av.length == 2) {
            T old = T.mget(c, av[0]);
            T hit = T.and(T.not(T.isnull(old)), T.objEq(old, av[1]));
            ev.branch(st, hit, s -> {
              mutMap(o, "MREM", av[0], null, s, pos);
              s.cells.put(T.mk("map", null, o), T.mk("mrem", null, c, av[0]));
            }, s -> {}, pos);
            return hit;
          }
          if (keyMismatch(e, rtype) != null) return T.NULL;
          T old = T.mget(c, av[0]);
          mutMap(o, "MREM", av[0], null, st, pos);
          st.cells.put(T.mk("map", null, o), T.mk("mrem", null, c, av[0]));
          return old;
        }
      case "replaceAll":
        {
          T key = T.mk("bk", null), val = T.mk("bvl", null);
          T w = ev.closure(av[0], List.of(key, val), st, pos);
          mutMap(o, "MPUT", T.mk("where", null, T.TRUE), w, st, pos);
          st.cells.put(T.mk("map", null, o), T.mk("mapall", null, c, w));
          return T.UNIT;
        }
      case "merge":
      case "compute":
      case "computeIfPresent":
        {
          T old = T.mget(c, av[0]);
          boolean merge = n.equals("merge");
          java.util.function.Function<St, T> with = s -> {
            T v = merge ? ev.closure(av[2], List.of(old, av[1]), s, pos) : ev.closure(av[1], List.of(av[0], old), s, pos);
            return keep(o, av[0], v, s, pos);
          };
          if (n.equals("compute")) return with.apply(st);
          return ev.choose(st, T.isnull(old), s -> merge ? keep(o, av[0], av[1], s, pos) : T.NULL, with, pos);
        }
      case "replace":
        {
          T old = T.mget(c, av[0]);
          T hit = av.length == 3 ? T.and(T.not(T.isnull(old)), T.objEq(old, av[1])) : T.not(T.isnull(old));
          ev.branch(st, hit, s -> keep(o, av[0], av[av.length - 1], s, pos), s -> {}, pos);
          return av.length == 3 ? hit : old;
        }
      case "putAll":
        {
          Deque<T> ps = new ArrayDeque<>();
          T from = ev.content(st, "map", av[0].is("roview") ? av[0].k[0] : av[0]);
          while (from.is("mput")) {
            ps.push(from);
            from = from.k[0];
          }
          if (!from.is("mempty")) break;
          for (T x : ps) {
            T now = ev.content(st, "map", o);
            mutMap(o, "MPUT", x.k[1], x.k[2], st, pos);
            put(o, now, x.k[1], x.k[2], st, pos);
          }
          return T.UNIT;
        }
      case "clear":
        mutMap(o, "MCLR", null, null, st, pos);
        st.cells.put(T.mk("map", null, o), T.mk("mempty", null));
        return T.UNIT;
      case "size":
        return T.msize(c);
      case "isEmpty":
        return T.eq0(T.msize(c));
      case "values":
        return T.mk("mvals", null, o);
      case "keySet":
        return T.mk("mkeys", null, o);
      case "entrySet":
        return T.mk("ments", null, o);
      default:
        break;
    }
    return null;
  }

  /** stores what a computed entry came to: nothing means none */
  private T keep(T o, T key, T v, St st, String pos) {
    ev.branch(st, T.isnull(v), s -> {
      mutMap(o, "MREM", key, null, s, pos);
      s.cells.put(T.mk("map", null, o), T.mk("mrem", null, ev.content(s, "map", o), key));
    }, s -> {
      T now = ev.content(s, "map", o);
      mutMap(o, "MPUT", key, v, s, pos);
      put(o, now, key, v, s, pos);
    }, pos);
    return v;
  }

  /** nothing is known any more of what a collection holds */
  void smear(St st, T o, String q) {
    if (o == null) return;
    String c = o.is("new") ? ev.className(o) : null;
    if (o.is("gamma")) {
      smear(st, o.k[1], q);
      smear(st, o.k[2], q);
      return;
    }
    T arr = T.mk("arr", null, o);
    String n = q.substring(q.lastIndexOf('.') + 1);
    if ((st.cells.containsKey(arr) || ev.isStaticObj(o) && "array".equals(c)) && n.matches("(get|read|fill|sort|parallel|setAll|reverse|shuffle|next|copy|transfer|into|update|inflate|deflate|encode|decode|digest|doFinal).*")) {
      st.cells.put(arr, T.opaque("after " + q));
      arrWritten(st, o, "");
    }
    for (String k : new String[] {"lst", "map", "sb"}) {
      T cell = T.mk(k, null, o);
      boolean holds = k.equals("lst") ? c != null && (listClass(c) || Streams.setClass(c)) : k.equals("map") ? c != null && mapClass(c) : false;
      if (st.cells.containsKey(cell) || holds) st.cells.put(cell, T.opaque("after " + q));
    }
  }

  /** an object for which equals is a matter of identity, or one of which nothing is known */
  private boolean plainEquals(T v) {
    if (!v.is("new")) return v.is("param");
    ClassSymbol c = ev.p.cls(ev.className(v));
    MethodSymbol q = c == null ? null : ev.p.method(c, "equals", "java.lang.Object");
    return c != null && (q == null || q.owner.toString().equals("java.lang.Object"));
  }

  /** the entries of a map put together here from constants, or null */
  static List<T> entries(T m) {
    Map<T, T> es = new LinkedHashMap<>();
    while (m.is("mput")) {
      T k = m.k[1];
      if (!(k.isNum() || k.is("str") || k.is("enum") || k.is("class"))) return null;
      es.putIfAbsent(k, m.k[2]);
      m = m.k[0];
    }
    if (!m.is("mempty")) return null;
    List<T> out = new ArrayList<>();
    for (Map.Entry<T, T> e : es.entrySet()) out.add(0, T.mk("ment", null, e.getKey(), e.getValue()));
    return out;
  }

  /** the i-th entry of a map, by its iteration order */
  static T viewElem(T view, T c, T i) {
    T k = T.mk("mkat", null, c, i), v = T.mk("mvat", null, c, i);
    return view.is("mvals") ? v : view.is("mkeys") ? k : T.mk("ment", null, k, v);
  }

  T mapView(String n, T v, List<T> as, St st, Eval.Frame f, String pos) {
    T o = v.k[0];
    T c = ev.content(st, "map", o);
    if (n.equals("removeIf")) {
      T key = T.mk("bk", null), val = T.mk("bvl", null);
      T arg = v.is("mvals") ? val : v.is("mkeys") ? key : T.mk("ment", null, key, val);
      T pr = ev.closure(as.get(0), List.of(arg), st, pos);
      mutMap(o, "MREM", T.mk("where", null, pr), null, st, pos);
      st.cells.put(T.mk("map", null, o), T.mk("mfilter", null, c, pr));
      if (pr.is("objeq") && (pr.k[0] == key || pr.k[1] == key)) {
        T x = pr.k[0] == key ? pr.k[1] : pr.k[0];
        if (!x.has(val)) return T.not(T.isnull(T.mget(c, x)));
      }
      return T.opaque("removed");
    }
    if (n.equals("remove")) {
      // removes one entry: the key itself, or some entry with that value
      mutMap(o, "MREM", v.is("mkeys") ? as.get(0) : T.mk("onewhere", null, as.get(0)), null, st, pos);
      st.cells.put(T.mk("map", null, o), v.is("mkeys") ? T.mk("mrem", null, c, as.get(0)) : T.mk("mrem1", null, c, as.get(0)));
      return v.is("mkeys") ? T.not(T.isnull(T.mget(c, as.get(0)))) : T.opaque("removed");
    }
    if (n.equals("clear")) {
      mutMap(o, "MCLR", null, null, st, pos);
      st.cells.put(T.mk("map", null, o), T.mk("mempty", null));
      return T.UNIT;
    }
    if (n.equals("contains") && v.is("mkeys")) return T.not(T.isnull(T.mget(c, as.get(0))));
    if (n.equals("contains") && v.is("mvals")) return plainEquals(as.get(0)) ? T.mhas(c, as.get(0)) : T.pure("Map.containsValue", c, as.get(0));
    if (n.equals("size")) return T.msize(c);
    if (n.equals("isEmpty")) return T.eq0(T.msize(c));
    if (n.equals("removeAll") && as.size() == 1) {
      T l = ev.lst(st, as.get(0));
      List<T> xs = items(l);
      if (xs == null) return null;
      T el = v.is("mvals") ? T.mk("bvl", null) : T.mk("bk", null), hit = T.FALSE;
      for (T x : xs) hit = T.or(hit, T.objEq(el, x));
      mutMap(o, "MREM", T.mk("where", null, hit), null, st, pos);
      st.cells.put(T.mk("map", null, o), T.mk("mfilter", null, c, hit));
      return T.opaque("removed");
    }
    if (n.equals("iterator")) {
      T it = T.mk("miter", T.freshId(), v);
      st.cells.put(T.mk("itpos", null, it), T.ZERO);
      st.cells.put(T.mk("itmap", null, it), c);
      return it;
    }
    if (n.equals("forEach")) {
      ev.foreach(v, null, st, f, pos, (s, x) -> ev.closure(as.get(0), List.of(x), s, pos));
      return T.UNIT;
    }
    return null;
  }

  T stream(String n, T r, List<T> as, St st, String pos) {
    if (r.is("strm")) {
      switch (n) {
        case "filter":
          {
            T[] k = r.k.clone();
            for (int i = 0; i < k.length; i += 2)
              k[i] = T.and(k[i], ev.closure(as.get(0), List.of(k[i + 1]), st, pos));
            return T.mk("strm", null, k);
          }
        case "map":
          {
            T[] k = r.k.clone();
            for (int i = 0; i < k.length; i += 2) k[i + 1] = ev.closure(as.get(0), List.of(k[i + 1]), st, pos);
            return T.mk("strm", null, k);
          }
        case "findFirst":
        case "findAny":
          {
            T v = T.NULL;
            for (int i = r.k.length - 2; i >= 0; i -= 2) v = T.gamma(r.k[i], r.k[i + 1], v);
            return T.mk("opt", null, v);
          }
        case "anyMatch":
          {
            T v = T.FALSE;
            for (int i = 0; i < r.k.length; i += 2)
              v = T.or(v, T.and(r.k[i], ev.closure(as.get(0), List.of(r.k[i + 1]), st, pos)));
            return v;
          }
        case "forEach":
          for (int i = 0; i < r.k.length; i += 2) {
            T x = r.k[i + 1];
            ev.branch(st, r.k[i], s -> ev.closure(as.get(0), List.of(x), s, pos), s -> {}, pos);
          }
          return T.UNIT;
        default:
          {
            T l = T.mk("lempty", null);
            for (int i = 0; i < r.k.length; i += 2) {
              if (r.k[i] != T.TRUE) return null;
              l = T.mk("lapp", null, l, r.k[i + 1]);
            }
            return streams.call("", n, Streams.of(streams.box(l, st)), as, st, null, pos);
          }
      }
    }
    if (r.is("opt")) {
      T x = r.k[0];
      switch (n) {
        case "isPresent":
          return T.not(T.isnull(x));
        case "isEmpty":
          return T.isnull(x);
        case "get":
        case "orElseThrow":
          ev.branch(st, T.isnull(x), s -> {
            String ty = "java.util.NoSuchElementException";
            if (!as.isEmpty()) {
              T ex = ev.closure(as.get(0), List.of(), s, pos);
              String c = ev.className(ex);
              ty = c == null ? "java.lang.RuntimeException" : c;
            }
            ev.throwIt(s, ty, pos);
          }, s -> {}, pos);
          return present(x);
        case "orElse":
          return T.gamma(T.isnull(x), as.get(0), x);
        case "orElseGet":
          return ev.choose(st, T.isnull(x), s -> ev.closure(as.get(0), List.of(), s, pos), s -> x, pos);
        case "map":
          return T.mk("opt", null, ev.choose(st, T.isnull(x), s -> T.NULL, s -> ev.closure(as.get(0), List.of(x), s, pos), pos));
        case "filter":
          return T.mk("opt", null, ev.choose(st, T.isnull(x), s -> T.NULL, s -> T.gamma(ev.closure(as.get(0), List.of(x), s, pos), x, T.NULL), pos));
        case "ifPresent":
          ev.branch(st, T.isnull(x), s -> {}, s -> ev.closure(as.get(0), List.of(x), s, pos), pos);
          return T.UNIT;
        default:
          return null;
      }
    }
    return null;
  }

  /** x without its null alternatives */
  T present(T x) {
    if (x.is("gamma")) {
      if (x.k[1] == T.NULL) return present(x.k[2]);
      if (x.k[2] == T.NULL) return present(x.k[1]);
    }
    return x;
  }
}
