package wirefx;

import java.util.*;
import java.util.function.BiConsumer;

/**
 * Streams over lists and ranges: an immutable term of a source and stages, run element by element at the terminal
 * operation, as java.util.stream does it. The source is a list object, or a range of numbers.
 */
final class Streams {
  final Lib lib;
  final Eval ev;

  Streams(Lib lib, Eval ev) {
    this.lib = lib;
    this.ev = ev;
  }

  static boolean is(T t) {
    return t != null && t.is("lstrm");
  }

  /** a stream over the elements of a list object */
  static T of(T list) {
    return T.mk("lstrm", "", list);
  }

  private static T stage(T s, char kind, T clo) {
    T[] k = Arrays.copyOf(s.k, s.k.length + 1);
    k[s.k.length] = clo;
    return T.mk("lstrm", (String) s.a + kind, k);
  }

  /** a list object with these contents */
  T box(T content, St st) {
    T o = T.mk("new", "java.util.stream.Source#" + T.freshId());
    st.cells.put(T.mk("lst", null, o), content);
    return o;
  }

  private void each(T s, St st, Eval.Frame f, String pos, BiConsumer<St, T> sink) {
    T src = s.k[0];
    if (src.is("irange")) {
      T lo = src.k[0];
      ev.iterate(st, f, pos, T.trip(T.sub(src.k[1], lo)), (x, i) -> run(s, 0, T.add(lo, i), x, pos, sink));
    } else
      ev.iterate(st, f, pos, T.size(ev.lst(st, src)), (x, i) -> run(s, 0, T.lget(ev.lst(x, src), i, "java.lang.Object"), x, pos, sink));
  }

  private void run(T s, int i, T v, St st, String pos, BiConsumer<St, T> sink) {
    String kinds = (String) s.a;
    if (i == kinds.length()) {
      sink.accept(st, v);
      return;
    }
    T c = s.k[i + 1];
    switch (kinds.charAt(i)) {
      case 'm':
        run(s, i + 1, ev.closure(c, List.of(v), st, pos), st, pos, sink);
        break;
      case 'p':
        ev.closure(c, List.of(v), st, pos);
        run(s, i + 1, v, st, pos, sink);
        break;
      case 'f':
        {
          T b = ev.closure(c, List.of(v), st, pos);
          ev.branch(st, b, x -> run(s, i + 1, v, x, pos, sink), x -> {}, pos);
          break;
        }
      default:
        run(s, i + 1, v, st, pos, sink);
    }
  }

  /** contents of the stream, as a list */
  T contents(T s, St st, Eval.Frame f, String pos) {
    if (s.k.length == 1 && !s.k[0].is("irange")) return ev.lst(st, s.k[0]);
    T o = box(T.mk("lempty", null), st);
    each(s, st, f, pos, (x, v) -> ev.setContent(x, "lst", o, c -> T.mk("lapp", null, c, v)));
    return ev.lst(st, o);
  }

  T call(String owner, String n, T s, List<T> as, St st, Eval.Frame f, String pos) {
    T a = as.isEmpty() ? null : as.get(0);
    switch (n) {
      case "map":
      case "mapToObj":
      case "mapToInt":
      case "mapToLong":
        return stage(s, 'm', a);
      case "filter":
        return stage(s, 'f', a);
      case "peek":
        return stage(s, 'p', a);
      case "boxed":
      case "sequential":
      case "asLongStream":
      case "onClose":
        return T.mk("lstrm", ((String) s.a).replace("P", ""), without(s, 'P'));
      case "unordered":
        return s;
      case "parallel":
        return stage(s, 'P', T.ZERO);
      case "sorted":
        return of(box(T.mk("lperm", "sorted", cons(contents(s, st, f, pos), as)), st));
      case "distinct":
        return of(box(distinct(contents(s, st, f, pos)), st));
      case "limit":
        {
          T c = contents(s, st, f, pos);
          return of(box(T.lsub(c, T.ZERO, T.min(a, T.size(c))), st));
        }
      case "skip":
        {
          T c = contents(s, st, f, pos), k = T.min(a, T.size(c));
          return of(box(T.lsub(c, k, T.sub(T.size(c), k)), st));
        }
      case "forEach":
      case "forEachOrdered":
        {
          T src = s;
          if (((String) s.a).indexOf('P') >= 0 && n.equals("forEach"))
            src = of(box(T.mk("lperm", "any order", contents(s, st, f, pos), T.mk("env", "order of a parallel stream")), st));
          each(src, st, f, pos, (x, v) -> ev.closure(a, List.of(v), x, pos));
          return T.UNIT;
        }
      case "count":
        return T.size(contents(s, st, f, pos));
      case "sum":
        {
          T acc = T.mk("loc", "acc" + T.freshId());
          st.cells.put(acc, T.ZERO);
          each(s, st, f, pos, (x, v) -> x.cells.put(acc, T.add(x.cells.get(acc), v)));
          T r = st.cells.remove(acc);
          return owner.endsWith("IntStream") ? T.ext(32, true, r) : r;
        }
      case "toList":
        return box(contents(s, st, f, pos), st);
      case "collect":
        if (as.size() != 1 || !a.is("collector")) return null;
        switch ((String) a.a) {
          case "toList":
          case "toUnmodifiableList":
            {
              T o = T.mk("new", "java.util.ArrayList#" + T.freshId());
              st.cells.put(T.mk("lst", null, o), contents(s, st, f, pos));
              return o;
            }
          case "toSet":
            {
              T o = T.mk("new", "java.util.HashSet#" + T.freshId());
              st.cells.put(T.mk("lst", null, o), contents(s, st, f, pos));
              return o;
            }
          case "toCollection":
            {
              T o = ev.closure(a.k[0], List.of(), st, pos), c = contents(s, st, f, pos);
              ev.setContent(st, "lst", o, x -> T.lcat(x, c));
              return o;
            }
          case "joining":
            return null;
          default:
            return null;
        }
      case "anyMatch":
      case "allMatch":
      case "noneMatch":
        {
          // no effects of its own: whether there is an element in the filtered list
          T c = contents(stage(s, 'f', a), st, f, pos);
          if (n.equals("allMatch")) return T.lt(T.size(c), T.size(contents(s, st, f, pos))) == T.TRUE ? T.FALSE : T.eq0(T.sub(T.size(contents(s, st, f, pos)), T.size(c)));
          T none = T.eq0(T.size(c));
          return n.equals("noneMatch") ? none : T.not(none);
        }
      default:
        return null;
    }
  }

  private static T[] cons(T x, List<T> as) {
    T[] r = new T[as.size() + 1];
    r[0] = x;
    for (int i = 0; i < as.size(); i++) r[i + 1] = as.get(i);
    return r;
  }

  private static T[] without(T s, char kind) {
    List<T> k = new ArrayList<>();
    k.add(s.k[0]);
    for (int i = 1; i < s.k.length; i++) if (((String) s.a).charAt(i - 1) != kind) k.add(s.k[i]);
    return k.toArray(new T[0]);
  }

  /** the list without later elements equal to earlier ones */
  static T distinct(T l) {
    if (l.is("lempty") || l.is("lapp") && l.k[0].is("lempty")) return l;
    return T.mk("ldist", null, l);
  }

  static boolean setClass(String c) {
    return c.equals("java.util.HashSet") || c.equals("java.util.LinkedHashSet") || c.equals("java.util.TreeSet") || c.equals("java.util.concurrent.CopyOnWriteArraySet");
  }

  /** what a set holds after these insertions, in its order */
  static T asSet(String c, T l) {
    T d = distinct(l);
    if (d == l) return l;
    if (c.equals("java.util.HashSet")) return T.mk("lperm", "any order", d, T.mk("env", "order of a hash set"));
    return c.equals("java.util.TreeSet") ? T.mk("lperm", "sorted", d) : d;
  }
}
