package wirefx;

import java.util.*;

/** Abstract state at a program point: memory cells, control flags and the effects so far. */
final class St {
  /** settles conditions from outside, when set */
  static java.util.function.UnaryOperator<T> oracle;

  final HashMap<T, T> cells;
  List<Eff> tr = new ArrayList<>();
  T ret = T.FALSE, retv, brk = T.FALSE, cont = T.FALSE;
  String brkLabel, contLabel;
  boolean thrown;
  String thrownType;
  List<T> pc = new ArrayList<>();

  St() {
    cells = new HashMap<>();
  }

  St(St o) {
    cells = new HashMap<>(o.cells);
    ret = o.ret;
    retv = o.retv;
    brk = o.brk;
    cont = o.cont;
    thrown = o.thrown;
    pc = new ArrayList<>(o.pc);
  }

  St fork(T assume) {
    St s = new St(this);
    s.assume(assume);
    return s;
  }

  void assume(T c) {
    if (c == null || c.isBoolConst()) return;
    if (c.is("and")) for (T x : c.k) assume(x);
    else if (!pc.contains(c)) pc.add(c);
  }

  T live() {
    if (thrown) return T.FALSE;
    return T.not(T.or(ret, T.or(brk, cont)));
  }

  /** what is known about a condition here */
  T decide(T c) {
    if (oracle != null && !c.isBoolConst()) c = oracle.apply(c);
    if (c.isBoolConst() || pc.isEmpty()) return c;
    HashMap<T, T> m = new HashMap<>();
    for (T p : pc) {
      m.put(p, T.TRUE);
      m.put(T.not(p), T.FALSE);
    }
    return dec(c, m);
  }

  private static T dec(T c, Map<T, T> m) {
    T v = m.get(c);
    if (v != null) return v;
    switch (c.op) {
      case "and":
        {
          T r = T.TRUE;
          for (T x : c.k) r = T.and(r, dec(x, m));
          return r;
        }
      case "or":
        {
          T r = T.FALSE;
          for (T x : c.k) r = T.or(r, dec(x, m));
          return r;
        }
      case "not":
        return T.not(dec(c.k[0], m));
      default:
        return c;
    }
  }
}
