package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import com.sun.tools.javac.tree.*;
import com.sun.tools.javac.tree.JCTree.*;
import java.util.*;
import java.util.function.*;

/**
 * Abstract interpreter. One pass over a method's syntax tree yields a summary: the gated list of
 * its effects (writes, reads, nested encodes, throws, ...), the final contents of the memory cells
 * it touched and its result, all as terms. Loops are summarised, calls into the repository are
 * inlined, calls into libraries go through {@link Lib}.
 */
final class Eval {
  final Prog p;
  final Lib lib;
  /** state left by the static initialisers */
  final St sw = new St();

  final Set<Symbol> inited = new HashSet<>();
  final Set<T> staticObjs = new HashSet<>();
  final Map<String, LoopInfo> loops = new HashMap<>();
  boolean leafCodec = true; // encode/decode of other messages stay symbolic
  Set<String> leafMethods = new HashSet<>(); // fixed-text intrinsics
  int unrollAll = 0;
  boolean inStatic = false;
  int depth = 0;
  Deque<Object[]> stack = new ArrayDeque<>();
  Set<Symbol> visited = new LinkedHashSet<>();
  int calls = 0;

  static final class LoopInfo {
    int id;
    T idx, trip;
    List<T> cells = new ArrayList<>(), phis = new ArrayList<>(), inits = new ArrayList<>(),
        steps = new ArrayList<>();
    String pos;
    T cond;
    boolean leaves;
  }

  static final class Frame {
    final int id = T.freshId();
    Symbol owner;
    T self;
    ClassSymbol selfClass;
  }

  static final class Clo {
    JCTree tree;
    Frame fr;
    Type type;
    Symbol owner;
    T recv; // bound receiver of a method reference
  }

  final Map<T, Clo> clos = new HashMap<>();

  Eval(Prog p) {
    this.p = p;
    this.lib = new Lib(this);
    leafMethods.add("writeFixedString/5");
    leafMethods.add("readFixedString/4");
  }

  static final class Abort extends RuntimeException {
    Abort(String m) {
      super(m, null, false, false);
    }
  }

  // ------------------------------------------------------------------ names

  static String ty(Type t, Types types) {
    if (t == null) return "";
    if (t.isPrimitive() || t.hasTag(TypeTag.VOID)) return t.toString();
    String s = types.erasure(t).tsym == null ? t.toString() : types.erasure(t).tsym.flatName().toString();
    if (s.startsWith("java.lang.")) {
      String q = s.substring(10);
      if (T.PRIMW.containsKey(q) || q.equals("Boolean") || q.equals("Float") || q.equals("Double"))
        return q;
    }
    return s;
  }

  String ty(Type t) {
    return ty(t, p.types);
  }

  String fkey(VarSymbol v) {
    String k = v.owner.flatName() + "." + v.name + ":" + ty(v.type);
    if (v.type.getTypeArguments().size() == 1 && p.types.asSuper(v.type, p.syms.iterableType.tsym) != null) T.ELEM.putIfAbsent(k, ty(v.type.getTypeArguments().head));
    return k;
  }

  T heapCell(VarSymbol v, T obj) {
    return T.mk("heap", fkey(v), obj);
  }

  T loc(Frame f, Symbol v) {
    return T.mk("loc", System.identityHashCode(v) + "/" + v.name + "@" + f.id);
  }

  // ------------------------------------------------------------------ entry points

  static final class Summary {
    St st;
    List<Eff> tr;
    T ret;
    T self;
    List<T> args = new ArrayList<>();
    MethodSymbol m;
  }

  T thisOf(ClassSymbol c) {
    return T.mk("this", c.flatName().toString());
  }

  Summary run(ClassSymbol c, MethodSymbol m) {
    return run(c, m, null, null);
  }

  Summary run(ClassSymbol c, MethodSymbol m, List<T> args, St from) {
    Summary s = new Summary();
    s.m = m;
    s.self = m.isStatic() ? null : c.isEnum() ? T.mk("param", "self:" + c.flatName()) : thisOf(c);
    if (args == null) {
      args = new ArrayList<>();
      for (VarSymbol v : m.params()) args.add(T.mk("param", v.name + ":" + ty(v.type)));
    }
    s.args = args;
    St st = from == null ? new St() : from;
    s.st = st;
    s.ret = invoke(m, s.self, args, st, p.pos(m), true);
    T[] ret = {s.ret};
    s.tr = st.tr = new Scratch(lib).process(st.tr, st, ret);
    s.ret = ret[0];
    return s;
  }

  // ------------------------------------------------------------------ statics

  /** classes whose initialiser fails on every path, and where */
  final Map<ClassSymbol, String> failed = new LinkedHashMap<>();

  /** initialises the class for a use of it */
  void init(ClassSymbol c, St st, String pos) {
    init(c);
    if (failed.containsKey(c)) throwIt(st, "java.lang.ExceptionInInitializerError", pos);
  }

  void init(ClassSymbol c) {
    if (c == null || !p.classes.containsKey(c) || !inited.add(c)) return;
    Type sup = p.types.supertype(c.type);
    if (sup != null && sup.tsym instanceof ClassSymbol) init((ClassSymbol) sup.tsym);
    boolean was = inStatic;
    inStatic = true;
    int d = depth;
    List<T> pc = sw.pc;
    sw.pc = new ArrayList<>();
    List<Eff> keep = sw.tr;
    sw.tr = new ArrayList<>();
    Frame f = new Frame();
    f.owner = c;
    JCClassDecl cd = p.classes.get(c);
    for (JCTree t : cd.defs) {
      if (sw.thrown) {
        failed.put(c, p.pos(c));
        sw.thrown = false;
        break;
      }
      if (t instanceof JCVariableDecl && ((JCVariableDecl) t).sym.isStatic()) {
        JCVariableDecl v = (JCVariableDecl) t;
        T val;
        if ((v.sym.flags() & Flags.ENUM) != 0 && v.init instanceof JCNewClass) {
          val = T.mk("enum", c.flatName() + "." + v.name);
          staticObjs.add(val);
          JCNewClass nc = (JCNewClass) v.init;
          List<T> args = new ArrayList<>();
          for (JCExpression e : nc.args) args.add(eval(e, sw, f));
          sw.cells.put(T.mk("sfield", fkey(v.sym)), val);
          construct(c, (MethodSymbol) nc.constructor, val, args, sw, p.pos(c, v));
        } else if (v.init != null) {
          val = evalInit(v.init, v.sym.type, sw, f);
        } else val = dflt(v.sym.type);
        sw.cells.put(T.mk("sfield", fkey(v.sym)), val);
      } else if (t instanceof JCBlock && (((JCBlock) t).flags & Flags.STATIC) != 0) {
        exec(t, sw, f);
      }
    }
    clinitTrace.put(c, sw.tr);
    if (sw.thrown) failed.put(c, p.pos(c));
    if (failed.containsKey(c)) Eff.walk(sw.tr, x -> {
      if (x.is("THROW")) failed.put(c, x.pos);
    });
    sw.tr = keep;
    sw.pc = pc;
    sw.thrown = false;
    inStatic = was;
    depth = d;
  }

  final Map<ClassSymbol, List<Eff>> clinitTrace = new LinkedHashMap<>();

  T dflt(Type t) {
    if (t.hasTag(TypeTag.BOOLEAN)) return T.FALSE;
    if (t.hasTag(TypeTag.FLOAT) || t.hasTag(TypeTag.DOUBLE)) return T.mk("fp", 0.0);
    if (t.isPrimitive()) return T.ZERO;
    return T.NULL;
  }

  boolean isStaticObj(T o) {
    return staticObjs.contains(o);
  }

  // ------------------------------------------------------------------ cells

  T get(St st, T cell) {
    T v = st.cells.get(cell);
    if (v != null) return v;
    return dfltCell(cell);
  }

  /** contents of a cell nobody has written yet in the code under analysis */
  T dfltCell(T cell) {
    T o = cell.k.length > 0 ? cell.k[0] : null;
    switch (cell.op) {
      case "heap":
        {
          if (o.is("gamma"))
            return T.gamma(o.k[0], dfltCell(T.mk("heap", cell.a, o.k[1])), dfltCell(T.mk("heap", cell.a, o.k[2])));
          if (isStaticObj(o)) {
            T v = sw.cells.get(cell);
            if (v != null && !mutableFields.contains(cell.a)) return v;
          }
          return T.mk("fld", cell.a, o);
        }
      case "cur":
        if (cell.a.equals("w")) return T.add(T.mk("cursor0", "r", o), T.mk("avail", null, o));
        return T.mk("cursor0", cell.a, o);
      case "mark":
        return T.opaque("mark");
      case "lst":
        if (o.is("gamma")) return T.gamma(o.k[0], dfltCell(T.mk("lst", null, o.k[1])), dfltCell(T.mk("lst", null, o.k[2])));
        if (o.is("null")) return T.mk("lempty", null);
        if (isStaticObj(o)) {
          T v = sw.cells.get(cell);
          if (v != null && !later(o)) return v;
        }
        return T.mk("lof", null, o);
      case "map":
        if (isStaticObj(o) && inStatic) {
          T v = sw.cells.get(cell);
          if (v != null) return v;
        }
        return T.mk("map0", null, o);
      case "arr":
        if (o.is("gamma")) return T.gamma(o.k[0], dfltCell(T.mk("arr", null, o.k[1])), dfltCell(T.mk("arr", null, o.k[2])));
        if (isStaticObj(o)) {
          T v = sw.cells.get(cell);
          if (v != null && !later(o)) return v;
        }
        return o;
      case "sb":
        return T.mk("sb0", null, o);
      case "decoded":
        return T.FALSE;
      case "sfield":
        {
          T v = sw.cells.get(cell);
          if (v != null && !mutableFields.contains(cell.a)) return v;
          return T.mk("sfld", cell.a);
        }
      default:
        return null;
    }
  }

  /** is this the object of a static field whose contents change after the class was initialised? */
  private boolean later(T o) {
    if (inStatic || !o.is("new") && !o.is("newarr")) return false;
    for (Symbol s : p.filledLater) {
      T v = sw.cells.get(T.mk("sfield", fkey((VarSymbol) s)));
      if (v != null && v.any(x -> x == o)) return true;
    }
    return false;
  }

  final Set<Object> mutableFields = new HashSet<>();

  void prepare() {
    for (Symbol s : p.assignedOutsideInit) mutableFields.add(fkey((VarSymbol) s));
  }

  T lst(St st, T o) {
    T c = content(st, "lst", o);
    return lib.isSet(o) ? Streams.asSet(className(o), c) : c;
  }

  T content(St st, String kind, T o) {
    T v = st.cells.get(T.mk(kind, null, o));
    if (v != null) return v;
    if (o.is("gamma"))
      return T.gamma(o.k[0], content(st, kind, o.k[1]), content(st, kind, o.k[2]));
    return dfltCell(T.mk(kind, null, o));
  }

  void setContent(St st, String kind, T o, Function<T, T> f) {
    if (o.is("gamma") && !st.cells.containsKey(T.mk(kind, null, o))) {
      T c = o.k[0];
      setContent(st, kind, o.k[1], x -> T.gamma(c, f.apply(x), x));
      setContent(st, kind, o.k[2], x -> T.gamma(c, x, f.apply(x)));
      return;
    }
    T cell = T.mk(kind, null, o);
    st.cells.put(cell, f.apply(get(st, cell)));
  }

  T readHeap(St st, VarSymbol v, T obj) {
    return readHeap(st, fkey(v), obj);
  }

  T readHeap(St st, String key, T obj) {
    T cell = T.mk("heap", key, obj);
    T x = st.cells.get(cell);
    if (x != null) return x;
    if (obj.is("gamma"))
      return T.gamma(obj.k[0], readHeap(st, key, obj.k[1]), readHeap(st, key, obj.k[2]));
    return dfltCell(cell);
  }

  void writeHeap(St st, VarSymbol v, T obj, T val, String pos) {
    writeHeap(st, fkey(v), obj, val, T.TRUE, pos);
  }

  void writeHeap(St st, String key, T obj, T val, T guard, String pos) {
    if (obj.is("gamma")) {
      writeHeap(st, key, obj.k[1], val, T.and(guard, obj.k[0]), pos);
      writeHeap(st, key, obj.k[2], val, T.and(guard, T.not(obj.k[0])), pos);
      return;
    }
    if (obj.is("null")) return;
    T cell = T.mk("heap", key, obj);
    T old = get(st, cell);
    st.cells.put(cell, T.gamma(guard, val, old));
    if (!obj.is("new") || isStaticObj(obj)) {
      Eff e = new Eff(isStaticObj(obj) && !inStatic ? "SWRITE" : "FSET", pos);
      e.obj = obj;
      e.name = key;
      e.val = val;
      st.tr.add(e);
    }
  }

  void unknown(St st, String what, String pos) {
    Eff e = new Eff("UNK", pos);
    e.name = what;
    st.tr.add(e);
  }

  // ------------------------------------------------------------------ control

  /** run a under c and b otherwise, then join */
  void branch(St st, T c, Consumer<St> a, Consumer<St> b, String pos) {
    c = st.decide(c);
    if (c == T.TRUE) {
      a.accept(st);
      return;
    }
    if (c == T.FALSE) {
      b.accept(st);
      return;
    }
    St x = st.fork(c), y = st.fork(T.not(c));
    HashMap<T, T> curs = readCursors(st);
    a.accept(x);
    b.accept(y);
    int n = st.tr.size();
    join(st, c, x, y, pos);
    if (st.tr.size() > n) st.tr.get(n).curs = curs;
  }

  HashMap<T, T> readCursors(St st) {
    HashMap<T, T> m = new HashMap<>();
    for (Map.Entry<T, T> e : st.cells.entrySet())
      if (e.getKey().is("cur") && e.getKey().a.equals("r")) m.put(e.getKey().k[0], e.getValue());
    return m;
  }

  void join(St st, T c, St x, St y, String pos) {
    if (!x.tr.isEmpty() || !y.tr.isEmpty()) {
      Eff e = new Eff("CHO", pos);
      e.cond = c;
      e.a = x.tr;
      e.b = y.tr;
      st.tr.add(e);
    }
    if (x.thrown && y.thrown) {
      st.thrown = true;
      return;
    }
    if (x.thrown || y.thrown) {
      St o = x.thrown ? y : x;
      st.cells.clear();
      st.cells.putAll(o.cells);
      st.ret = o.ret;
      st.retv = o.retv;
      st.brk = o.brk;
      st.cont = o.cont;
      st.brkLabel = o.brkLabel;
      st.contLabel = o.contLabel;
      for (T q : o.pc) if (!st.pc.contains(q)) st.pc.add(q);
      return;
    }
    Set<T> keys = new LinkedHashSet<>(x.cells.keySet());
    keys.addAll(y.cells.keySet());
    HashMap<T, T> out = new HashMap<>();
    for (T k : keys) {
      T u = x.cells.get(k), v = y.cells.get(k);
      if (u == v) {
        out.put(k, u);
        continue;
      }
      if (u == null) u = dfltCell(k);
      if (v == null) v = dfltCell(k);
      if (u == null) out.put(k, v);
      else if (v == null) out.put(k, u);
      else if (isNewOnly(k, x, y)) out.put(k, x.cells.containsKey(k) ? u : v);
      else out.put(k, T.gamma(c, u, v));
    }
    st.cells.clear();
    st.cells.putAll(out);
    T xl = x.live(), yl = y.live();
    st.retv = x.retv == null ? y.retv : y.retv == null ? x.retv : x.retv == y.retv ? x.retv
        : x.ret == T.FALSE ? y.retv : y.ret == T.FALSE ? x.retv : T.gamma(c, x.retv, y.retv);
    st.ret = T.gamma(c, x.ret, y.ret);
    st.brk = T.gamma(c, x.brk, y.brk);
    st.cont = T.gamma(c, x.cont, y.cont);
    st.brkLabel = x.brkLabel != null ? x.brkLabel : y.brkLabel;
    st.contLabel = x.contLabel != null ? x.contLabel : y.contLabel;
  }

  /** cells of an object created in only one of the branches need no gate */
  private boolean isNewOnly(T k, St x, St y) {
    if (k.k.length == 0 || !k.k[0].is("new")) return false;
    return !(x.cells.containsKey(k) && y.cells.containsKey(k))
        && !isStaticObj(k.k[0]);
  }

  void execAll(List<? extends JCTree> l, int from, St st, Frame f) {
    for (int i = from; i < l.size(); i++) {
      T live = st.live();
      if (live == T.FALSE) return;
      if (live != T.TRUE) {
        int at = i;
        guarded(st, live, s -> execAll(l, at, s, f), p.pos(f.owner, l.get(i)));
        return;
      }
      exec(l.get(i), st, f);
    }
  }

  /** run the rest of a block only where control has not left it */
  void guarded(St st, T live, Consumer<St> rest, String pos) {
    St y = new St(st);
    y.assume(T.not(live));
    St x = new St(st);
    x.assume(live);
    x.ret = x.brk = x.cont = T.FALSE;
    T oldRetv = st.retv;
    x.retv = null;
    HashMap<T, T> curs = readCursors(st);
    rest.accept(x);
    if (x.retv == null) x.retv = oldRetv;
    int n = st.tr.size();
    join(st, live, x, y, pos);
    if (st.tr.size() > n) st.tr.get(n).curs = curs;
  }

  void exec(JCTree t, St st, Frame f) {
    if (st.thrown) return;
    String pos = p.pos(f.owner, t);
    switch (t.getTag()) {
      case BLOCK:
        execAll(((JCBlock) t).stats, 0, st, f);
        return;
      case EXEC:
        eval(((JCExpressionStatement) t).expr, st, f);
        return;
      case VARDEF:
        {
          JCVariableDecl v = (JCVariableDecl) t;
          T val = v.init == null ? dflt(v.sym.type) : evalInit(v.init, v.sym.type, st, f);
          st.cells.put(loc(f, v.sym), val);
          return;
        }
      case IF:
        {
          JCIf i = (JCIf) t;
          T c = cond(i.cond, st, f);
          if (st.thrown) return;
          branch(
              st,
              c,
              s -> exec(i.thenpart, s, f),
              s -> {
                if (i.elsepart != null) exec(i.elsepart, s, f);
              },
              pos);
          return;
        }
      case RETURN:
        {
          JCReturn r = (JCReturn) t;
          T v = T.UNIT;
          if (r.expr != null) {
            Type rt = f.owner instanceof MethodSymbol && !(lambdaDepth > 0) ? ((MethodSymbol) f.owner).getReturnType() : r.expr.type;
            v = evalInit(r.expr, rt, st, f);
          }
          if (st.thrown) return;
          st.retv = v;
          st.ret = T.TRUE;
          return;
        }
      case THROW:
        {
          JCThrow th = (JCThrow) t;
          eval(th.expr, st, f);
          throwIt(st, ty(th.expr.type), pos);
          return;
        }
      case BREAK:
        st.brk = T.TRUE;
        if (((JCBreak) t).label != null) st.brkLabel = ((JCBreak) t).label.toString();
        return;
      case CONTINUE:
        st.cont = T.TRUE;
        if (((JCContinue) t).label != null) st.contLabel = ((JCContinue) t).label.toString();
        return;
      case YIELD:
        {
          st.retv = eval(((JCYield) t).value, st, f);
          st.ret = T.TRUE;
          return;
        }
      case SKIP:
      case CLASSDEF:
        return;
      case ASSERT:
        return;
      case LABELLED:
        exec(((JCLabeledStatement) t).body, st, f);
        return;
      case SYNCHRONIZED:
        exec(((JCSynchronized) t).body, st, f);
        return;
      case FORLOOP:
        {
          JCForLoop l = (JCForLoop) t;
          execAll(l.init, 0, st, f);
          new Loop(st, f, pos).go(
              l.cond == null ? s -> T.TRUE : s -> cond(l.cond, s, f),
              s -> exec(l.body, s, f),
              s -> execAll(l.step, 0, s, f),
              null,
              true);
          return;
        }
      case WHILELOOP:
        {
          JCWhileLoop l = (JCWhileLoop) t;
          new Loop(st, f, pos).go(s -> cond(l.cond, s, f), s -> exec(l.body, s, f), null, null, true);
          return;
        }
      case DOLOOP:
        {
          JCDoWhileLoop l = (JCDoWhileLoop) t;
          new Loop(st, f, pos).go(s -> cond(l.cond, s, f), s -> exec(l.body, s, f), null, null, false);
          return;
        }
      case FOREACHLOOP:
        {
          JCEnhancedForLoop l = (JCEnhancedForLoop) t;
          T c = eval(l.expr, st, f);
          foreach(c, l.expr.type, st, f, pos, (s, e) -> {
            s.cells.put(loc(f, l.var.sym), e);
            exec(l.body, s, f);
          });
          return;
        }
      case SWITCH:
        {
          JCSwitch sw = (JCSwitch) t;
          T v = eval(sw.selector, st, f);
          doSwitch(v, sw.cases, 0, st, f, pos, null);
          return;
        }
      case TRY:
        doTry((JCTry) t, st, f, pos);
        return;
      default:
        unknown(st, "statement " + t.getTag(), pos);
    }
  }

  /** stands for a loop that does not end */
  static final String ENDLESS = "java.lang.Error (endless loop)";

  void throwIt(St st, String type, String pos) {
    Eff e = new Eff("THROW", pos);
    e.name = type;
    st.tr.add(e);
    st.thrown = true;
    st.thrownType = type;
  }

  // ---- switch

  /** old and new style switches; k receives the value when used as an expression */
  void doSwitch(T v, List<JCCase> cases, int from, St st, Frame f, String pos, T[] out) {
    // condition of each case
    boolean arrow = !cases.isEmpty() && cases.get(0).caseKind == CaseTree_RULE;
    List<T> conds = new ArrayList<>();
    T none = T.TRUE;
    int dflt = -1;
    for (int i = 0; i < cases.size(); i++) {
      T c = T.FALSE;
      for (JCCaseLabelOrExpr l : labels(cases.get(i))) {
        if (l.dflt) dflt = i;
        else c = T.or(c, caseEq(v, l.expr, st, f));
      }
      c = T.and(none, c);
      conds.add(c);
      none = T.and(none, T.not(c));
    }
    if (dflt >= 0) conds.set(dflt, T.or(conds.get(dflt), none));
    T brk0 = st.brk;
    T ret0 = st.ret;
    T retv0 = st.retv;
    switchCase(conds, 0, cases, arrow, st, f, pos, out != null);
    if (out != null) {
      out[0] = st.retv == null ? T.opaque("switch") : st.retv;
      st.ret = ret0;
      st.retv = retv0;
    } else if (st.brkLabel == null) st.brk = brk0;
  }

  private void switchCase(
      List<T> conds, int i, List<JCCase> cases, boolean arrow, St st, Frame f, String pos, boolean expr) {
    if (i >= cases.size()) return;
    branch(
        st,
        conds.get(i),
        s -> {
          if (arrow) {
            JCTree body = cases.get(i).body;
            if (body instanceof JCExpression) {
              T r = eval((JCExpression) body, s, f);
              if (expr && !s.thrown) {
                s.retv = r;
                s.ret = T.TRUE;
              }
            } else execAll(cases.get(i).stats, 0, s, f);
          } else {
            List<JCStatement> all = new ArrayList<>();
            for (int j = i; j < cases.size(); j++) all.addAll(cases.get(j).stats);
            execAll(all, 0, s, f);
          }
        },
        s -> switchCase(conds, i + 1, cases, arrow, s, f, pos, expr),
        pos);
  }

  static final com.sun.source.tree.CaseTree.CaseKind CaseTree_RULE =
      com.sun.source.tree.CaseTree.CaseKind.RULE;

  static final class JCCaseLabelOrExpr {
    boolean dflt;
    JCExpression expr;
  }

  private List<JCCaseLabelOrExpr> labels(JCCase c) {
    List<JCCaseLabelOrExpr> r = new ArrayList<>();
    for (JCCaseLabel l : c.labels) {
      JCCaseLabelOrExpr x = new JCCaseLabelOrExpr();
      if (l instanceof JCDefaultCaseLabel) x.dflt = true;
      else x.expr = (JCExpression) (JCTree) l;
      r.add(x);
    }
    return r;
  }

  private T caseEq(T v, JCExpression e, St st, Frame f) {
    if (e.type != null && e.type.tsym != null && (e.type.tsym.flags() & Flags.ENUM) != 0) {
      Symbol s = TreeInfo.symbol(e);
      init((ClassSymbol) e.type.tsym);
      T c = get(st, T.mk("sfield", fkey((VarSymbol) s)));
      return T.same(v, c);
    }
    T c = eval(e, st, f);
    if (c.is("str")) return T.objEq(v, c);
    return T.eq0(T.sub(v, c));
  }

  // ---- try

  private void doTry(JCTry t, St st, Frame f, String pos) {
    for (JCTree r : t.resources) {
      if (r instanceof JCVariableDecl) exec(r, st, f);
      else eval((JCExpression) r, st, f);
    }
    St before = t.finalizer == null && t.catchers.isEmpty() ? null : new St(st);
    if (t.catchers.isEmpty()) {
      exec(t.body, st, f);
      finalizer(t, st, f, before);
      return;
    }
    St body = new St(st);
    exec(t.body, body, f);
    Eff e = new Eff("TRY", pos);
    e.a = body.tr;
    e.handlers = new ArrayList<>();
    List<St> outs = new ArrayList<>();
    for (JCCatch c : t.catchers) {
      Eff.Handler h = new Eff.Handler();
      h.types = new ArrayList<>();
      h.pos = p.pos(f.owner, c);
      if (c.param.vartype instanceof JCTypeUnion)
        for (JCExpression x : ((JCTypeUnion) c.param.vartype).alternatives) h.types.add(ty(x.type));
      else h.types.add(ty(c.param.type));
      St s = new St(before);
      // the body may have stopped anywhere
      for (Map.Entry<T, T> q : body.cells.entrySet()) {
        T o = before.cells.get(q.getKey());
        if (o == null) o = dfltCell(q.getKey());
        if (o != null && o != q.getValue())
          s.cells.put(q.getKey(), T.gamma(T.opaque("partial"), q.getValue(), o));
      }
      s.cells.put(loc(f, c.param.sym), T.opaque("exc"));
      exec(c.body, s, f);
      h.body = s.tr;
      h.rethrows = s.thrown;
      Eff.walk(h.body, x -> {
        if (x.is("THROW")) h.throwsTypes.add(x.name);
      });
      e.handlers.add(h);
      if (!s.thrown) outs.add(s);
    }
    st.tr.add(e);
    boolean bodyThrew = body.thrown;
    List<Eff> keep = st.tr;
    St acc = bodyThrew ? null : body;
    for (St o : outs) {
      o.tr = new ArrayList<>();
      if (acc == null) acc = o;
      else {
        St m = new St(before);
        List<Eff> ta = acc.tr;
        acc.tr = new ArrayList<>();
        join(m, T.mk("exc", T.freshId()), o, acc, pos);
        acc = m;
      }
    }
    if (acc == null) {
      st.thrown = true;
    } else {
      st.cells.clear();
      st.cells.putAll(acc.cells);
      st.ret = acc.ret;
      st.retv = acc.retv;
      st.brk = acc.brk;
      st.cont = acc.cont;
      st.pc = new ArrayList<>(acc.pc);
    }
    st.tr = keep;
    finalizer(t, st, f, before);
  }

  /** whether a finally block, come to by a failure anywhere in what it guards, can leave in another way */
  private boolean swallows(JCTry t, St before, St after, Frame f) {
    boolean[] leaves = {false};
    new com.sun.tools.javac.tree.TreeScanner() {
      @Override
      public void visitReturn(JCReturn x) {
        leaves[0] = true;
      }

      @Override
      public void visitBreak(JCBreak x) {
        leaves[0] = true;
      }

      @Override
      public void visitContinue(JCContinue x) {
        leaves[0] = true;
      }

      @Override
      public void visitLambda(JCLambda x) {}

      @Override
      public void visitClassDef(JCClassDecl x) {}
    }.scan(t.finalizer);
    if (!leaves[0]) return false;
    St s = new St(before);
    s.tr = new ArrayList<>();
    for (Map.Entry<T, T> q : after.cells.entrySet()) {
      T o = before.cells.get(q.getKey());
      if (o == null) o = dfltCell(q.getKey());
      if (o != null && o != q.getValue()) s.cells.put(q.getKey(), T.gamma(T.opaque("partial"), q.getValue(), o));
    }
    s.ret = s.brk = s.cont = T.FALSE;
    exec(t.finalizer, s, f);
    return s.ret != T.FALSE || s.brk != T.FALSE || s.cont != T.FALSE;
  }

  private void finalizer(JCTry t, St st, Frame f, St before) {
    if (t.finalizer == null) return;
    boolean abrupt = swallows(t, before, st, f);
    boolean th = st.thrown;
    T r = st.ret, b = st.brk, c = st.cont, rv = st.retv;
    st.thrown = false;
    st.ret = st.brk = st.cont = T.FALSE;
    st.retv = null;
    exec(t.finalizer, st, f);
    if (st.thrown) return;
    if (st.ret == T.FALSE && st.brk == T.FALSE && st.cont == T.FALSE) {
      st.thrown = th;
      st.ret = r;
      st.brk = b;
      st.cont = c;
      st.retv = rv;
    }
    if (abrupt) {
      // a finally block that leaves abruptly swallows whatever was thrown
      Eff e = new Eff("TRY", p.pos(f.owner, t.finalizer));
      Eff.Handler h = new Eff.Handler();
      h.types = List.of("java.lang.Throwable");
      h.body = List.of();
      h.pos = e.pos;
      e.handlers = List.of(h);
      e.a = st.tr;
      List<Eff> n = new ArrayList<>();
      n.add(e);
      st.tr = n;
    }
  }

  // ------------------------------------------------------------------ iteration

  void foreach(T c, Type ctype, St st, Frame f, String pos, BiConsumer<St, T> body) {
    if (ctype != null && p.types.isArray(ctype)) {
      T con = content(st, "arr", c);
      T n = T.blen(con);
      String et = ty(p.types.elemtype(ctype));
      iterate(st, f, pos, n, (s, i) -> body.accept(s, T.select(content(s, "arr", c), i, et)));
      return;
    }
    if (c.is("mvals") || c.is("mkeys") || c.is("ments")) {
      T m0 = content(st, "map", c.k[0]);
      List<T> ents = Lib.entries(m0);
      if (ents != null) {
        iterate(st, f, pos, T.num(ents.size()), (s, i) -> {
          T x = i.isNum() && i.n() < ents.size() ? ents.get((int) i.n()) : null;
          body.accept(s, x == null ? Lib.viewElem(c, m0, i) : c.is("ments") ? x : x.k[c.is("mkeys") ? 0 : 1]);
        });
        return;
      }
      iterate(st, f, pos, T.mk("typed", "msize:int", m0), (s, i) -> body.accept(s, Lib.viewElem(c, m0, i)));
      return;
    }
    String et = "java.lang.Object";
    Type it = p.types.asSuper(ctype, p.syms.iterableType.tsym);
    if (it != null && it.getTypeArguments().nonEmpty()) et = ty(p.types.wildUpperBound(it.getTypeArguments().head));
    String ety = et;
    if (c.is("enumvals")) {
      iterate(st, f, pos, T.num(c.k.length), (s, i) -> body.accept(s, T.select(T.mk("alit", null, c.k), i, ety)));
      return;
    }
    if (nullable(c)) deref(st, c, pos);
    T con = lst(st, c);
    iterate(st, f, pos, T.size(con), (s, i) -> body.accept(s, T.lget(lst(s, c), i, ety)));
  }

  void iterate(St st, Frame f, String pos, T n, BiConsumer<St, T> body) {
    T cnt = T.mk("loc", "it" + T.freshId());
    st.cells.put(cnt, T.ZERO);
    new Loop(st, f, pos).go(
        s -> T.lt(s.cells.get(cnt), n),
        s -> body.accept(s, s.cells.get(cnt)),
        s -> s.cells.put(cnt, T.add(s.cells.get(cnt), T.ONE)),
        n,
        true);
    st.cells.remove(cnt);
  }

  static int freshNo(T t) {
    switch (t.op) {
      case "rd":
      case "sizeof":
      case "idx":
      case "calc":
      case "dsize":
        return (Integer) t.a;
      case "opaque":
      case "new":
      case "rbytes":
      case "rfix":
      case "created":
      case "view":
      case "psum":
        {
          if (!(t.a instanceof String)) return 0;
          String s = (String) t.a;
          int i = s.lastIndexOf('#');
          if (i < 0) return 0;
          try {
            return Integer.parseInt(s.substring(i + 1));
          } catch (NumberFormatException e) {
            return 0;
          }
        }
      default:
        return 0;
    }
  }

  final class Loop {
    final St st;
    final Frame f;
    final String pos;

    Loop(St st, Frame f, String pos) {
      this.st = st;
      this.f = f;
      this.pos = pos;
    }

    static final int UNROLL = 64;

    Function<St, T> cond;
    Consumer<St> body, step;
    T known;
    boolean condFirst;

    void go(Function<St, T> cond, Consumer<St> body, Consumer<St> step, T known, boolean condFirst) {
      this.cond = cond;
      this.body = body;
      this.step = step;
      this.known = known;
      this.condFirst = condFirst;
      if (st.thrown) return;
      T b0 = st.brk, c0 = st.cont;
      String bl = st.brkLabel, cl = st.contLabel;
      st.brk = st.cont = T.FALSE;
      st.brkLabel = st.contLabel = null;
      // a loop whose condition is constant in every iteration is unrolled
      St u = new St(st);
      boolean ok;
      int mark = depth;
      Set<Symbol> vis = new LinkedHashSet<>(visited);
      try {
        unroll(u, 0, !condFirst);
        ok = true;
      } catch (Abort e) {
        ok = false;
        depth = mark;
      }
      if (ok) {
        st.cells.clear();
        st.cells.putAll(u.cells);
        st.tr.addAll(u.tr);
        st.ret = u.ret;
        st.retv = u.retv;
        st.thrown = u.thrown;
        st.pc = u.pc;
        st.brkLabel = u.brkLabel;
        st.contLabel = u.contLabel;
      } else {
        summarise();
      }
      if (st.brkLabel != null || st.contLabel != null) unknown(st, "labelled jump", pos);
      st.brk = b0;
      st.cont = c0;
      st.brkLabel = bl;
      st.contLabel = cl;
    }

    private void unroll(St s, int n, boolean skipCond) {
      if (s.thrown) return;
      T c = skipCond ? T.TRUE : s.decide(cond.apply(s));
      if (s.thrown) return;
      if (c == T.FALSE) return;
      if (n >= (unrollAll > 0 ? unrollAll : UNROLL)) throw new Abort("unroll");
      if (c != T.TRUE && unrollAll == 0) throw new Abort("unroll");
      branch(
          s,
          c,
          x -> {
            body.accept(x);
            x.cont = T.FALSE;
            T live = x.live();
            Consumer<St> next =
                y -> {
                  if (step != null) step.accept(y);
                  unroll(y, n + 1, false);
                };
            if (live == T.TRUE) next.accept(x);
            else if (live != T.FALSE) guarded(x, live, next, pos);
          },
          x -> {},
          pos);
      if (n == 0) s.brk = T.FALSE;
    }

    void summarise() {
      int mark = T.freshId();
      int id = T.freshId();
      T idx = T.mk("idx", id);
      Map<T, T> entry = new LinkedHashMap<>();
      Map<T, T> phi = new LinkedHashMap<>();
      Map<T, T> inits = new LinkedHashMap<>();
      St e = null, x = null;
      T ct = T.TRUE;
      List<Eff> condTr = null;
      boolean[] narrow = {false};
      Map<T, T> delta = new LinkedHashMap<>();
      Map<T, T[]> finals = new LinkedHashMap<>();
      for (int pass = 0; pass < 12; pass++) {
        e = new St(st);
        e.tr = new ArrayList<>();
        e.cells.putAll(entry);
        ct = T.TRUE;
        if (condFirst) ct = e.decide(cond.apply(e));
        x = new St(e);
        x.tr = e.tr;
        x.assume(ct);
        body.accept(x);
        T bk = stop(x);
        x.cont = T.FALSE;
        if (step != null && !x.thrown) {
          // the update runs where the body did not leave the loop
          T live = x.live();
          if (live == T.TRUE) step.accept(x);
          else if (live != T.FALSE) guarded(x, live, step, pos);
        }
        if (!condFirst && !x.thrown) ct = x.decide(cond.apply(x));
        boolean more = false;
        for (Map.Entry<T, T> c : x.cells.entrySet()) {
          T key = c.getKey();
          if (entry.containsKey(key)) continue;
          T old = st.cells.get(key);
          if (old == null) {
            if (key.k.length > 0 && key.k[0].is("new") && freshNo(key.k[0]) > mark) continue;
            if (key.k.length > 0 && key.k[0].is("view") && freshNo(key.k[0]) > mark) continue;
            old = dfltCell(key);
          }
          if (old == null || old == c.getValue()) continue;
          T ph = T.mk("phi", id + "." + phi.size() + "." + key.op + ":" + cellType(key, old));
          phi.put(key, ph);
          inits.put(key, old);
          entry.put(key, ph);
          more = true;
        }
        if (more) continue;
        boolean change = false;
        finals.clear();
        Map<T, T> noBrk = new HashMap<>();
        if (!bk.isBoolConst()) {
          T b2 = bk;
          noBrk.put(b2, T.FALSE);
          if (b2.is("or")) for (T q : b2.k) noBrk.put(q, T.FALSE);
          noBrk.put(T.not(b2), T.TRUE);
        }
        for (T key : phi.keySet()) {
          T ph = phi.get(key), en = entry.get(key), u = x.cells.get(key);
          if (!noBrk.isEmpty()) u = T.subst(u, noBrk);
          T init = inits.get(key);
          if (en != ph) continue; // solved; checked again below
          T[] fin = derive(key, u, ph, phi.values(), mark, idx);
          T val = fin == null ? null : partial(fin, init, id, idx);
          if (val != null) {
            entry.put(key, val);
            finals.put(key, fin);
            solved.put(key, fin);
            change = true;
          }
        }
        if (!change) break;
      }
      // the solution is re-derived from the last pass, whose effects are the ones kept
      {
        Map<T, T> noBrk = new HashMap<>();
        T b2 = stop(x);
        if (!b2.isBoolConst()) {
          noBrk.put(b2, T.FALSE);
          if (b2.is("or")) for (T q : b2.k) noBrk.put(q, T.FALSE);
          noBrk.put(T.not(b2), T.TRUE);
        }
        for (T key : phi.keySet()) {
          T en = entry.get(key), u = x.cells.get(key);
          if (en == phi.get(key)) continue;
          if (!noBrk.isEmpty()) u = T.subst(u, noBrk);
          T[] was = solved.get(key), fin = derive(key, u, en, phi.values(), mark, idx);
          if (fin == null || fin[0] != was[0] || fin.length != was.length)
            solved.put(key, new T[] {T.mk("k", "lost")});
          else solved.put(key, fin);
        }
      }
      T bk = stop(x);
      T cont = ct;
      boolean retInside = x.ret != T.FALSE;
      boolean brkInside = bk != T.FALSE;
      List<Eff> tr = x.tr;
      T trip;
      boolean precise = true;
      if (retInside && bk != x.ret) precise = false;
      if (brkInside) {
        if (bk == T.TRUE) precise = false;
        else {
          cont = T.and(cont, T.not(bk));
          Map<T, T> nb = new HashMap<>();
          nb.put(bk, T.FALSE);
          nb.put(T.not(bk), T.TRUE);
          // effects before the break would happen once more than the others
          List<Eff> rest = new ArrayList<>();
          for (Eff q : tr) {
            if (q.is("CHO") && (q.cond == bk && q.a.isEmpty())) rest.addAll(q.b);
            else if (q.is("CHO") && (q.cond == T.not(bk) && q.b.isEmpty())) rest.addAll(q.a);
            else {
              precise = false;
              rest.add(q);
            }
          }
          tr = rest;
        }
      }
      trip = precise ? tripOf(cont, idx, phi.values(), mark) : null;
      if (trip != null && !condFirst) {
        // the body runs once before the first test
        trip = brkInside ? null : T.add(trip, T.ONE);
      }
      if (trip == null && known != null && !retInside && !brkInside) trip = known;
      if (trip == null && !retInside && !brkInside && endless(cont, idx, phi.values(), mark)) {
        // once entered it goes on until something fails
        T in = condFirst ? T.subst(cont, Map.of(idx, T.ZERO)) : T.TRUE;
        branch(st, in, q -> throwIt(q, ENDLESS, pos), q -> {}, pos);
        return;
      }
      if (trip == null) {
        trip = T.mk("wtrip", id, cont);
        unknown(st, "loop with an exit that is not a counter" + (retInside ? " (returns)" : ""), pos);
      }
      LoopInfo li = new LoopInfo();
      li.id = id;
      li.idx = idx;
      li.trip = trip;
      li.pos = pos;
      li.cond = cont;
      li.leaves = retInside || Eff.anyOf(tr, q -> q.is("THROW") || q.is("RD") || q.is("RB") || q.is("RFIX") || q.is("DEC") || q.is("SKIP") || q.is("UNK"));
      for (T key : phi.keySet())
        if (entry.get(key) == phi.get(key)) {
          li.cells.add(key);
          li.phis.add(phi.get(key));
          li.inits.add(inits.get(key));
          li.steps.add(x.cells.get(key));
        }
      loops.put("" + id, li);
      long[] tr0 = T.range(trip);
      HashMap<T, T> out = new HashMap<>();
      boolean past = false;
      Map<T, T> sol = new LinkedHashMap<>(entry);
      for (T key : phi.keySet()) {
        T init = inits.get(key), u = x.cells.get(key);
        T[] fin = solved.get(key);
        T v;
        if (fin == null) {
          // a scratch variable overwritten in each iteration, or a general recurrence
          boolean scratch = !usesPhi(phi.get(key), x, tr, ct, phi, entry);
          v = scratch
              ? T.gamma(T.gt0(trip), T.mk("last", id + ":" + cellType(key, init), trip, u), init)
              : T.mk("fold", id + "." + li.cells.indexOf(key), foldArgs(trip, li));
        } else
          switch ((String) fin[0].a) {
            case "inv":
              v = init;
              break;
            case "lost":
              v = T.opaque("loop value");
              break;
            case "ind":
              v = T.add(init, T.mul(fin[1], trip));
              if (fin.length > 2) {
                int w = (Integer) fin[2].a;
                long max = w < 0 ? (1L << (-w - 1)) - 1 : (1L << w) - 1;
                if (!(fin[1].isNum() && Math.abs(fin[1].n()) == 1 && within(init, fin[1].n(), trip, w)))
                  narrow[0] = true;
              }
              break;
            case "psum":
              v = T.add(init, T.mk("psum", "#" + id, fin[1], trip));
              break;
            case "lapp":
              v = T.lcat(init, T.lrep(trip, idx, fin[1]));
              break;
            case "lpre":
              v = T.lcat(T.mk("lrev", null, trip, idx, fin[1]), init);
              break;
            case "lfil":
              v = T.lcat(init, T.mk("lfilter", null, trip, idx, fin[1], fin[2]));
              break;
            case "cat":
              v = T.cat(init, T.mk("srep", null, trip, idx, fin[1]));
              break;
            case "mfil":
              // every entry is visited once
              v = fin[2] == init && (trip == T.mk("typed", "msize:int", init) || trip == T.trip(T.mk("typed", "msize:int", init))) ? T.mk("mfilter", null, init, fin[1]) : T.opaque("entries removed");
              break;
            case "arr":
              v = filled(init, fin[1], trip, idx, fin[2]);
              if (past(init, fin[1], trip, idx)) past = true;
              break;
            default:
              v = T.mk("mrep", null, init, trip, idx, fin[1], fin[2]);
          }
        out.put(key, v);
      }
      // cells of objects born in the loop survive as generic instances
      for (Map.Entry<T, T> c : x.cells.entrySet())
        if (!phi.containsKey(c.getKey()) && c.getKey().k.length > 0
            && (c.getKey().k[0].is("new") || c.getKey().k[0].is("view")) && freshNo(c.getKey().k[0]) > mark)
          out.put(c.getKey(), c.getValue());
      st.cells.putAll(out);
      if (condFirst && condTrNonEmpty(e)) {
        /* effects of evaluating the condition are part of the body trace */
      }
      if (!tr.isEmpty() || narrow[0]) {
        Eff r = new Eff("REP", pos);
        r.loop = id;
        r.trip = trip;
        r.idx = idx;
        r.a = tr;
        r.narrow = narrow[0];
        st.tr.add(r);
      }
      if (past && !retInside && !brkInside) throwIt(st, "java.lang.ArrayIndexOutOfBoundsException", pos);
      if (retInside) {
        // it returned if the condition still held in the round it stopped in
        Map<T, T> at = Map.of(idx, trip);
        T end = T.subst(ct, at), rv = x.retv == null ? null : T.subst(x.retv, at);
        boolean sure = !trip.is("wtrip") && precise;
        for (T ph : phi.values()) sure &= !end.has(ph) && (rv == null || !rv.has(ph));
        if (sure) {
          st.ret = end;
          st.retv = rv;
        } else {
          st.retv = T.opaque("loop return");
          st.ret = x.ret == T.TRUE && trip.isNum() ? T.TRUE : T.mk("exits", id);
        }
      }
    }

    final Map<T, T[]> solved = new HashMap<>();

    /** when a round leaves the loop from its body */
    private T stop(St x) {
      return x.brk == T.FALSE ? x.ret : x.brk;
    }

    private boolean condTrNonEmpty(St e) {
      return false;
    }

    private T[] foldArgs(T trip, LoopInfo li) {
      T[] r = new T[1 + li.inits.size()];
      r[0] = trip;
      for (int i = 0; i < li.inits.size(); i++) r[i + 1] = li.inits.get(i);
      return r;
    }

    private boolean within(T init, long d, T trip, int w) {
      long[] i = T.range(init), t = T.range(trip);
      long max = w < 0 ? (1L << (-w - 1)) - 1 : (1L << w) - 1, min = w < 0 ? -(1L << (-w - 1)) : 0;
      if (d == 1) return i[1] + t[1] <= max;
      return i[0] - t[1] >= min;
    }

    private boolean usesPhi(T ph, St x, List<Eff> tr, T ct, Map<T, T> phi, Map<T, T> entry) {
      for (T key : phi.keySet()) {
        T u = x.cells.get(key);
        if (u != null && u.has(ph)) return true;
      }
      if (ct.has(ph) || x.brk.has(ph) || x.ret.has(ph)) return true;
      boolean[] r = {false};
      Eff.walk(tr, q -> {
        for (T t : q.terms()) r[0] |= t.has(ph);
      });
      return r[0];
    }

    /** how a cell changes in one iteration, given its value on entry to the iteration */
    private T[] derive(T key, T u, T ph, Collection<T> phis, int mark, T idx) {
      if (u == ph) return new T[] {T.mk("k", "inv")};
      if (u.is("cat") && u.k.length > 1 && u.k[0] == ph) {
        T rest = T.str("");
        for (int i = 1; i < u.k.length; i++) rest = T.cat(rest, u.k[i]);
        return mentionsPhi(rest, phis) ? null : new T[] {T.mk("k", "cat"), rest};
      }
      if (key.is("lst")) {
        T app = appended(u, ph);
        if (app != null) return mentionsPhi(app, phis) ? null : new T[] {T.mk("k", "lapp"), app};
        if (u.is("lcat") && u.k[1] == ph && u.k[0].is("lapp") && u.k[0].k[0].is("lempty") && !mentionsPhi(u.k[0].k[1], phis))
          return new T[] {T.mk("k", "lpre"), u.k[0].k[1]};
        if (u.is("gamma")) {
          T a1 = u.k[1] == ph ? u.k[2] : u.k[2] == ph ? u.k[1] : null;
          T cc = u.k[1] == ph ? T.not(u.k[0]) : u.k[0];
          T ap = a1 == null ? null : appended(a1, ph);
          if (ap != null && !mentionsPhi(ap, phis) && !mentionsPhi(cc, phis))
            return new T[] {T.mk("k", "lfil"), cc, ap};
        }
        return null;
      }
      if (key.is("arr")) {
        if (u.is("astore") && u.k[0] == ph && !mentionsPhi(u.k[1], phis) && !mentionsPhi(u.k[2], phis))
          return new T[] {T.mk("k", "arr"), u.k[1], u.k[2]};
        return null;
      }
      if (key.is("map")) {
        if (u.is("mput") && u.k[0] == ph && !mentionsPhi(u.k[1], phis) && !mentionsPhi(u.k[2], phis))
          return new T[] {T.mk("k", "map"), u.k[1], u.k[2]};
        // the entry at hand is removed, or not
        T rem = u, hit = T.TRUE;
        if (u.is("gamma") && (u.k[1] == ph || u.k[2] == ph)) {
          rem = u.k[1] == ph ? u.k[2] : u.k[1];
          hit = u.k[1] == ph ? T.not(u.k[0]) : u.k[0];
        }
        if (rem.is("mrit") && rem.k[0] == ph && rem.k[1].is("mkat") && rem.k[1].k[1] == idx) {
          T mc = rem.k[1].k[0];
          T pr = T.subst(hit, Map.of(rem.k[1], T.mk("bk", null), T.mk("mvat", null, mc, idx), T.mk("bvl", null)));
          if (!mentionsPhi(pr, phis) && !variant(pr, mark, idx)) return new T[] {T.mk("k", "mfil"), pr, mc};
        }
        return null;
      }
      if (u.intLike()) {
        T w = u;
        boolean nar = false;
        if (w.is("ext")) {
          w = w.k[0];
          nar = true;
        }
        T d = T.sub(w, ph);
        if (!mentionsPhi(d, phis)) {
          if (!variant(d, mark, idx)) {
            if (nar) return new T[] {T.mk("k", "ind"), d, T.mk("narrow", u.a)};
            return new T[] {T.mk("k", "ind"), d};
          }
          if (!nar && (u.is("lin") || u.is("gamma")) && T.coef(u, ph) != 0 | !ph.is("phi"))
            return new T[] {T.mk("k", "psum"), d};
        }
      }
      return null;
    }

    private T partial(T[] fin, T init, int id, T idx) {
      switch ((String) fin[0].a) {
        case "inv":
          return init;
        case "ind":
          return T.add(init, T.mul(fin[1], idx));
        case "psum":
          return T.add(init, T.mk("psum", "#" + id, fin[1], idx));
        case "lapp":
          return T.mk("lpart", "#" + id, init, fin[1], idx);
        case "lpre":
          return T.mk("lprepart", "#" + id, init, fin[1], idx);
        case "lfil":
          return T.mk("lpartf", "#" + id, init, fin[1], fin[2], idx);
        case "cat":
          return T.mk("cpart", "#" + id, init, fin[1], idx);
        case "mfil":
          return T.mk("mfpart", "#" + id, init, fin[1], idx);
        case "arr":
          return T.mk("apart", "#" + id, init, fin[1], fin[2], idx);
        default:
          return T.mk("mpart", "#" + id, init, fin[1], fin[2], idx);
      }
    }

    private T appended(T u, T ph) {
      if (u.is("lapp") && u.k[0] == ph) return u.k[1];
      return null;
    }

    private boolean mentionsPhi(T t, Collection<T> phis) {
      return t.any(q -> phis.contains(q));
    }

    private boolean variant(T t, int mark, T idx) {
      return t.any(q -> q == idx || freshNo(q) > mark);
    }

    /** the condition stays true once it is: it does not change, or its counter goes the other way */
    private boolean endless(T c, T idx, Collection<T> phis, int mark) {
      if (c == T.TRUE) return true;
      boolean ne = c.is("not") && c.k[0].is("eq0");
      if (!c.is("gt0") && !ne || c.any(q -> q.is("pure") || q.is("opaque") || q.is("libobj") || q.is("env") || q.is("typed") || q.is("sfld") || q.is("created"))) return false;
      T x = ne ? c.k[0].k[0] : c.k[0];
      // a counter going the other way would have to come round the whole range of its type first
      Map<T, T> wrap = new HashMap<>();
      x.each(q -> {
        if (q.is("ext") && Math.abs((Integer) q.a) >= 32 && q.k[0].has(idx)) wrap.put(q, q.k[0]);
      });
      x = T.subst(x, wrap);
      long b = T.coef(x, idx);
      T a = T.sub(x, T.scale(idx, b));
      if (ne && !(b >= 0 && T.range(a)[0] >= 0 || b <= 0 && T.range(a)[1] <= 0)) return false;
      return (ne || b >= 0) && !a.has(idx) && !mentionsPhi(a, phis) && !a.any(q -> freshNo(q) > mark);
    }

    private T tripOf(T cont, T idx, Collection<T> phis, int mark) {
      List<T> cs = new ArrayList<>();
      if (cont.is("and")) cs.addAll(Arrays.asList(cont.k));
      else cs.add(cont);
      T lim = null;
      T pred = T.TRUE;
      for (T c : cs) {
        if (c == T.TRUE) continue;
        T n = null;
        if (c.is("gt0")) n = linTrip(c.k[0], idx, phis, mark, false);
        else if (c.is("not") && c.k[0].is("eq0")) n = linTrip(c.k[0].k[0], idx, phis, mark, true);
        if (n != null) lim = lim == null ? n : T.min(lim, n);
        else pred = T.and(pred, c);
      }
      if (pred == T.FALSE) return T.ZERO;
      if (pred != T.TRUE) {
        if (mentionsPhi(pred, phis) || lim == null) return null;
        if (pred.any(q -> freshNo(q) > mark && q != idx)) return null;
        if (!pred.has(idx)) return null;
        return T.mk("scan", null, lim, T.subst(pred, Map.of(idx, T.mk("bv", 0))));
      }
      return lim;
    }

    private T linTrip(T x, T idx, Collection<T> phis, int mark, boolean ne) {
      long b = T.coef(x, idx);
      if (b == 0) return null;
      T a = T.sub(x, T.scale(idx, b));
      if (a.has(idx) || mentionsPhi(a, phis) || a.any(q -> freshNo(q) > mark)) return null;
      if (ne) {
        if (b == 1) {
          a = T.scale(a, -1);
          b = -1;
        }
        if (b != -1) return null;
        // i != n with i rising to n: as a counter when n >= start
        if (T.range(a)[0] < 0) return null;
        return a;
      }
      if (b >= 0) return null;
      if (b == -1) return T.trip(a);
      T t = T.trip(T.add(a, T.num(-b - 1)));
      return T.div(t, T.num(-b));
    }
  }

  String cellType(T key, T old) {
    if (key.is("heap") || key.is("sfield")) {
      String s = (String) key.a;
      return s.substring(s.lastIndexOf(':') + 1);
    }
    if (key.is("cur")) return "cursor";
    if (old.intLike()) return old.isNum() || old.is("lin") ? "long" : old.vtype() == null ? "long" : old.vtype();
    if (old.boolLike()) return "boolean";
    return "ref";
  }

  // ------------------------------------------------------------------ calls

  int lambdaDepth = 0;

  /** run a method of the repository */
  T invoke(MethodSymbol m, T recv, List<T> args, St st, String pos, boolean exact) {
    JCMethodDecl d = p.methods.get(m);
    if (d == null || d.body == null) {
      unknown(st, "call of " + m.owner.flatName() + "." + m.name, pos);
      return T.opaque("call");
    }
    calls++;
    visited.add(m);
    int same = 0;
    for (Object[] o : stack) {
      if (o[0] == m) {
        same++;
        if (o[1] == recv && o[2].equals(args)) same += 100;
      }
    }
    if (same >= 3 || depth > 60) {
      Eff e = new Eff("REC", pos);
      e.name = m.owner.flatName() + "." + m.name;
      e.width = same >= 100 ? 1 : 0;
      st.tr.add(e);
      return T.opaque("recursion");
    }
    if (m.isStatic()) init((ClassSymbol) m.owner, st, pos);
    Frame f = new Frame();
    f.owner = m;
    f.self = recv;
    f.selfClass = (ClassSymbol) m.owner;
    int i = 0;
    List<VarSymbol> ps = m.params();
    boolean va = (m.flags() & Flags.VARARGS) != 0;
    for (JCVariableDecl v : d.params) {
      st.cells.put(loc(f, v.sym), args.get(i));
      i++;
    }
    depth++;
    stack.push(new Object[] {m, recv, args});
    int ld = lambdaDepth;
    lambdaDepth = 0;
    T r = body(st, () -> exec(d.body, st, f));
    lambdaDepth = ld;
    stack.pop();
    depth--;
    return r;
  }

  /** run code that has its own return */
  T body(St st, Runnable run) {
    T ret = st.ret, retv = st.retv, brk = st.brk, cont = st.cont;
    st.ret = st.brk = st.cont = T.FALSE;
    st.retv = null;
    run.run();
    T r = st.retv == null ? T.UNIT : st.retv;
    st.ret = ret;
    st.retv = retv;
    st.brk = brk;
    st.cont = cont;
    return r;
  }

  void construct(ClassSymbol c, MethodSymbol ctor, T obj, List<T> args, St st, String pos) {
    JCClassDecl cd = p.classes.get(c);
    if (cd == null) return;
    init(c, st, pos);
    JCMethodDecl d = ctor == null ? null : p.methods.get(ctor);
    boolean callsThis = d != null && TreeInfo.isSelfCall(firstStat(d)) && TreeInfo.name(((JCMethodInvocation) ((JCExpressionStatement) firstStat(d)).expr).meth) == c.name.table.names._this;
    Frame f = new Frame();
    f.owner = ctor == null ? c : ctor;
    f.self = obj;
    f.selfClass = c;
    if (d != null) {
      visited.add(ctor);
      int i = 0;
      for (JCVariableDecl v : d.params) st.cells.put(loc(f, v.sym), args.get(i++));
    }
    Runnable inits =
        () -> {
          for (JCTree t : cd.defs) {
            if (t instanceof JCVariableDecl && !((JCVariableDecl) t).sym.isStatic()) {
              JCVariableDecl v = (JCVariableDecl) t;
              T val = v.init == null ? dflt(v.sym.type) : evalInit(v.init, v.sym.type, st, f);
              st.cells.put(heapCell(v.sym, obj), val);
            } else if (t instanceof JCBlock && (((JCBlock) t).flags & Flags.STATIC) == 0)
              exec(t, st, f);
          }
        };
    depth++;
    if (depth > 60) {
      unknown(st, "constructor recursion", pos);
      depth--;
      return;
    }
    body(
        st,
        () -> {
          List<JCStatement> stats = d == null ? List.of() : d.body.stats;
          int from = 0;
          if (!stats.isEmpty() && TreeInfo.isSelfCall(stats.get(0))) {
            from = 1;
            JCMethodInvocation inv =
                (JCMethodInvocation) ((JCExpressionStatement) stats.get(0)).expr;
            MethodSymbol t = (MethodSymbol) TreeInfo.symbol(inv.meth);
            List<T> as = args(inv.args, t, inv, st, f);
            if (p.classes.containsKey(t.owner))
              construct((ClassSymbol) t.owner, t, obj, as, st, pos);
          } else {
            Type sup = p.types.supertype(c.type);
            if (sup != null && p.classes.containsKey(sup.tsym))
              construct((ClassSymbol) sup.tsym, noArg((ClassSymbol) sup.tsym), obj, List.of(), st, pos);
          }
          if (!callsThis) inits.run();
          execAll(stats, from, st, f);
        });
    depth--;
  }

  private MethodSymbol noArg(ClassSymbol c) {
    for (Symbol s : c.members().getSymbols())
      if (s instanceof MethodSymbol && s.isConstructor() && ((MethodSymbol) s).params().isEmpty())
        return (MethodSymbol) s;
    return null;
  }

  private static JCStatement firstStat(JCMethodDecl d) {
    return d.body == null || d.body.stats.isEmpty() ? null : d.body.stats.head;
  }

  T newObject(ClassSymbol c, MethodSymbol ctor, List<T> args, St st, String pos) {
    T o = T.mk("new", c.flatName() + "#" + T.freshId());
    if (inStatic) staticObjs.add(o);
    boolean plain = true;
    if (ctor != null) for (Type t : ctor.type.getParameterTypes()) plain &= t.isPrimitive();
    for (Type t = p.types.supertype(c.type); plain && t != null && t.tsym instanceof ClassSymbol; t = p.types.supertype(t)) {
      String k = t.tsym.flatName().toString();
      if (Lib.listClass(k)) st.cells.put(T.mk("lst", null, o), T.mk("lempty", null));
      else if (Lib.mapClass(k)) st.cells.put(T.mk("map", null, o), T.mk("mempty", null));
      else continue;
      break;
    }
    construct(c, ctor, o, args, st, pos);
    return o;
  }

  List<T> args(List<JCExpression> es, MethodSymbol m, JCTree call, St st, Frame f) {
    List<T> r = new ArrayList<>();
    List<Type> pt = new ArrayList<>();
    Type mt = m.type;
    for (Type t : m.type.getParameterTypes()) pt.add(t);
    boolean va =
        m.isVarArgs()
            && (call instanceof JCMethodInvocation
                ? ((JCMethodInvocation) call).varargsElement != null
                : call instanceof JCNewClass && ((JCNewClass) call).varargsElement != null);
    int n = pt.size();
    for (int i = 0; i < es.size(); i++) {
      if (va && i >= n - 1) break;
      r.add(evalInit(es.get(i), i < n ? pt.get(i) : es.get(i).type, st, f));
    }
    if (va) {
      List<T> rest = new ArrayList<>();
      for (int i = n - 1; i < es.size(); i++) {
        T x = eval(es.get(i), st, f);
        rest.add(x);
      }
      T arr = T.mk("new", "array#" + T.freshId());
      if (inStatic) staticObjs.add(arr);
      st.cells.put(T.mk("arr", null, arr), T.mk("alit", null, rest.toArray(new T[0])));
      r.add(arr);
    }
    return r;
  }

  /** evaluate with the conversion to the target type */
  T evalInit(JCExpression e, Type target, St st, Frame f) {
    if (e instanceof JCNewArray && ((JCNewArray) e).elemtype == null && e.type != null)
      return newArray((JCNewArray) e, st, f);
    T v = eval(e, st, f);
    if (target != null && e.type != null && target.isPrimitive() != e.type.isPrimitive()) {
      // boxing and unboxing do not change the value
    }
    if (target != null && e.type != null && (target.hasTag(TypeTag.FLOAT) || target.hasTag(TypeTag.DOUBLE))
        && e.type.isNumeric() && v.intLike()) return i2f(v);
    if (v.isNum() && target != null) {
      if (target.hasTag(TypeTag.BYTE)) return T.ext(8, true, v);
      if (target.hasTag(TypeTag.SHORT)) return T.ext(16, true, v);
    }
    return v;
  }

  T i2f(T v) {
    if (v.isNum()) return T.mk("fp", (double) v.n());
    return T.mk("i2f", null, v);
  }

  T newArray(JCNewArray e, St st, Frame f) {
    T arr = T.mk("new", "array#" + T.freshId());
    if (inStatic) staticObjs.add(arr);
    T con;
    if (e.elems != null) {
      List<T> xs = new ArrayList<>();
      for (JCExpression x : e.elems) xs.add(eval(x, st, f));
      con = T.mk("alit", null, xs.toArray(new T[0]));
    } else {
      T n = eval(e.dims.head, st, f);
      Type et = p.types.elemtype(e.type);
      con = T.mk("bfill", ":" + ty(et), dflt(et), n);
      Eff a = new Eff("ALLOC", p.pos(f.owner, e));
      a.len = n;
      a.name = "array";
      st.tr.add(a);
    }
    st.cells.put(T.mk("arr", null, arr), con);
    return arr;
  }

  // ------------------------------------------------------------------ expressions

  T cond(JCExpression e, St st, Frame f) {
    T c = eval(e, st, f);
    return st.decide(c);
  }

  private static int width(Type t) {
    return t != null && (t.hasTag(TypeTag.LONG) || (t.tsym != null && t.tsym.flatName().contentEquals("java.lang.Long"))) ? 64 : 32;
  }

  boolean isStr(Type t) {
    return t != null && t.tsym != null && t.tsym.flatName().contentEquals("java.lang.String");
  }

  private static boolean isFloat(Type t) {
    return t.hasTag(TypeTag.FLOAT) || t.hasTag(TypeTag.DOUBLE)
        || t.tsym != null && (t.tsym.flatName().contentEquals("java.lang.Float") || t.tsym.flatName().contentEquals("java.lang.Double"));
  }

  T narrow(Type t, T v) {
    if (t.hasTag(TypeTag.BYTE)) return T.ext(8, true, v);
    if (t.hasTag(TypeTag.SHORT)) return T.ext(16, true, v);
    if (t.hasTag(TypeTag.CHAR)) return T.ext(16, false, v);
    return v;
  }

  T constant(Object c, Type t) {
    if (c instanceof String) return T.str((String) c);
    if (c instanceof Boolean) return T.bool((Boolean) c);
    if (c instanceof Character) return T.num((Character) c);
    if (c instanceof Double || c instanceof Float) return T.mk("fp", ((Number) c).doubleValue());
    if (c instanceof Number) {
      if (t.hasTag(TypeTag.BOOLEAN)) return T.bool(((Number) c).intValue() != 0);
      return T.num(((Number) c).longValue());
    }
    return T.opaque("const");
  }

  T eval(JCExpression e, St st, Frame f) {
    if (e.type != null && e.type.constValue() != null) return constant(e.type.constValue(), e.type);
    switch (e.getTag()) {
      case PARENS:
        return eval(((JCParens) e).expr, st, f);
      case LITERAL:
        {
          JCLiteral l = (JCLiteral) e;
          if (l.typetag == TypeTag.BOT) return T.NULL;
          return constant(l.getValue(), e.type);
        }
      case IDENT:
        {
          JCIdent i = (JCIdent) e;
          Symbol s = i.sym;
          if (s.name.contentEquals("this")) return selfFor(f, e.type);
          if (s.name.contentEquals("super")) return f.self;
          if (s instanceof VarSymbol) return readVar((VarSymbol) s, null, st, f);
          return T.mk("typename", s.flatName().toString());
        }
      case SELECT:
        {
          JCFieldAccess a = (JCFieldAccess) e;
          if (a.name.contentEquals("class")) return T.mk("class", ty(a.selected.type));
          if (a.name.contentEquals("this")) return selfFor(f, a.type);
          if (a.sym instanceof VarSymbol) {
            VarSymbol v = (VarSymbol) a.sym;
            if (v.isStatic()) return readVar(v, null, st, f);
            if (a.name.contentEquals("length") && p.types.isArray(a.selected.type))
              return T.blen(content(st, "arr", eval(a.selected, st, f)));
            T o = eval(a.selected, st, f);
            if (o == watch && o != null) deref(st, o, p.pos(f.owner, e));
            return readVar(v, o, st, f);
          }
          return T.mk("typename", String.valueOf(a.sym));
        }
      case ASSIGN:
        {
          JCAssign a = (JCAssign) e;
          LV lv = lvalue(a.lhs, st, f);
          T v = evalInit(a.rhs, a.lhs.type, st, f);
          if (st.thrown) return v;
          lv.set(v);
          return v;
        }
      case APPLY:
        return apply((JCMethodInvocation) e, st, f);
      case NEWCLASS:
        return newClass((JCNewClass) e, st, f);
      case NEWARRAY:
        return newArray((JCNewArray) e, st, f);
      case TYPECAST:
        {
          JCTypeCast c = (JCTypeCast) e;
          T v = eval(c.expr, st, f);
          Type t = c.type;
          if (t.isPrimitive()) {
            boolean ff = isFloat(c.expr.type), tf = isFloat(t);
            if (ff && !tf) return T.mk("f2i", t.toString(), v);
            if (!ff && tf) return i2f(v);
            if (ff) return c.expr.type.hasTag(TypeTag.DOUBLE) && t.hasTag(TypeTag.FLOAT) ? T.mk("d2f", null, v) : v;
            if (t.hasTag(TypeTag.BYTE)) return T.ext(8, true, v);
            if (t.hasTag(TypeTag.SHORT)) return T.ext(16, true, v);
            if (t.hasTag(TypeTag.CHAR)) return T.ext(16, false, v);
            if (t.hasTag(TypeTag.INT) && width(c.expr.type) == 64) return T.ext(32, true, v);
          } else if (v == watch && v != null && !p.types.isSubtype(c.expr.type, t)) {
            Eff x = new Eff("CAST", p.pos(f.owner, e));
            x.obj = v;
            x.name = ty(t);
            st.tr.add(x);
          }
          return v;
        }
      case CONDEXPR:
        {
          JCConditional c = (JCConditional) e;
          T cc = cond(c.cond, st, f);
          return choose(st, cc, s -> evalInit(c.truepart, e.type, s, f), s -> evalInit(c.falsepart, e.type, s, f), p.pos(f.owner, e));
        }
      case AND:
      case OR:
        {
          JCBinary b = (JCBinary) e;
          T x = cond(b.lhs, st, f);
          boolean and = e.hasTag(JCTree.Tag.AND);
          if (x == (and ? T.FALSE : T.TRUE)) return x;
          T[] r = new T[1];
          branch(
              st,
              and ? x : T.not(x),
              s -> r[0] = eval(b.rhs, s, f),
              s -> {},
              p.pos(f.owner, e));
          if (r[0] == null) return x;
          return and ? T.and(x, r[0]) : T.or(x, r[0]);
        }
      case NOT:
        return T.not(eval(((JCUnary) e).arg, st, f));
      case NEG:
        {
          T v = eval(((JCUnary) e).arg, st, f);
          return isFloat(e.type) ? T.mk("fneg", null, v) : T.scale(v, -1);
        }
      case POS:
        return eval(((JCUnary) e).arg, st, f);
      case COMPL:
        {
          T v = eval(((JCUnary) e).arg, st, f);
          return T.bit("ixor", width(e.type), v, T.num(-1));
        }
      case PREINC:
      case PREDEC:
      case POSTINC:
      case POSTDEC:
        {
          JCUnary u = (JCUnary) e;
          LV lv = lvalue(u.arg, st, f);
          T old = lv.get();
          int d = e.hasTag(JCTree.Tag.PREINC) || e.hasTag(JCTree.Tag.POSTINC) ? 1 : -1;
          T nv = narrow(u.arg.type, T.add(old, T.num(d)));
          lv.set(nv);
          return e.hasTag(JCTree.Tag.PREINC) || e.hasTag(JCTree.Tag.PREDEC) ? nv : old;
        }
      case INDEXED:
        {
          JCArrayAccess a = (JCArrayAccess) e;
          T o = eval(a.indexed, st, f), i = eval(a.index, st, f);
          T c = content(st, "arr", o);
          if (outside(c, i)) {
            throwIt(st, "java.lang.ArrayIndexOutOfBoundsException", p.pos(f.owner, e));
            return T.opaque("no such element");
          }
          return aselect(c, i, ty(e.type));
        }
      case TYPETEST:
        {
          JCInstanceOf io = (JCInstanceOf) e;
          T v = eval(io.expr, st, f);
          JCTree pat = io.pattern;
          Type t = pat.type;
          if (pat instanceof JCBindingPattern) {
            JCBindingPattern bp = (JCBindingPattern) pat;
            st.cells.put(loc(f, bp.var.sym), v);
            t = bp.var.type;
          }
          return instanceOf(v, t);
        }
      case LAMBDA:
      case REFERENCE:
        {
          Clo c = new Clo();
          c.tree = e;
          c.fr = f;
          c.type = e.type;
          c.owner = f.owner;
          if (e instanceof JCMemberReference) {
            JCMemberReference mr = (JCMemberReference) e;
            Symbol s = mr.sym;
            if (!s.isStatic() && !s.isConstructor() && !(TreeInfo.symbol(mr.expr) instanceof ClassSymbol) && !mr.expr.type.hasTag(TypeTag.NONE)
                && mr.kind != JCMemberReference.ReferenceKind.UNBOUND)
              c.recv = eval(mr.expr, st, f);
          }
          T t = T.mk("clo", "#" + T.freshId());
          clos.put(t, c);
          return t;
        }
      case SWITCH_EXPRESSION:
        {
          JCSwitchExpression s = (JCSwitchExpression) e;
          T v = eval(s.selector, st, f);
          T[] out = new T[1];
          T ret = st.ret, retv = st.retv;
          st.ret = T.FALSE;
          st.retv = null;
          doSwitch(v, s.cases, 0, st, f, p.pos(f.owner, e), out);
          st.ret = ret;
          st.retv = retv;
          return out[0];
        }
      default:
        if (e instanceof JCBinary) return binary((JCBinary) e, st, f);
        if (e instanceof JCAssignOp) {
          JCAssignOp a = (JCAssignOp) e;
          LV lv = lvalue(a.lhs, st, f);
          T old = lv.get();
          T r = eval(a.rhs, st, f);
          T v;
          if (isStr(a.lhs.type)) v = T.cat(strOf(old, a.lhs.type), strOf(r, a.rhs.type));
          else {
            Type ot = isFloat(a.lhs.type) || isFloat(a.rhs.type) ? a.lhs.type : width(a.lhs.type) == 64 || (width(a.rhs.type) == 64 && !shift(a.getTag().noAssignOp())) ? p.syms.longType : p.syms.intType;
            v = arith(a.getTag().noAssignOp(), old, r, a.lhs.type, a.rhs.type, ot);
            v = narrow(a.lhs.type, v);
            if (a.lhs.type.hasTag(TypeTag.INT) && width(ot) == 64) v = T.ext(32, true, v);
          }
          lv.set(v);
          return v;
        }
        unknown(st, "expression " + e.getTag(), p.pos(f.owner, e));
        return T.opaque("expr");
    }
  }

  private static boolean shift(JCTree.Tag t) {
    return t == JCTree.Tag.SL || t == JCTree.Tag.SR || t == JCTree.Tag.USR;
  }

  T choose(St st, T c, Function<St, T> a, Function<St, T> b, String pos) {
    T[] r = new T[2];
    branch(st, c, s -> {
      r[0] = a.apply(s);
      if (s.thrown) r[0] = null;
    }, s -> {
      r[1] = b.apply(s);
      if (s.thrown) r[1] = null;
    }, pos);
    if (r[0] == null && r[1] == null) return T.opaque("dead");
    if (r[0] == null) return r[1];
    if (r[1] == null) return r[0];
    return T.gamma(st.decide(c), r[0], r[1]);
  }

  /** storing at index ix in every round leaves the array for certain */
  private static boolean past(T init, T ix, T trip, T idx) {
    if (!trip.isNum() || trip.n() < 1 || init.is("gamma")) return false;
    T n = T.blen(init);
    long b = T.coef(ix, idx);
    T base = T.sub(ix, T.scale(idx, b));
    if (n == null || !n.isNum() || !base.isNum()) return false;
    long last = base.n() + b * (trip.n() - 1);
    return base.n() < 0 || last < 0 || base.n() >= n.n() || last >= n.n();
  }

  /** contents of an array after a loop stored v at index ix for each idx below trip */
  private static T filled(T init, T ix, T trip, T idx, T v) {
    T base = T.coef(ix, idx) == 1 ? T.sub(ix, idx) : T.coef(ix, idx) == -1 ? T.add(T.sub(T.add(ix, idx), trip), T.ONE) : null;
    if (base != null && !base.any(x -> x == idx)) {
      T by = null;
      if (!v.any(x -> x == idx)) by = T.mk("bfill", ":", v, trip);
      else if (T.coef(ix, idx) == 1) by = T.copied(v, idx, trip);
      if (by != null) return T.splice(init, base, by, T.ZERO, trip);
    }
    return T.mk("arep", null, init, ix, trip, idx, v);
  }

  /** element i of an array whose contents may come from a filling loop */
  T aselect(T c, T i, String ty) {
    if (c.is("arep")) {
      // k = init, index, trip, idx, value
      T ix = c.k[1], idx = c.k[3];
      if (ix == idx) {
        long[] r = T.range(i), n = T.range(c.k[2]);
        if (r[0] >= 0 && r[1] < n[0]) return T.subst(c.k[4], Map.of(idx, i));
        if (r[1] < 0 || r[0] >= n[1]) return aselect(c.k[0], i, ty);
      }
    }
    if (c.is("gamma")) return T.gamma(c.k[0], aselect(c.k[1], i, ty), aselect(c.k[2], i, ty));
    if (c.is("backing")) {
      T b = c.k[0];
      return T.ext(8, true, T.mk("getb", null, Lib.root(b), Lib.abs(b, T.sub(i, T.mk("bufprop", "arrayOffset:int", b)))));
    }
    return T.select(c, i, ty);
  }

  T instanceOf(T v, Type t) {
    if (v == T.NULL) return T.FALSE;
    if (v.is("gamma")) return T.gamma(v.k[0], instanceOf(v.k[1], t), instanceOf(v.k[2], t));
    String cn = className(v);
    if (cn != null && p.byName.containsKey(cn)) {
      return T.and(T.not(T.isnull(v)), T.bool(p.types.isSubtype(p.types.erasure(p.byName.get(cn).type), p.types.erasure(t))));
    }
    // final classes
    String vt = v.is("str") ? "java.lang.String" : v.vtype(), want = ty(t);
    if (vt != null && (Lib.BOX.containsValue(vt) || vt.equals("java.lang.String"))) {
      if (vt.equals(want)) return T.not(T.isnull(v));
      if (Lib.BOX.containsValue(want) || want.equals("java.lang.String")) return T.FALSE;
    }
    return T.and(T.not(T.isnull(v)), T.mk("classis", want, v));
  }

  /** exact class of an object term, when known */
  String className(T v) {
    if (v.is("this")) return (String) v.a;
    if (v.is("new")) {
      String s = (String) v.a;
      return s.substring(0, s.lastIndexOf('#'));
    }
    if (v.is("enum")) {
      String s = (String) v.a;
      return s.substring(0, s.lastIndexOf('.'));
    }
    return null;
  }

  T selfFor(Frame f, Type t) {
    T s = f.self;
    return s == null ? T.opaque("this") : s;
  }

  T readVar(VarSymbol v, T obj, St st, Frame f) {
    if (v.getConstValue() != null) return constant(v.getConstValue(), v.type);
    if (v.owner instanceof ClassSymbol) {
      if (v.isStatic()) {
        if (!p.fields.containsKey(v)) {
          String q = v.owner.flatName() + "." + v.name;
          return lib.staticField(q, v, st);
        }
        init((ClassSymbol) v.owner, st, p.pos(v.owner));
        T cell = T.mk("sfield", fkey(v));
        T val = st.cells.get(cell);
        if (val == null) val = inStatic && sw.cells.containsKey(cell) ? sw.cells.get(cell) : dfltCell(cell);
        return val;
      }
      T o = obj == null ? outer(f, v) : obj;
      return readHeap(st, v, o);
    }
    T val = st.cells.get(loc(f, v));
    if (val == null) {
      // captured by a lambda or an inner class: find the frame that holds it
      for (Frame g : captured.getOrDefault(f, List.of())) {
        val = st.cells.get(loc(g, v));
        if (val == null) val = sw.cells.get(loc(g, v));
        if (val != null) return val;
      }
      val = sw.cells.get(loc(f, v));
    }
    return val == null ? T.opaque("var " + v.name) : val;
  }

  T outer(Frame f, VarSymbol v) {
    return f.self == null ? T.opaque("outer") : f.self;
  }

  final Map<Frame, List<Frame>> captured = new HashMap<>();

  interface LV {
    T get();

    void set(T v);
  }

  LV lvalue(JCExpression e, St st, Frame f) {
    e = (JCExpression) TreeInfo.skipParens(e);
    String pos = p.pos(f.owner, e);
    if (e instanceof JCArrayAccess) {
      JCArrayAccess a = (JCArrayAccess) e;
      T o = eval(a.indexed, st, f), i = eval(a.index, st, f);
      String t = ty(e.type);
      return new LV() {
        public T get() {
          return aselect(content(st, "arr", o), i, t);
        }

        public void set(T v) {
          storeArr(st, o, i, v, pos);
        }
      };
    }
    Symbol s = TreeInfo.symbol(e);
    if (!(s instanceof VarSymbol)) throw new RuntimeException("lvalue " + e);
    VarSymbol v = (VarSymbol) s;
    if (v.owner instanceof ClassSymbol) {
      if (v.isStatic()) {
        T cell = T.mk("sfield", fkey(v));
        return new LV() {
          public T get() {
            return readVar(v, null, st, f);
          }

          public void set(T x) {
            st.cells.put(cell, x);
            if (!inStatic) {
              Eff q = new Eff("SWRITE", pos);
              q.name = fkey(v);
              q.val = x;
              st.tr.add(q);
            }
          }
        };
      }
      T o = e instanceof JCFieldAccess ? eval(((JCFieldAccess) e).selected, st, f) : outer(f, v);
      return new LV() {
        public T get() {
          return readHeap(st, v, o);
        }

        public void set(T x) {
          writeHeap(st, v, o, x, pos);
        }
      };
    }
    Frame g = f;
    if (!st.cells.containsKey(loc(f, v)))
      for (Frame h : captured.getOrDefault(f, List.of())) if (st.cells.containsKey(loc(h, v))) g = h;
    T cell = loc(g, v);
    return new LV() {
      public T get() {
        return readVar(v, null, st, f);
      }

      public void set(T x) {
        st.cells.put(cell, x);
      }
    };
  }

  /** an index that is outside the array for certain */
  private boolean outside(T c, T i) {
    if (!i.isNum()) return false;
    T n = c.is("gamma") || c.is("astore") && c.k[0].is("gamma") ? null : T.blen(c);
    return i.n() < 0 || n != null && n.isNum() && i.n() >= n.n();
  }

  void storeArr(St st, T o, T i, T v, String pos) {
    if (outside(content(st, "arr", o), i)) {
      throwIt(st, "java.lang.ArrayIndexOutOfBoundsException", pos);
      return;
    }
    setContent(st, "arr", o, c -> {
      if (c.is("alit") && i.isNum() && i.n() >= 0 && i.n() < c.k.length) {
        T[] k = c.k.clone();
        k[(int) i.n()] = v;
        return T.mk("alit", null, k);
      }
      if (c.is("bfill") && c.k[1].isNum() && c.k[1].n() <= 16 && i.isNum() && i.n() >= 0 && i.n() < c.k[1].n()) {
        T[] k = new T[(int) c.k[1].n()];
        Arrays.fill(k, c.k[0]);
        k[(int) i.n()] = v;
        return T.mk("alit", null, k);
      }
      return T.mk("astore", null, c, i, v);
    });
    if (!o.is("new") || isStaticObj(o) && !inStatic) {
      Eff q = new Eff(isStaticObj(o) ? "SWRITE" : "AMUT", pos);
      q.obj = o;
      q.name = "array element";
      st.tr.add(q);
    }
  }

  T strOf(T v, Type t) {
    if (v.is("str")) return v;
    if (t != null && t.hasTag(TypeTag.CHAR) && v.isNum()) return T.str(String.valueOf((char) v.n()));
    if (v.isNum() && t != null && t.isPrimitive()) return T.str(String.valueOf(v.n()));
    if (v.isBoolConst()) return T.str(v.op);
    if (t != null && t.hasTag(TypeTag.CHAR)) return T.mk("charstr", null, v);
    return isStr(t) ? T.nulstr(v) : v;
  }

  T binary(JCBinary b, St st, Frame f) {
    T x = eval(b.lhs, st, f), y = eval(b.rhs, st, f);
    Type lt = b.lhs.type, rt = b.rhs.type;
    switch (b.getTag()) {
      case EQ:
      case NE:
        {
          T c = equality(x, y, lt, rt);
          return b.hasTag(JCTree.Tag.EQ) ? c : T.not(c);
        }
      case LT:
        return isFloat(lt) || isFloat(rt) ? T.mk("flt", null, x, y) : T.lt(x, y);
      case GT:
        return isFloat(lt) || isFloat(rt) ? T.mk("flt", null, y, x) : T.lt(y, x);
      case LE:
        return isFloat(lt) || isFloat(rt) ? T.mk("fle", null, x, y) : T.le(x, y);
      case GE:
        return isFloat(lt) || isFloat(rt) ? T.mk("fle", null, y, x) : T.le(y, x);
      case PLUS:
        if (isStr(b.type)) return T.cat(strOf(x, lt), strOf(y, rt));
        break;
      default:
        break;
    }
    return arith(b.getTag(), x, y, lt, rt, b.type);
  }

  T equality(T x, T y, Type lt, Type rt) {
    if (lt.isPrimitive() || rt.isPrimitive()) {
      if (isFloat(lt) || isFloat(rt)) return T.mk("feq", null, x, y);
      if (lt.hasTag(TypeTag.BOOLEAN) || rt.hasTag(TypeTag.BOOLEAN))
        return T.gamma(x, y, T.not(y));
      return T.eq0(T.sub(x, y));
    }
    return T.same(x, y);
  }

  T arith(JCTree.Tag tag, T x, T y, Type lt, Type rt, Type res) {
    if (res.hasTag(TypeTag.BOOLEAN) || lt.hasTag(TypeTag.BOOLEAN)) {
      switch (tag) {
        case BITAND:
          return T.and(x, y);
        case BITOR:
          return T.or(x, y);
        case BITXOR:
          return T.gamma(x, T.not(y), y);
        default:
          break;
      }
    }
    if (isFloat(res)) return T.mk("fop", tag.toString(), x, y);
    int w = width(res);
    T r;
    switch (tag) {
      case PLUS:
        r = T.add(x, y);
        break;
      case MINUS:
        r = T.sub(x, y);
        break;
      case MUL:
        r = T.mul(x, y);
        break;
      case DIV:
        r = T.div(x, y);
        break;
      case MOD:
        r = T.rem(x, y);
        break;
      case BITAND:
        r = T.bit("iand", w, x, y);
        break;
      case BITOR:
        r = T.bit("ior", w, x, y);
        break;
      case BITXOR:
        r = T.bit("ixor", w, x, y);
        break;
      case SL:
        r = T.bit("shl", width(lt), x, y);
        break;
      case SR:
        r = T.bit("shr", width(lt), x, y);
        break;
      case USR:
        r = T.bit("ushr", width(lt), x, y);
        break;
      default:
        return T.opaque("arith " + tag);
    }
    if (r.isNum() && w == 32) r = T.num((int) r.n());
    return r;
  }

  T newClass(JCNewClass e, St st, Frame f) {
    String pos = p.pos(f.owner, e);
    MethodSymbol ctor = (MethodSymbol) e.constructor;
    List<T> as = args(e.args, ctor, e, st, f);
    if (st.thrown) return T.opaque("dead");
    ClassSymbol c = (ClassSymbol) (e.def != null ? e.def.sym : e.clazz.type.tsym);
    if (p.classes.containsKey(c)) {
      T o = newObject(c, ctor, as, st, pos);
      if (e.def != null) anonFrame.put(o, f);
      return o;
    }
    return lib.newObject(c.flatName().toString(), e, as, st, f, pos);
  }

  final Map<T, Frame> anonFrame = new HashMap<>();

  T apply(JCMethodInvocation e, St st, Frame f) {
    String pos = p.pos(f.owner, e);
    MethodSymbol m = (MethodSymbol) TreeInfo.symbol(e.meth);
    T recv = null;
    boolean sup = false;
    Type rtype = null;
    if (m.isConstructor()) {
      unknown(st, "constructor call", pos);
      return T.UNIT;
    }
    if (e.meth instanceof JCFieldAccess) {
      JCFieldAccess a = (JCFieldAccess) e.meth;
      rtype = a.selected.type;
      String sn = a.selected.toString();
      if (sn.equals("super") || sn.endsWith(".super")) {
        sup = true;
        recv = f.self;
      } else if (!m.isStatic()) recv = eval(a.selected, st, f);
    } else if (!m.isStatic()) {
      recv = selfFor(f, null);
      rtype = m.owner.type;
    }
    if (st.thrown) return T.opaque("dead");
    List<T> as = args(e.args, m, e, st, f);
    if (st.thrown) return T.opaque("dead");
    return call(m, recv, rtype, as, e, st, f, pos, sup);
  }

  T call(MethodSymbol m, T recv, Type rtype, List<T> as, JCExpression e, St st, Frame f, String pos, boolean sup) {
    if (recv != null && recv.is("null") ) {
      throwIt(st, "java.lang.NullPointerException", pos);
      return T.opaque("npe");
    }
    if (recv != null && !m.isStatic() && (nullable(recv) || recv == watch)) deref(st, recv, pos);
    // nested codecs
    if (!m.isStatic() && !sup && leafCodec && as.size() == 1
        && (m.name.contentEquals("encode") || m.name.contentEquals("decode"))
        && m.owner instanceof ClassSymbol && p.isSubSafe((ClassSymbol) m.owner, "com.finproto.codec.BinaryCodec")
        && ty(m.params().head.type).equals("io.netty.buffer.ByteBuf")
        && !(f != null && recv == f.self && m == f.owner)) {
      return lib.nested(m.name.toString(), recv, as.get(0), st, pos, rtype);
    }
    String owner = m.owner.flatName().toString();
    if ((owner.equals("com.finproto.codec.BinaryCodec") || !m.isStatic() && m.owner instanceof ClassSymbol && p.isSubSafe((ClassSymbol) m.owner, "com.finproto.codec.BinaryCodec"))
        && leafMethods.contains(m.name + "/" + as.size())) {
      return lib.fixed(m, as, st, pos);
    }
    if (owner.equals("com.finproto.codec.ChecksumService") && (m.flags() & Flags.ABSTRACT) != 0 && className(recv) == null)
      return lib.service(m, recv, as, e, st, pos);
    if (p.methods.containsKey(m) || p.classes.containsKey(m.owner)) {
      if (m.isStatic()) {
        T r = lib.enumStatic(m, as, st, pos);
        if (r != null) return r;
        return invoke(m, null, as, st, pos, true);
      }
      if (recv != null && recv.is("gamma") && !sup && needsSplit(m, recv))
        return choose(
            st,
            recv.k[0],
            s -> call(m, recv.k[1], rtype, as, e, s, f, pos, sup),
            s -> call(m, recv.k[2], rtype, as, e, s, f, pos, sup),
            pos);
      if (recv != null && clos.containsKey(recv)) return closure(recv, as, st, pos);
      MethodSymbol t = sup ? m : resolve(m, recv, rtype, st);
      if (t != null && p.methods.containsKey(t) && p.methods.get(t).body != null) {
        T o = objectMethod(t, recv, as);
        if (o != null) return o;
        T r = invoke(t, recv, as, st, pos, true);
        return typed(r, e);
      }
      if (t != null) {
        T r = lib.call(t, recv, rtype, as, e, st, f, pos);
        if (r != null) return r;
      }
      if ((m.flags() & Flags.ABSTRACT) != 0 || t == null) {
        T r = lib.call(m, recv, rtype, as, e, st, f, pos);
        if (r != null) return r;
      }
      unknown(st, "call of " + m.owner.flatName() + "." + m.name, pos);
      return T.opaque("call " + m.name);
    }
    if (sup) {
      T r = lib.superCall(m, recv, as, st, pos);
      if (r != null) return r;
    }
    if (recv != null && recv.is("gamma") && !owner.startsWith("java.lang.String") && !owner.equals("io.netty.buffer.ByteBuf") && !owner.startsWith("java.util.") ) {
      return choose(
          st,
          recv.k[0],
          s -> call(m, recv.k[1], rtype, as, e, s, f, pos, sup),
          s -> call(m, recv.k[2], rtype, as, e, s, f, pos, sup),
          pos);
    }
    // an Object method the receiver's own class overrides
    if (recv != null && className(recv) != null && p.byName.containsKey(className(recv)) && !sup) {
      MethodSymbol t = m.implementation(p.byName.get(className(recv)), p.types, true);
      if (t != null && p.methods.containsKey(t)) return invoke(t, recv, as, st, pos, true);
    }
    T r = lib.call(m, recv, rtype, as, e, st, f, pos);
    if (r != null) return r;
    unknown(st, "library call " + owner + "." + m.name, pos);
    lib.smear(st, recv, "" + m.name);
    for (T a : as) lib.smear(st, a, "" + m.name);
    return T.opaque("call " + owner + "." + m.name, as.toArray(new T[0]));
  }

  /** what another message says of itself stands as it is: its own class answers for it */
  private T objectMethod(MethodSymbol t, T recv, List<T> as) {
    if (recv == null || !recv.is("fld") && !recv.is("get") && !recv.is("mget") || !(t.owner instanceof ClassSymbol)) return null;
    if (!p.isSubSafe((ClassSymbol) t.owner, "com.finproto.codec.BinaryCodec")) return null;
    switch (t.name.toString()) {
      case "equals":
        return as.size() == 1 && ty(t.params().head.type).equals("java.lang.Object") ? T.and(T.not(T.isnull(as.get(0))), T.objEq(recv, as.get(0))) : null;
      case "hashCode":
        return as.isEmpty() ? T.mk("hash", null, recv) : null;
      default:
        return null;
    }
  }

  /** an object whose every use as a receiver or under a cast is recorded */
  T watch;

  static boolean nullable(T o) {
    if (o.is("gamma")) return nullable(o.k[1]) || nullable(o.k[2]);
    return o.is("fld") || o.is("get") || o.is("mget") || o.is("null");
  }

  /** the code goes through a reference that may be null */
  void deref(St st, T o, String pos) {
    T n = st.decide(T.isnull(o));
    if (n == T.FALSE) return;
    Eff e = new Eff("DEREF", pos);
    e.obj = o;
    st.tr.add(e);
  }

  private T typed(T r, JCExpression e) {
    return r;
  }

  private boolean needsSplit(MethodSymbol m, T recv) {
    return true;
  }

  /** the class has its own version of the method or of what it calls */
  boolean overrides(ClassSymbol c, MethodSymbol m) {
    for (MethodSymbol x : reached(m)) {
      MethodSymbol t = x.implementation(c, p.types, true);
      if (t != null && t != x) return true;
    }
    return false;
  }

  private final Map<MethodSymbol, Set<MethodSymbol>> reachedBy = new HashMap<>();

  /** the method and those of its own type it calls, directly or through each other */
  private Set<MethodSymbol> reached(MethodSymbol m) {
    Set<MethodSymbol> r = reachedBy.get(m);
    if (r != null) return r;
    Set<MethodSymbol> out = new LinkedHashSet<>(Set.of(m));
    Deque<MethodSymbol> q = new ArrayDeque<>(List.of(m));
    while (!q.isEmpty()) {
      JCMethodDecl d = p.methods.get(q.poll());
      if (d == null || d.body == null) continue;
      new com.sun.tools.javac.tree.TreeScanner() {
        @Override
        public void visitApply(JCMethodInvocation t) {
          super.visitApply(t);
          Symbol s = TreeInfo.symbol(t.meth);
          if (s instanceof MethodSymbol && s.owner == m.owner && !s.isStatic() && out.add((MethodSymbol) s)) q.add((MethodSymbol) s);
        }
      }.scan(d.body);
    }
    reachedBy.put(m, out);
    return out;
  }

  MethodSymbol resolve(MethodSymbol m, T recv, Type rtype, St st) {
    String c = recv == null ? null : className(recv);
    if (c != null && p.byName.containsKey(c)) {
      MethodSymbol t = m.implementation(p.byName.get(c), p.types, true);
      return t == null ? m : t;
    }
    // declared type only: fine when nothing in the program overrides it
    ClassSymbol dc = rtype != null && rtype.tsym instanceof ClassSymbol ? (ClassSymbol) rtype.tsym : (ClassSymbol) m.owner;
    MethodSymbol base = m.implementation(dc, p.types, true);
    Set<MethodSymbol> all = new HashSet<>();
    if (base != null && (base.flags() & Flags.ABSTRACT) == 0) all.add(base);
    for (Symbol s : p.classes.keySet()) {
      ClassSymbol k = (ClassSymbol) s;
      if (k == dc || !p.types.isSubtype(p.types.erasure(k.type), p.types.erasure(dc.type))) continue;
      MethodSymbol t = m.implementation(k, p.types, true);
      if (t != null && (t.flags() & Flags.ABSTRACT) == 0) all.add(t);
    }
    if (all.size() == 1) return all.iterator().next();
    return null;
  }

  /** apply a lambda or a method reference */
  T closure(T clo, List<T> as, St st, String pos) {
    Clo c = clos.get(clo);
    if (c == null) {
      if (clo.is("gamma"))
        return choose(st, clo.k[0], s -> closure(clo.k[1], as, s, pos), s -> closure(clo.k[2], as, s, pos), pos);
      unknown(st, "call of an unknown function object", pos);
      return T.opaque("fn");
    }
    depth++;
    try {
      if (depth > 60) {
        unknown(st, "closure recursion", pos);
        return T.opaque("rec");
      }
      if (c.tree instanceof JCLambda) {
        JCLambda l = (JCLambda) c.tree;
        Frame g = new Frame();
        g.owner = c.owner;
        g.self = c.fr.self;
        g.selfClass = c.fr.selfClass;
        List<Frame> cap = new ArrayList<>();
        cap.add(c.fr);
        cap.addAll(captured.getOrDefault(c.fr, List.of()));
        captured.put(g, cap);
        int i = 0;
        for (JCVariableDecl v : l.params) st.cells.put(loc(g, v.sym), as.get(i++));
        lambdaDepth++;
        try {
          if (l.body instanceof JCExpression) return eval((JCExpression) l.body, st, g);
          return body(st, () -> exec(l.body, st, g));
        } finally {
          lambdaDepth--;
        }
      }
      JCMemberReference r = (JCMemberReference) c.tree;
      MethodSymbol m = (MethodSymbol) r.sym;
      if (m.isConstructor()) {
        ClassSymbol k = (ClassSymbol) m.owner;
        if (p.classes.containsKey(k)) return newObject(k, m, as, st, pos);
        return lib.newObject(k.flatName().toString(), null, as, st, c.fr, pos);
      }
      if (m.isStatic()) return call(m, null, null, as, null, st, c.fr, pos, false);
      if (c.recv != null) return call(m, c.recv, r.expr.type, as, null, st, c.fr, pos, false);
      return call(m, as.get(0), r.expr.type, as.subList(1, as.size()), null, st, c.fr, pos, false);
    } finally {
      depth--;
    }
  }
}
