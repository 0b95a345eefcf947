package wirefx;

import com.sun.source.tree.*;
import com.sun.source.util.*;
import com.sun.tools.javac.api.JavacTaskImpl;
import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import com.sun.tools.javac.tree.*;
import com.sun.tools.javac.tree.JCTree.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import javax.tools.*;

/** The resolved program: every main source of the repository, attributed by javac. */
final class Prog {
  final Path repo;
  final Map<Symbol, JCMethodDecl> methods = new LinkedHashMap<>();
  final Map<Symbol, JCClassDecl> classes = new LinkedHashMap<>();
  final Map<Symbol, JCVariableDecl> fields = new LinkedHashMap<>();
  final Map<Symbol, JCCompilationUnit> unitOf = new HashMap<>();
  final Map<JCTree, JCCompilationUnit> treeUnit = new IdentityHashMap<>();
  final Map<String, ClassSymbol> byName = new LinkedHashMap<>();
  final Set<Symbol> assignedOutsideInit = new HashSet<>();
  /** static fields holding a list or an array that is changed, or may be, after the class was initialised */
  final Set<Symbol> filledLater = new LinkedHashSet<>();
  private static final Set<String> CHANGES =
      Set.of("add", "addAll", "remove", "removeAll", "removeIf", "retainAll", "set", "clear", "sort", "replaceAll", "push", "pop", "poll", "offer", "addFirst", "addLast", "removeFirst", "removeLast", "listIterator", "iterator", "subList", "insertElementAt", "addElement", "pollFirst", "pollLast", "append", "put");

  final Map<JCCompilationUnit, String> fileOf = new HashMap<>();
  final Map<Symbol, List<ClassSymbol>> anonymous = new HashMap<>();
  Types types;
  Symtab syms;
  int files;

  Prog(Path repo) throws Exception {
    this.repo = repo;
    List<File> src = new ArrayList<>();
    try (Stream<Path> s = Files.list(repo)) {
      for (Path m : s.sorted().collect(Collectors.toList())) {
        Path d = m.resolve("src/main/java");
        if (!Files.isDirectory(d)) continue;
        try (Stream<Path> w = Files.walk(d)) {
          w.filter(p -> p.toString().endsWith(".java")).sorted().forEach(p -> src.add(p.toFile()));
        }
      }
    }
    files = src.size();
    if (src.isEmpty()) throw new RuntimeException("no main sources under " + repo);
    JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
    DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
    StandardJavaFileManager fm =
        jc.getStandardFileManager(diag, Locale.ROOT, StandardCharsets.UTF_8);
    List<String> opts =
        List.of("-proc:none", "-encoding", "UTF-8", "-classpath", System.getProperty("wirefx.cp"),
            "-XDshould-stop.ifError=FLOW", "-nowarn", "-Xmaxerrs", "20");
    JavacTaskImpl task =
        (JavacTaskImpl)
            jc.getTask(
                null, fm, diag, opts, null, fm.getJavaFileObjectsFromFiles(src));
    List<CompilationUnitTree> units = new ArrayList<>();
    for (CompilationUnitTree u : task.parse()) units.add(u);
    task.analyze();
    for (Diagnostic<?> d : diag.getDiagnostics())
      if (d.getKind() == Diagnostic.Kind.ERROR)
        throw new RuntimeException("source does not compile: " + d);
    types = Types.instance(task.getContext());
    syms = Symtab.instance(task.getContext());
    for (CompilationUnitTree cu : units) {
      JCCompilationUnit u = (JCCompilationUnit) cu;
      fileOf.put(u, repo.relativize(Paths.get(u.getSourceFile().toUri())).toString());
      new Index(u).scan(u);
    }
  }

  private final class Index extends com.sun.tools.javac.tree.TreeScanner {
    final JCCompilationUnit u;
    Symbol inMethod;
    boolean inInit, inBlock, inObject; // inObject: in code that runs once per object

    Index(JCCompilationUnit u) {
      this.u = u;
    }

    @Override
    public void visitClassDef(JCClassDecl t) {
      if (t.sym != null) {
        classes.put(t.sym, t);
        unitOf.put(t.sym, u);
        byName.put(t.sym.flatName().toString(), t.sym);
      }
      for (JCTree d : t.defs) {
        if (d instanceof JCVariableDecl) {
          JCVariableDecl v = (JCVariableDecl) d;
          fields.put(v.sym, v);
          unitOf.put(v.sym, u);
        }
      }
      Symbol om = inMethod;
      boolean oi = inInit, oo = inObject, ob = inBlock;
      inBlock = false;
      inMethod = null;
      inInit = true;
      inObject = false;
      super.visitClassDef(t);
      inMethod = om;
      inInit = oi;
      inObject = oo;
      inBlock = ob;
    }

    @Override
    public void visitVarDef(JCVariableDecl t) {
      boolean oo = inObject;
      if (t.sym != null && t.sym.owner instanceof ClassSymbol) inObject = !t.sym.isStatic();
      if (t.init != null) later(t.init);
      super.visitVarDef(t);
      inObject = oo;
    }

    @Override
    public void visitBlock(JCBlock t) {
      boolean oo = inObject;
      if (inMethod == null && inInit && !inBlock) inObject = (t.flags & Flags.STATIC) == 0;
      boolean ob = inBlock;
      inBlock = true;
      super.visitBlock(t);
      inBlock = ob;
      inObject = oo;
    }

    @Override
    public void visitMethodDef(JCMethodDecl t) {
      methods.put(t.sym, t);
      unitOf.put(t.sym, u);
      Symbol om = inMethod;
      boolean oi = inInit;
      inMethod = t.sym;
      inInit = t.sym.isConstructor();
      boolean oo = inObject, ob = inBlock;
      inObject = inInit;
      inBlock = true;
      super.visitMethodDef(t);
      inMethod = om;
      inInit = oi;
      inObject = oo;
      inBlock = ob;
    }

    @Override
    public void visitLambda(JCLambda t) {
      boolean oi = inInit;
      inInit = false;
      treeUnit.put(t, u);
      super.visitLambda(t);
      inInit = oi;
    }

    @Override
    public void visitReference(JCMemberReference t) {
      treeUnit.put(t, u);
      super.visitReference(t);
    }

    void asg(JCTree l) {
      l = TreeInfo.skipParens(l);
      Symbol s = TreeInfo.symbol(l);
      if (s instanceof VarSymbol && s.owner instanceof ClassSymbol && (!inInit || inObject && s.isStatic()))
        assignedOutsideInit.add(s);
    }

    private void later(JCTree e) {
      e = TreeInfo.skipParens(e);
      Symbol s = e == null ? null : TreeInfo.symbol(e);
      if (s instanceof VarSymbol && s.owner instanceof ClassSymbol && s.isStatic() && (!inInit || inObject)) filledLater.add(s);
    }

    @Override
    public void visitApply(JCMethodInvocation t) {
      if (t.meth instanceof JCFieldAccess) {
        JCFieldAccess a = (JCFieldAccess) t.meth;
        if (CHANGES.contains(a.name.toString())) later(a.selected);
        Symbol o = a.sym == null ? null : a.sym.owner;
        String on = o == null ? "" : o.flatName().toString();
        if (on.equals("java.util.Arrays") && (a.name.contentEquals("fill") || a.name.toString().startsWith("sort") || a.name.contentEquals("setAll")) || on.equals("java.util.Collections") && !t.args.isEmpty())
          later(t.args.head);
        if (on.equals("java.lang.System") && a.name.contentEquals("arraycopy") && t.args.size() == 5) later(t.args.get(2));
        if ((a.name.contentEquals("readBytes") || a.name.contentEquals("getBytes")) && on.startsWith("io.netty.")) for (JCTree x : t.args) later(x);
      }
      super.visitApply(t);
    }

    @Override
    public void visitReturn(JCReturn t) {
      if (t.expr != null) later(t.expr);
      super.visitReturn(t);
    }

    @Override
    public void visitAssign(JCAssign t) {
      asg(t.lhs);
      later(t.rhs);
      if (TreeInfo.skipParens(t.lhs) instanceof JCArrayAccess) later(((JCArrayAccess) TreeInfo.skipParens(t.lhs)).indexed);
      super.visitAssign(t);
    }

    @Override
    public void visitAssignop(JCAssignOp t) {
      asg(t.lhs);
      if (TreeInfo.skipParens(t.lhs) instanceof JCArrayAccess) later(((JCArrayAccess) TreeInfo.skipParens(t.lhs)).indexed);
      super.visitAssignop(t);
    }

    @Override
    public void visitUnary(JCUnary t) {
      if (t.hasTag(JCTree.Tag.PREINC)
          || t.hasTag(JCTree.Tag.POSTINC)
          || t.hasTag(JCTree.Tag.PREDEC)
          || t.hasTag(JCTree.Tag.POSTDEC)) {
        asg(t.arg);
        if (TreeInfo.skipParens(t.arg) instanceof JCArrayAccess) later(((JCArrayAccess) TreeInfo.skipParens(t.arg)).indexed);
      }
      super.visitUnary(t);
    }
  }

  String pos(Symbol in, JCTree t) {
    JCCompilationUnit u = null;
    for (Symbol s = in; s != null && u == null; s = s.owner) u = unitOf.get(s);
    if (u == null) return "?";
    return fileOf.get(u) + ":" + u.getLineMap().getLineNumber(TreeInfo.diagnosticPositionFor(null, t) == null ? t.getStartPosition() : t.getStartPosition());
  }

  String pos(Symbol s) {
    JCTree t = methods.get(s);
    if (t == null) t = classes.get(s);
    if (t == null) t = fields.get(s);
    if (t == null) return String.valueOf(s);
    JCCompilationUnit u = unitOf.get(s);
    int p = t instanceof JCMethodDecl ? ((JCMethodDecl) t).pos : t instanceof JCClassDecl ? ((JCClassDecl) t).pos : ((JCVariableDecl) t).pos;
    return fileOf.get(u) + ":" + u.getLineMap().getLineNumber(p);
  }

  ClassSymbol cls(String flat) {
    return byName.get(flat);
  }

  boolean isSub(ClassSymbol c, String flat) {
    for (Type t : types.closure(c.type)) if (t.tsym.flatName().toString().equals(flat)) return true;
    return false;
  }

  boolean isSubSafe(ClassSymbol c, String flat) {
    try {
      return isSub(c, flat);
    } catch (RuntimeException e) {
      return false;
    }
  }

  String module(Symbol s) {
    JCCompilationUnit u = null;
    for (Symbol x = s; x != null && u == null; x = x.owner) u = unitOf.get(x);
    String f = fileOf.get(u);
    return f.substring(0, f.indexOf('/'));
  }

  /** concrete message types: non-abstract classes implementing BinaryCodec */
  List<ClassSymbol> messages() {
    List<ClassSymbol> r = new ArrayList<>();
    for (Symbol s : classes.keySet()) {
      ClassSymbol c = (ClassSymbol) s;
      if ((c.flags() & (Flags.ABSTRACT | Flags.INTERFACE)) != 0 || c.isEnum()) continue;
      if (c.name.isEmpty()) continue;
      if (isSub(c, "com.finproto.codec.BinaryCodec")) r.add(c);
    }
    return r;
  }

  List<ClassSymbol> implementers(String flat) {
    List<ClassSymbol> r = new ArrayList<>();
    for (Symbol s : classes.keySet()) {
      ClassSymbol c = (ClassSymbol) s;
      if ((c.flags() & (Flags.ABSTRACT | Flags.INTERFACE)) != 0) continue;
      if (isSub(c, flat)) r.add(c);
    }
    return r;
  }

  /** find the method a call of (name, erased parameter types) on an instance of c runs */
  MethodSymbol impl(ClassSymbol c, MethodSymbol m) {
    return m.implementation(c, types, true);
  }

  MethodSymbol method(ClassSymbol c, String name, String... params) {
    for (Type t : types.closure(c.type)) {
      for (Symbol s : t.tsym.members().getSymbolsByName(
          c.name.table.fromString(name))) {
        if (!(s instanceof MethodSymbol)) continue;
        MethodSymbol m = (MethodSymbol) s;
        if (m.params().size() != params.length) continue;
        boolean ok = true;
        int i = 0;
        for (VarSymbol p : m.params()) {
          String e = types.erasure(p.type).toString();
          if (!params[i].equals("*") && !e.equals(params[i])) ok = false;
          i++;
        }
        if (ok) {
          if ((m.flags() & Flags.ABSTRACT) != 0) {
            MethodSymbol im = m.implementation(c, types, true);
            if (im != null) return im;
          }
          return m;
        }
      }
    }
    return null;
  }

  boolean isRecordLike(ClassSymbol c) {
    return false;
  }

  List<VarSymbol> instanceFields(ClassSymbol c) {
    List<VarSymbol> r = new ArrayList<>();
    List<Type> cl = new ArrayList<>();
    for (Type t = c.type; t != null && t.tsym != null && classes.containsKey(t.tsym); t = types.supertype(t))
      cl.add(0, t);
    for (Type t : cl) {
      JCClassDecl d = classes.get(t.tsym);
      for (JCTree m : d.defs)
        if (m instanceof JCVariableDecl && !((JCVariableDecl) m).sym.isStatic())
          r.add(((JCVariableDecl) m).sym);
    }
    return r;
  }
}
