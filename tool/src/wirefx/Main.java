package wirefx;

import com.sun.tools.javac.code.Symbol;
import com.sun.tools.javac.code.Symbol.*;
import java.nio.file.*;
import java.util.*;

public final class Main {
  public static void main(String[] a) throws Exception {
    int[] rc = {0};
    Throwable[] err = {null};
    Thread t =
        new Thread(
            null,
            () -> {
              try {
                rc[0] = go(a);
              } catch (Throwable e) {
                err[0] = e;
              }
            },
            "main",
            1L << 29);
    t.start();
    t.join();
    if (err[0] != null) {
      err[0].printStackTrace(System.out);
      System.exit(2);
    }
    System.out.flush();
    System.exit(rc[0]);
  }

  static int go(String[] a) throws Exception {
    Prog p = new Prog(Paths.get(a[0]).toAbsolutePath().normalize());
    if (a[1].equals("dump")) {
      Eval ev = new Eval(p);
      ev.prepare();
      if (a.length > 4) ev.leafMethods.clear();
      ClassSymbol c = p.cls(a[2]);
      if (c == null) throw new IllegalArgumentException("no one class " + a[2]);
      for (Symbol s : c.members().getSymbols()) {
        if (!(s instanceof MethodSymbol) || !s.name.contentEquals(a[3])) continue;
        Eval.Summary r = ev.run(c, (MethodSymbol) s);
        System.out.println(s + "\n" + Eff.dump(r.tr, "  ") + "  ret=" + r.ret);
        for (Map.Entry<T, T> e : r.st.cells.entrySet())
          if (!e.getKey().is("loc")) System.out.println("    " + e.getKey() + " = " + e.getValue());
      }
      return 0;
    }
    if (a[1].equals("layout")) {
      Ctx cx = new Ctx(p);
      Layout l = new Layout(cx);
      for (Ctx.Msg m : cx.messages()) {
        System.out.println("message " + m.name());
        l.findOptional(m);
        Wire w = new Wire(m, cx.base(m)).build();
        for (String s : l.print(w, m)) System.out.println(s);
        Scn.leave();
      }
      return 0;
    }
    if (a[1].equals("dispatch")) {
      for (String s : new Dispatch(new Ctx(p)).print()) System.out.println(s);
      return 0;
    }
    if (a[1].equals("check")) {
      Path verif = Paths.get(System.getProperty("wirefx.home")).toAbsolutePath().normalize();
      String tier = "thorough".equals(System.getenv("VERIF_TIER")) || a.length > 3 && a[3].equals("thorough") ? "thorough" : "quick";
      Checks k = new Checks(p, verif, tier.equals("thorough"));
      int rc = 0;
      for (String id : a[2].split(",")) {
        Report r = new Report(id);
        try {
          if (!k.run(id, r)) {
            System.out.println("no check for " + id);
            return 2;
          }
        } catch (RuntimeException | StackOverflowError e) {
          // a construct the analyser cannot represent: what was settled before it stands, the rest is open
          Scn.leave();
          StackTraceElement[] t = e.getStackTrace();
          r.undecided("analysis", "obligations not reached", "", e + (t.length > 0 ? " at " + t[0] : ""));
        }
        rc = Math.max(rc, r.finish(verif, tier, p, k.ev, Explain.of(id), Explain.assumptions(id)));
      }
      return rc;
    }
    return 2;
  }
}
