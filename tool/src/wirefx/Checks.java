package wirefx;

import com.sun.tools.javac.code.*;
import com.sun.tools.javac.code.Symbol.*;
import java.nio.file.*;
import java.util.*;

/** One method per property. */
final class Checks {
  final Prog p;
  final Ctx cx;
  final Eval ev;
  final Path verif;
  final boolean thorough;

  Checks(Prog p, Path verif, boolean thorough) {
    this.p = p;
    this.verif = verif;
    this.thorough = thorough;
    cx = new Ctx(p);
    ev = cx.ev;
  }

  /** a class whose initialiser always fails can do nothing at all */
  private void loads(String id, Report r) {
    if (!List.of("C01", "C09", "C11", "C12", "C14", "C24").contains(id)) return;
    for (Symbol c : new ArrayList<>(p.classes.keySet())) ev.init((ClassSymbol) c);
    for (Map.Entry<ClassSymbol, String> e : ev.failed.entrySet()) {
      ClassSymbol c = e.getKey();
      String n = c.flatName().toString();
      String of = n.startsWith("com.finproto.bitmap.") ? "C24" : n.endsWith("ChecksumServiceFactory") ? "C11" : n.startsWith("com.finproto.codec.") ? "C09" : n.endsWith("MessageFactory") ? "C12" : c.isEnum() ? "C14" : "C01";
      if (of.equals(id)) r.bad("the class can be initialised", n, e.getValue(), "its initialiser always fails");
    }
  }

  boolean run(String id, Report r) throws Exception {
    loads(id, r);
    CodecChecks c = new CodecChecks(this, r);
    switch (id) {
      case "C01":
        c.roundTrip();
        return true;
      case "C02":
        c.wireLayout();
        return true;
      case "C03":
        c.byteOrder();
        return true;
      case "C04":
        c.textWidth();
        return true;
      case "C05":
        c.textContent();
        return true;
      case "C06":
        c.prefixes();
        return true;
      case "C07":
        c.frameLength();
        return true;
      case "C08":
        c.frameChecksum();
        return true;
      case "C09":
        new Sums(cx, r).run();
        return true;
      case "C11":
        new Factories(cx, r).registry();
        return true;
      case "C14":
        new Factories(cx, r).twoWay(c.tables);
        return true;
      case "C12":
        c.dispatchTables(true, false);
        new Factories(cx, r).contract(true, false);
        return true;
      case "C13":
        c.dispatchTables(false, true);
        new Factories(cx, r).contract(false, true);
        return true;
      case "C15":
        c.reuse();
        return true;
      case "C18":
        new ObjectChecks(cx, r).equalsRules();
        return true;
      case "C19":
        new ObjectChecks(cx, r).hashRules();
        return true;
      case "C20":
        new ObjectChecks(cx, r).printRules();
        return true;
      case "C21":
        new ObjectChecks(cx, r).accessorRules();
        return true;
      case "C10":
        new EffectChecks(c).pureChecksums();
        return true;
      case "C16":
        new EffectChecks(c).repeatable();
        return true;
      case "C17":
        new EffectChecks(c).separate();
        return true;
      case "C22":
        new EffectChecks(c).truncation();
        return true;
      case "C23":
        new EffectChecks(c).termination();
        return true;
      case "C24":
        new Bitmaps(cx, r).positions();
        return true;
      case "C25":
        new Bitmaps(cx, r).readBack();
        return true;
      case "C26":
        new EffectChecks(c).portable();
        return true;
      case "C27":
        new EffectChecks(c).extent();
        return true;
      default:
        return false;
    }
  }
}
