package wirefx;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** The obligations of one property on this run, and how each was settled. */
final class Report {
  static final class Ob {
    String rule, site, pos, detail, status;
  }

  final String id;
  final List<Ob> obs = new ArrayList<>();
  final Map<String, Integer> counts = new TreeMap<>();
  final List<String> samples = new ArrayList<>();
  final List<String> broken = new ArrayList<>(); // the check itself cannot answer
  final long t0 = System.nanoTime();

  Report(String id) {
    this.id = id;
  }

  private void add(String st, String rule, String site, String pos, String detail) {
    Ob o = new Ob();
    o.rule = rule;
    o.site = site;
    o.pos = pos;
    o.detail = detail;
    o.status = st;
    obs.add(o);
    counts.merge(rule, 1, Integer::sum);
  }

  void ok(String rule, String site) {
    add("ok", rule, site, "", "");
  }

  void bad(String rule, String site, String pos, String detail) {
    add("violation", rule, site, pos, detail);
  }

  int faults() {
    return (int) obs.stream().filter(o -> o.status.equals("violation")).count();
  }

  int open() {
    return (int) obs.stream().filter(o -> o.status.equals("undecided")).count();
  }

  void undecided(String rule, String site, String pos, String detail) {
    add("undecided", rule, site, pos, detail);
  }

  /** cond: true = holds */
  void check(boolean cond, String rule, String site, String pos, String detail) {
    if (cond) ok(rule, site);
    else bad(rule, site, pos, detail);
  }

  void sample(String s) {
    if (samples.size() < 6) samples.add(s);
  }

  void floor(String what, int have, int need) {
    counts.put("instances of " + what, have);
    if (have < need && Ctx.ONLY == null) broken.add("only " + have + " " + what + " found, at least " + need + " expected");
  }

  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c == '\n') b.append("\\n");
      else if (c < 32) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append("\"").toString();
  }

  /** lines "known: property=<id> key=<key> <text>" of the committed findings file */
  static Map<String, String> known(Path f, String id) throws IOException {
    Map<String, String> r = new LinkedHashMap<>();
    if (!Files.exists(f)) return r;
    for (String l : Files.readAllLines(f)) {
      if (!l.startsWith("known: property=" + id + " key=")) continue;
      String rest = l.substring(("known: property=" + id + " key=").length());
      int i = rest.indexOf(' ');
      r.put(rest.substring(0, i), rest.substring(i + 1));
    }
    return r;
  }

  String key(Ob o) {
    return (o.rule + "|" + o.site + "|" + o.detail).replaceAll("\\s+", "_");
  }

  int finish(Path verif, String tier, Prog p, Eval ev, String explanation, List<String> assumptions) throws IOException {
    Map<String, String> kn = known(verif.resolve("known-findings.txt"), id);
    LinkedHashMap<String, Ob> viol = new LinkedHashMap<>(), und = new LinkedHashMap<>();
    LinkedHashSet<String> seenKnown = new LinkedHashSet<>();
    int ok = 0, bad = 0, un = 0, known = 0;
    for (Ob o : obs) {
      if (o.status.equals("ok")) ok++;
      else if (o.status.equals("undecided")) {
        un++;
        und.putIfAbsent(o.pos + o.detail, o);
      } else {
        String k = key(o);
        if (kn.containsKey(k)) {
          known++;
          seenKnown.add(k);
        } else {
          bad++;
          viol.putIfAbsent(o.rule + o.pos + o.detail, o);
        }
      }
    }
    for (String k : seenKnown) System.out.println("KNOWN-FINDING: property=" + id + " " + kn.get(k));
    for (Ob o : und.values()) System.out.println("UNDECIDED " + o.pos + " [" + o.rule + "] " + o.site + ": " + o.detail);
    Path ed = verif.resolve("evidence");
    Files.createDirectories(ed);
    Path rep = ed.resolve(id + ".violations.txt");
    Files.deleteIfExists(rep);
    int rc = 0;
    if (!viol.isEmpty()) {
      StringBuilder sb = new StringBuilder("property " + id + "\n");
      for (Ob o : viol.values()) {
        String l = o.pos + ": [" + o.rule + "] " + o.site + ": " + o.detail;
        sb.append(l).append("\n").append("    finding key: ").append(key(o)).append("\n");
        System.out.println(l);
      }
      Files.write(rep, sb.toString().getBytes(StandardCharsets.UTF_8));
      System.out.println("VIOLATION property=" + id + " replay=evidence/" + id + ".violations.txt");
      rc = 1;
    } else if (!broken.isEmpty()) {
      for (String b : broken) System.out.println("NO ANSWER: " + b);
      rc = 2;
    }
    // one obligation of each rule, written out
    Set<String> shown = new HashSet<>();
    for (Ob o : obs)
      if (samples.size() < 8 && shown.add(o.rule)) samples.add("[" + o.rule + "] " + o.site + ": " + o.status + (o.pos.isEmpty() ? "" : " at " + o.pos));
    double wall = (System.nanoTime() - t0) / 1e9;
    StringBuilder j = new StringBuilder("{\n");
    j.append(" \"property\": ").append(q(id)).append(",\n \"tier\": ").append(q(tier)).append(",\n");
    String seed = System.getenv("VERIF_SEED");
    j.append(" \"seed\": ").append(seed != null && seed.matches("-?\\d{1,9}") ? seed : "0").append(",\n");
    j.append(" \"level\": \"other\",\n \"coverage\": {\n  \"explanation\": ").append(q(explanation)).append(",\n");
    j.append("  \"obligations\": ").append(obs.size()).append(",\n  \"discharged\": ").append(ok).append(",\n");
    j.append("  \"undecided\": ").append(un).append(",\n  \"known_findings\": ").append(known).append(",\n");
    j.append("  \"source_files_analysed\": ").append(p.files).append(",\n  \"classes\": ").append(p.classes.size()).append(",\n");
    j.append("  \"methods_interpreted\": ").append(ev.visited.size()).append(",\n  \"calls_followed\": ").append(ev.calls).append(",\n");
    j.append("  \"obligations_per_rule\": {");
    boolean first = true;
    for (Map.Entry<String, Integer> e : counts.entrySet()) {
      j.append(first ? "" : ", ").append(q(e.getKey())).append(": ").append(e.getValue());
      first = false;
    }
    j.append("},\n  \"samples\": [");
    for (int i = 0; i < samples.size(); i++) j.append(i == 0 ? "" : ", ").append(q(samples.get(i)));
    j.append("]\n },\n \"assumptions\": [");
    for (int i = 0; i < assumptions.size(); i++) j.append(i == 0 ? "" : ", ").append(q(assumptions.get(i)));
    j.append("],\n \"wall_s\": ").append(String.format(Locale.ROOT, "%.2f", wall)).append(",\n \"violations\": ").append(bad).append("\n}\n");
    Files.write(ed.resolve(id + ".json"), j.toString().getBytes(StandardCharsets.UTF_8));
    System.out.println(
        id + ": " + obs.size() + " obligations, " + ok + " discharged, " + un + " undecided, " + known + " known, " + bad + " violated; "
            + p.files + " files, " + ev.visited.size() + " methods; " + String.format(Locale.ROOT, "%.1f s", wall));
    return rc;
  }
}
