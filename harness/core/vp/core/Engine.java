package vp.core;

import java.io.PrintWriter;
import java.io.StringWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;
import java.util.regex.Matcher;
import java.util.regex.Pattern;

/** Generates, runs, shrinks and reports the cases of one property. */
public final class Engine {

  static final class Outcome {

    Violation violation;
    Throwable error;
    Ctx ctx;
    int[] data;
    int[] sched;

    boolean failed() {
      return violation != null;
    }
  }

  static final class Failure {

    Part part;
    long index;
    Outcome out;
    boolean confirmed;
    int shrinks;
  }

  final class Handle {

    final Part decl;
    Loader loader;
    Part part;

    Handle(Part decl) {
      this.decl = decl;
    }

    Part get() throws Exception {
      if (part == null || decl.fresh) {
        loader = new Loader(decl.inst ? instClasses : plainClasses, Engine.class.getClassLoader());
        if (decl.inst) {
          // no scheduled thread may be held up inside a class initializer
          for (String n : mainNames) {
            Class.forName(n, true, loader);
          }
        }
        for (Part p : parts(loader)) {
          if (p.name.equals(decl.name)) {
            part = p;
          }
        }
      }
      return part;
    }
  }

  private final String id;
  private final boolean thorough;
  private final long seed;
  private final Path verif;
  private final Map<String, byte[]> plainClasses;
  private final Map<String, byte[]> instClasses;
  private final List<String> mainNames = new ArrayList<>();
  private final long t0 = System.nanoTime();
  private final double capS;
  private final double scale;
  private final AtomicLong evaluations = new AtomicLong();
  private final Set<Long> distinct = ConcurrentHashMap.newKeySet();
  private final Map<String, AtomicLong> labels = new ConcurrentHashMap<>();
  private final Map<String, Map<String, Object>> partStats = new TreeMap<>();
  private final List<Object> samples = Collections.synchronizedList(new ArrayList<>());
  private final List<String> rules = new ArrayList<>();
  private final List<String> remarks = Collections.synchronizedList(new ArrayList<>());
  private int violations;

  private Engine(String id, boolean thorough, long seed, Path verif, Path build) throws Exception {
    this.id = id;
    this.thorough = thorough;
    this.seed = seed;
    this.verif = verif;
    Map<String, byte[]> main = Loader.read(build.resolve("main"));
    Map<String, byte[]> props = Loader.read(build.resolve("props"));
    for (String n : new java.util.TreeSet<>(main.keySet())) {
      mainNames.add(n.replace('/', '.'));
    }
    plainClasses = new HashMap<>(main);
    plainClasses.putAll(props);
    instClasses = new HashMap<>(new Instr("com/webotech/").all(main));
    instClasses.putAll(props);
    capS = Double.parseDouble(env("VP_CAP_S", thorough ? "5400" : "300"));
    scale = Double.parseDouble(env("VP_SCALE", "1"));
  }

  private static String env(String k, String d) {
    String v = System.getenv(k);
    return v == null || v.isEmpty() ? d : v;
  }

  @SuppressWarnings("unchecked")
  private List<Part> parts(Loader l) throws Exception {
    Class<?> c = l.loadClass("vp.props.Registry");
    return (List<Part>) c.getMethod("parts", String.class).invoke(null, id);
  }

  public static void main(String[] a) throws Exception {
    int rc;
    try {
      rc = main0(a);
    } catch (Throwable t) {
      t.printStackTrace();
      rc = 2;
    }
    System.out.flush();
    Runtime.getRuntime().halt(rc);
  }

  private static int main0(String[] a) throws Exception {
    Path verif = Path.of(a[0]);
    Path build = Path.of(a[1]);
    String id = a[2];
    boolean thorough = a[3].equals("thorough");
    long seed = Long.parseLong(env("VERIF_SEED", "1"));
    Engine e = new Engine(id, thorough, seed, verif, build);
    if (a.length > 5 && a[4].equals("--replay")) {
      return e.replay(Path.of(a[5]));
    }
    String only = a.length > 5 && a[4].equals("--part") ? a[5] : null;
    return e.check(only);
  }

  private double elapsed() {
    return (System.nanoTime() - t0) / 1e9;
  }

  private static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  private long caseSeed(Part p, long index, int stream) {
    long h = mix(seed + 0x9e3779b97f4a7c15L);
    for (char c : (id + "/" + p.name).toCharArray()) {
      h = mix(h * 31 + c);
    }
    return mix(h + index * 0x9e3779b97f4a7c15L + stream * 0x632be59bd9b4e019L);
  }

  private Outcome runCase(Part p, Src d, Src s, AtomicReference<Object[]> live) {
    Outcome o = new Outcome();
    Ctx c = new Ctx(d, s, thorough);
    o.ctx = c;
    if (live != null) {
      live.set(new Object[]{c, System.nanoTime()});
    }
    try {
      p.prop.run(c);
    } catch (Violation v) {
      o.violation = v;
    } catch (LinkageError | OutOfMemoryError | Sched.Abort t) {
      o.error = t;
    } catch (Throwable t) {
      o.violation = new Violation("unexpected " + t + " " + where(t), t);
    } finally {
      if (live != null) {
        live.set(null);
      }
    }
    o.data = d.recorded();
    o.sched = s.recorded();
    return o;
  }

  private static String where(Throwable t) {
    StringWriter w = new StringWriter();
    t.printStackTrace(new PrintWriter(w));
    String[] ls = w.toString().split("\n");
    return String.join(" ", Arrays.copyOfRange(ls, Math.min(1, ls.length), Math.min(7, ls.length)))
        .replace("\t", "").replace("\r", "");
  }

  /** runs a case of a part in fresh classes on its own thread; null when it takes too long */
  private Outcome runFresh(Part decl, int[] data, int[] sched, long timeoutMs) throws Exception {
    Handle h = new Handle(decl);
    Part p = h.get();
    AtomicReference<Outcome> r = new AtomicReference<>();
    Thread t = new Thread(() -> r.set(runCase(p, Src.replay(data), Src.replay(sched), null)),
        "vp-replay");
    t.setDaemon(true);
    t.start();
    t.join(timeoutMs);
    return r.get();
  }

  private int check(String only) throws Exception {
    List<Part> decls = parts(new Loader(plainClasses, Engine.class.getClassLoader()));
    if (decls.isEmpty()) {
      System.err.println("no parts for " + id);
      return 2;
    }
    int rc = 0;
    for (Part p : decls) {
      if (only != null && !p.name.equals(only) || p.thoroughOnly && !thorough) {
        continue;
      }
      if (p.known != null) {
        rc = Math.max(rc, knownProbe(p));
        continue;
      }
      Failure f = runPart(p);
      if (f != null) {
        if (f.out.error != null) {
          System.err.println("ERROR in part " + p.name + ": " + f.out.error);
          f.out.error.printStackTrace();
          writeEvidence();
          return 2;
        }
        report(f);
        rc = 1;
        break;
      }
    }
    writeEvidence();
    System.out.printf("%s %s: %d cases, %d distinct non-trivial, %.1f s, %s%n", id,
        thorough ? "thorough" : "quick", evaluations.get(), distinct.size(), elapsed(),
        rc == 0 ? "held" : "VIOLATED");
    return rc;
  }

  private int knownProbe(Part p) throws Exception {
    Outcome o = runFresh(p, new int[0], new int[0], 60_000);
    evaluations.incrementAndGet();
    if (o == null || o.error != null) {
      System.err.println("known-finding probe " + p.known + " gave no answer "
          + (o == null ? "" : o.error));
      return 2;
    }
    if (!o.failed()) {
      return 0;
    }
    Path f = verif.resolve("known-findings.txt");
    List<String> lines = Files.exists(f) ? Files.readAllLines(f) : List.of();
    for (String l : lines) {
      if (l.startsWith("known: property=" + id + " ") && l.contains("[" + p.known + "]")
          && o.violation.getMessage().contains("[" + p.known + "]")) {
        System.out.println("KNOWN-FINDING: property=" + id + " "
            + l.substring(("known: property=" + id + " ").length()));
        return 0;
      }
    }
    Failure x = new Failure();
    x.part = p;
    x.out = o;
    x.confirmed = true;
    report(x);
    return 1;
  }

  private Failure runPart(Part p) throws Exception {
    long n = Math.max(1, (long) ((thorough ? p.thorough : p.quick) * scale));
    long pt0 = System.nanoTime();
    int workers = p.serial ? 1
        : Math.max(1, Math.min(p.workers, Runtime.getRuntime().availableProcessors()));
    AtomicLong next = new AtomicLong();
    AtomicLong done = new AtomicLong();
    AtomicLong nontrivial = new AtomicLong();
    AtomicInteger unconfirmed = new AtomicInteger();
    AtomicReference<Failure> fail = new AtomicReference<>();
    List<AtomicReference<Object[]>> live = new ArrayList<>();
    List<AtomicLong> curIdx = new ArrayList<>();
    List<Thread> ts = new ArrayList<>();
    boolean[] stop = {false};
    if (!p.rule.isEmpty()) {
      rules.add(p.name + ": " + p.rule);
    }
    for (int w = 0; w < workers; w++) {
      AtomicReference<Object[]> lv = new AtomicReference<>();
      AtomicLong ci = new AtomicLong(-1);
      live.add(lv);
      curIdx.add(ci);
      Thread t = new Thread(() -> {
        Handle h = new Handle(p);
        while (!stop[0]) {
          long i = next.getAndIncrement();
          Failure f = fail.get();
          if (i >= n || f != null && f.index < i || elapsed() > capS) {
            return;
          }
          ci.set(i);
          Outcome o;
          try {
            o = runCase(h.get(), Src.random(caseSeed(p, i, 0)), Src.random(caseSeed(p, i, 1)), lv);
          } catch (Throwable e) {
            o = new Outcome();
            o.error = e;
          }
          done.incrementAndGet();
          evaluations.incrementAndGet();
          if (o.error != null || o.failed()) {
            Failure nf = new Failure();
            nf.part = p;
            nf.index = i;
            nf.out = o;
            try {
              nf.confirmed = o.error != null || confirm(p, o);
            } catch (Exception e) {
              nf.confirmed = false;
            }
            if (!nf.confirmed) {
              remarks.add("part " + p.name + " case " + i + ": failure that did not happen again: "
                  + o.violation.getMessage());
              if (o.violation instanceof HangViolation || unconfirmed.incrementAndGet() < 3
                  && !p.racy) {
                continue;
              }
            }
            fail.accumulateAndGet(nf, (x, y) -> x == null || y.index < x.index ? y : x);
            continue;
          }
          Ctx c = o.ctx;
          for (String l : c.labels) {
            labels.computeIfAbsent(p.name + ":" + l, k -> new AtomicLong()).incrementAndGet();
          }
          if (c.nontrivialKey != null) {
            nontrivial.incrementAndGet();
            distinct.add(hash64(p.name + "|" + c.nontrivialKey));
            if (i < 40 && samplesOf(p) < 2) {
              Map<String, Object> m = new TreeMap<>();
              m.put("part", p.name);
              m.put("index", i);
              List<String> notes = c.notes();
              m.put("case", notes.size() > 40 ? notes.subList(0, 40) : notes);
              samples.add(m);
            }
          }
        }
      }, "vp-worker-" + w);
      t.setDaemon(true);
      t.start();
      ts.add(t);
    }
    long limitNs = (p.racy ? 240L : 90L) * 1_000_000_000L;
    Set<Thread> abandoned = new java.util.HashSet<>();
    while (true) {
      boolean alive = false;
      for (int w = 0; w < workers; w++) {
        Thread t = ts.get(w);
        if (!t.isAlive() || abandoned.contains(t)) {
          continue;
        }
        alive = true;
        Object[] lv = live.get(w).get();
        if (lv != null && System.nanoTime() - (long) lv[1] > (fail.get() == null ? limitNs
            : limitNs / 4)) {
          Ctx c = (Ctx) lv[0];
          abandoned.add(t);
          if (fail.get() != null) {
            continue;
          }
          Outcome o = new Outcome();
          o.ctx = c;
          o.data = c.d.recorded();
          o.sched = c.s.recorded();
          o.violation = new HangViolation("the case does not terminate: " + stack(t));
          if (confirmHang(p, o)) {
            Failure nf = new Failure();
            nf.part = p;
            nf.index = curIdx.get(w).get();
            nf.out = o;
            nf.confirmed = true;
            fail.accumulateAndGet(nf, (x, y) -> x == null || y.index < x.index ? y : x);
          } else {
            remarks.add("part " + p.name + ": a slow case was abandoned");
          }
          stop[0] = fail.get() != null;
        }
      }
      if (!alive) {
        break;
      }
      Thread.sleep(5);
    }
    Map<String, Object> st = new TreeMap<>();
    st.put("cases", done.get());
    st.put("planned", n);
    st.put("nontrivial", nontrivial.get());
    st.put("wall_s", Math.round((System.nanoTime() - pt0) / 1e8) / 10.0);
    partStats.put(p.name, st);
    Failure f = fail.get();
    if (f != null && f.out.error == null && f.confirmed && !p.racy
        && !f.out.violation.getMessage().startsWith("the case does not terminate")) {
      shrink(f);
    }
    return f;
  }

  private static String stack(Thread t) {
    StringBuilder b = new StringBuilder();
    for (StackTraceElement e : t.getStackTrace()) {
      b.append(e).append(" < ");
      if (b.length() > 600) {
        break;
      }
    }
    return b.toString();
  }

  private long samplesOf(Part p) {
    synchronized (samples) {
      return samples.stream().filter(s -> ((Map<?, ?>) s).get("part").equals(p.name)).count();
    }
  }

  private static long hash64(String s) {
    long h = 1125899906842597L;
    for (int i = 0; i < s.length(); i++) {
      h = 31 * h + s.charAt(i);
    }
    return mix(h);
  }

  private boolean confirm(Part p, Outcome o) throws Exception {
    if (p.racy && !(o.violation instanceof HangViolation)) {
      return true;
    }
    int tries = o.violation instanceof HangViolation ? 2 : 8;
    for (int i = 0; i < tries; i++) {
      Outcome x = runFresh(p, o.data, o.sched, 100_000);
      if (x != null && x.failed()) {
        return true;
      }
    }
    return false;
  }

  private boolean confirmHang(Part p, Outcome o) throws Exception {
    Outcome x = runFresh(p, o.data, o.sched, 90_000);
    return x == null || x.failed();
  }

  // ---------------------------------------------------------------- shrinking

  private void shrink(Failure f) throws Exception {
    double limit = elapsed() + (thorough ? 60 : 20);
    Outcome best = f.out;
    int[] budget = {4000};
    boolean progress = true;
    while (progress && elapsed() < limit && budget[0] > 0) {
      progress = false;
      for (int which = 0; which < 2; which++) {
        for (int[] cand : Shrink.candidates(which == 0 ? best.sched : best.data)) {
          if (elapsed() > limit || budget[0]-- <= 0) {
            break;
          }
          Outcome o = runFresh(f.part, which == 0 ? best.data : cand,
              which == 0 ? cand : best.sched, 20_000);
          if (o != null && o.failed() && Shrink.simpler(o.data, o.sched, best.data, best.sched)) {
            best = o;
            f.shrinks++;
            progress = true;
            break;
          }
        }
      }
    }
    f.out = best;
  }

  // ---------------------------------------------------------------- reports

  private void report(Failure f) throws Exception {
    violations++;
    Path dir = verif.resolve("replays");
    Files.createDirectories(dir);
    Path file = dir.resolve(id + "-" + f.part.name + "-seed" + seed + "-" + f.index + ".json");
    Map<String, Object> m = new TreeMap<>();
    m.put("property", id);
    m.put("part", f.part.name);
    m.put("seed", seed);
    m.put("index", f.index);
    m.put("tier", thorough ? "thorough" : "quick");
    m.put("message", f.out.violation.getMessage());
    m.put("shrink_steps", f.shrinks);
    m.put("case", f.out.ctx == null ? List.of() : f.out.ctx.notes());
    m.put("data", list(f.out.data));
    m.put("sched", list(f.out.sched));
    Files.write(file, (Json.write(m) + "\n").getBytes(StandardCharsets.UTF_8));
    System.out.println("part " + f.part.name + " case " + f.index + " (" + f.shrinks
        + " shrink steps): " + f.out.violation.getMessage());
    if (f.out.ctx != null) {
      for (String s : f.out.ctx.notes()) {
        System.out.println("    " + s.replace("\n", "\\n"));
      }
    }
    System.out.println("VIOLATION property=" + id + " replay=" + file);
  }

  private static List<Integer> list(int[] a) {
    List<Integer> l = new ArrayList<>();
    if (a != null) {
      for (int x : a) {
        l.add(x);
      }
    }
    return l;
  }

  private int replay(Path file) throws Exception {
    String t = Files.readString(file);
    String part = field(t, "\"part\":\\s*\"([^\"]*)\"");
    Part decl = null;
    for (Part p : parts(new Loader(plainClasses, Engine.class.getClassLoader()))) {
      if (p.name.equals(part)) {
        decl = p;
      }
    }
    if (decl == null) {
      System.err.println("no part " + part);
      return 2;
    }
    int tries = decl.racy ? 200 : 1;
    for (int i = 0; i < tries; i++) {
      Outcome o = runFresh(decl, ints(field(t, "\"data\":\\s*\\[([^\\]]*)\\]")),
          ints(field(t, "\"sched\":\\s*\\[([^\\]]*)\\]")), 120_000);
      if (o == null) {
        System.out.println("does not terminate");
        System.out.println("VIOLATION property=" + id + " replay=" + file);
        return 1;
      }
      if (o.error != null) {
        o.error.printStackTrace();
        return 2;
      }
      if (i == 0 || o.failed()) {
        for (String s : o.ctx.notes()) {
          System.out.println("    " + s);
        }
      }
      if (o.failed()) {
        System.out.println(o.violation.getMessage());
        System.out.println("VIOLATION property=" + id + " replay=" + file);
        return 1;
      }
    }
    System.out.println("held");
    return 0;
  }

  private static String field(String t, String re) {
    Matcher m = Pattern.compile(re).matcher(t);
    if (!m.find()) {
      throw new IllegalArgumentException("no " + re);
    }
    return m.group(1);
  }

  private static int[] ints(String s) {
    if (s.trim().isEmpty()) {
      return new int[0];
    }
    return Arrays.stream(s.split(",")).mapToInt(x -> Integer.parseInt(x.trim())).toArray();
  }

  private void writeEvidence() throws Exception {
    Map<String, Object> cov = new TreeMap<>();
    cov.put("evaluations", evaluations.get());
    cov.put("distinct_nontrivial", distinct.size());
    cov.put("rule", String.join(" || ", rules));
    cov.put("samples", new ArrayList<>(samples));
    Map<String, Object> ls = new TreeMap<>();
    labels.forEach((k, v) -> ls.put(k, v.get()));
    cov.put("classes", ls);
    cov.put("parts", partStats);
    if (!remarks.isEmpty()) {
      cov.put("remarks", new ArrayList<>(remarks));
    }
    Map<String, Object> m = new TreeMap<>();
    m.put("property", id);
    m.put("tier", thorough ? "thorough" : "quick");
    m.put("seed", seed);
    m.put("level", "exploration");
    m.put("coverage", cov);
    m.put("assumptions", List.of(
        "generated cases are a sample of the quantified domain",
        "the instrumented scheduler explores sequentially consistent interleavings at field, "
            + "java.util and monitor accesses; weaker memory effects only by the real-thread parts"));
    m.put("wall_s", Math.round(elapsed() * 10) / 10.0);
    m.put("violations", violations);
    Path dir = verif.resolve("evidence");
    Files.createDirectories(dir);
    Files.write(dir.resolve(id + ".json"), (Json.write(m) + "\n").getBytes(StandardCharsets.UTF_8));
  }
}
