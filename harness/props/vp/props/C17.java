package vp.props;

import com.webotech.statemachine.util.Threads;
import java.lang.Thread.UncaughtExceptionHandler;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashSet;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Set;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.atomic.AtomicInteger;
import org.apache.logging.log4j.Level;
import vp.core.CapLog;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Thread names and kinds. */
final class C17 {

  private C17() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("factory", 15000, 400_000, C17::factory).rule(
        "1-4 factories with odd, equal or prefix-related names and random handlers making threads "
            + "in random order, some from non-daemon threads; non-trivial: two factories made at "
            + "least two threads each"));
    l.add(new Part("around", 1500, 40_000, C17::around).serial().rule(
        "as factory, on daemon or other threads of several groups and priorities, interrupted or not, "
            + "with or without a default handler for uncaught exceptions in the process"));
    l.add(new Part("coop-factory", 4000, 150_000, C17::coopFactory).inst().rule(
        "2-4 threads making threads with shared and own factories, random schedule; names must be "
            + "unique; non-trivial: a preemption"));
    l.add(new Part("threads", 3, 40, C17::threads).racy().workers(1).rule(
        "8 real threads making 4000 threads each with shared and own factories: names are unique"));
    l.add(new Part("strategy", 2500, 60_000, C17::strategy).inst().serial().rule(
        "machines with default executors and random or default thread names, fired by 1-3 threads, "
            + "callbacks throwing Errors; every event callback is on a daemon thread of that name, "
            + "one thread if no Error, each Error is logged with the name of its thread; random "
            + "schedule; non-trivial: an Error or at least 3 events"));
    l.add(new Part("app", 1500, 50_000, C17::app).inst().rule(
        "applications with random or default thread names driven by a random history: all subsystem "
            + "calls and transitions after the first on one daemon thread of that name; "
            + "non-trivial: at least 3 transitions"));
    return l;
  }

  private static final UncaughtExceptionHandler[] HANDLERS = {(t, e) -> { }, (t, e) -> {
    throw new IllegalStateException();
  }};

  static void named(Thread t, String name) {
    String n = t.getName();
    if (!n.startsWith(name + "-") || n.length() == name.length() + 1) {
      throw new Violation("thread name '" + n + "' instead of '" + name + "-<number>'");
    }
    for (char x : n.substring(name.length() + 1).toCharArray()) {
      if (x < '0' || x > '9') {
        throw new Violation("thread name '" + n + "' instead of '" + name + "-<number>'");
      }
    }
    if (!t.isDaemon()) {
      throw new Violation("thread '" + n + "' is not a daemon thread");
    }
  }

  private static void factory(Ctx c) throws Exception {
    int k = c.d.range(1, 4);
    List<String> names = new ArrayList<>();
    List<ThreadFactory> fs = new ArrayList<>();
    List<UncaughtExceptionHandler> hs = new ArrayList<>();
    for (int i = 0; i < k; i++) {
      int w = names.isEmpty() ? 0 : c.d.below(4);
      String n = w < 2 ? Names.odd(c.d) : w == 2 ? c.d.pick(names) : c.d.pick(names) + "-0";
      names.add(n);
      UncaughtExceptionHandler h = c.d.pick(null, HANDLERS[0], HANDLERS[1]);
      hs.add(h);
      fs.add(h == null && c.d.bool() ? Threads.newNamedDaemonThreadFactory(n)
          : Threads.newNamedDaemonThreadFactory(n, h));
    }
    c.note("names " + names);
    int n = c.d.size(1, 12, 200);
    Set<String> used = new HashSet<>();
    int[] count = new int[k];
    int mult = 0;
    for (int i = 0; i < n; i++) {
      int x = c.d.below(k);
      AtomicInteger ran = new AtomicInteger();
      Thread t;
      if (i == 0 && c.d.chance(1, 10)) {
        // daemon or not, whoever makes it
        Thread[] r = {null};
        Thread maker = new Thread(() -> r[0] = fs.get(x).newThread(ran::incrementAndGet));
        maker.setDaemon(c.d.bool());
        maker.start();
        join(maker);
        t = r[0];
      } else {
        t = fs.get(x).newThread(ran::incrementAndGet);
      }
      named(t, names.get(x));
      c.check(used.add(t.getName()), "two threads are named '" + t.getName() + "'");
      c.same(hs.get(x) == null ? t.getThreadGroup() : hs.get(x), t.getUncaughtExceptionHandler(),
          "uncaught exception handler");
      c.eq(Thread.State.NEW, t.getState(), "state of a new thread");
      c.eq(0, ran.get(), "runs of the task before the thread is started");
      if (i == n - 1 && c.d.chance(1, 4)) {
        t.start();
        join(t);
        c.eq(1, ran.get(), "runs of the task");
      }
      mult += ++count[x] == 2 ? 1 : 0;
    }
    if (mult > 1) {
      c.nontrivial(names.toString() + n);
    }
  }

  private static void join(Thread t) throws InterruptedException {
    boolean was = Thread.interrupted();
    t.join();
    if (was) {
      Thread.currentThread().interrupt();
    }
  }

  private static void around(Ctx c) throws Throwable {
    UncaughtExceptionHandler old = Thread.getDefaultUncaughtExceptionHandler();
    if (c.d.chance(2, 3)) {
      Thread.setDefaultUncaughtExceptionHandler((t, e) -> { });
    }
    Throwable[] failed = {null};
    try {
      ThreadGroup g = c.d.bool() ? new ThreadGroup("g") : Thread.currentThread().getThreadGroup();
      if (c.d.chance(1, 4)) {
        g.setMaxPriority(c.d.range(1, 10));
      }
      boolean interrupted = c.d.chance(1, 4);
      Thread t = new Thread(g, () -> {
        try {
          if (interrupted) {
            Thread.currentThread().interrupt();
          }
          factory(c);
        } catch (Throwable x) {
          failed[0] = x;
        }
      }, "around");
      t.setDaemon(c.d.bool());
      t.setPriority(c.d.range(1, g.getMaxPriority()));
      t.start();
      t.join();
    } finally {
      Thread.setDefaultUncaughtExceptionHandler(old);
    }
    if (failed[0] != null) {
      throw failed[0];
    }
  }

  private static void coopFactory(Ctx c) {
    int clients = c.d.range(2, 4);
    boolean shared = c.d.bool();
    int[] n = new int[clients];
    int total = 0;
    for (int i = 0; i < clients; i++) {
      n[i] = c.d.range(1, 4);
      total += n[i];
    }
    c.note(clients + " threads" + (shared ? " share a factory" : ""));
    List<Thread> made = new ArrayList<>();
    try (Coop co = new Coop(c)) {
      ThreadFactory f = Threads.newNamedDaemonThreadFactory("x");
      for (int i = 0; i < clients; i++) {
        int me = i;
        co.client("t" + i, () -> {
          ThreadFactory g = shared ? f : Threads.newNamedDaemonThreadFactory("x");
          for (int j = 0; j < n[me]; j++) {
            Thread t = g.newThread(() -> { });
            synchronized (made) {
              made.add(t);
            }
          }
        });
      }
      co.go();
      Set<String> used = new HashSet<>();
      for (Thread t : made) {
        named(t, "x");
        c.check(used.add(t.getName()), "two threads are named '" + t.getName() + "'");
      }
      c.eq(total, made.size(), "threads made");
      if (co.s.preemptions() > 0) {
        c.nontrivial(clients + " " + shared + java.util.Arrays.toString(n) + co.s.steps());
      }
    }
  }

  private static void threads(Ctx c) throws Exception {
    int n = 8;
    int per = 4000;
    ThreadFactory shared = Threads.newNamedDaemonThreadFactory("x");
    List<Set<String>> names = new ArrayList<>();
    AtomicInteger ready = new AtomicInteger();
    List<Thread> ts = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Set<String> mine = new LinkedHashSet<>();
      names.add(mine);
      ThreadFactory f = i % 2 == 0 ? shared : Threads.newNamedDaemonThreadFactory("x");
      Thread t = new Thread(() -> {
        ready.incrementAndGet();
        while (ready.get() < n) {
          Thread.onSpinWait();
        }
        for (int j = 0; j < per; j++) {
          mine.add(f.newThread(() -> { }).getName());
        }
      });
      t.setDaemon(true);
      t.start();
      ts.add(t);
    }
    for (Thread t : ts) {
      t.join();
    }
    Set<String> all = new HashSet<>();
    for (Set<String> s : names) {
      all.addAll(s);
    }
    c.eq(n * per, all.size(), "different names of " + n * per + " threads");
    c.nontrivial("run" + c.d.below(1 << 20));
  }

  private static void strategy(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.odd = false;
    o.maxActs = 2;
    o.ends = o.bare = o.imm = false;
    boolean dup = c.d.chance(1, 4);
    o.fires = !dup;
    Cfg cfg = Cfg.gen(c.d, o);
    String name = c.d.chance(1, 3) ? null : Names.odd(c.d);
    String exp = name == null ? "state-machine" : name;
    // the Config was used with another name before
    String other = c.d.chance(1, 5) ? c.d.pick("other", "", "state-machine") : null;
    int clients = c.d.range(1, 3);
    boolean errors = c.d.bool();
    List<List<Object[]>> plan = new ArrayList<>();
    int k = 0;
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        Tok t = errors && c.d.chance(1, 3) ? new Tok("t" + k, 0, c.d.below(4), c.d.range(World.EXC - 1, World.KINDS - 1))
            : new Tok("t" + k, dup ? 0 : c.d.below(2));
        ops.add(new Object[]{dup ? cfg.alias(e, k) : e, t});
        k++;
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + ", thread name "
        + (name == null ? "by default" : "'" + name + "'") + (other == null ? ""
        : ", used with '" + other + "' before"));
    c.note(plan.size() + " firing threads");
    World w = new World(cfg, "m");
    List<Object[]> thrownOn = Collections.synchronizedList(new ArrayList<>());
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        var conf = w.config(null);
        if (other != null) {
          World.strategy(dup, conf.withThreadName(other));
        }
        if (name != null || other != null || c.d.bool()) {
          conf.withThreadName(name);
        }
        w.build(World.strategy(dup, conf), c.d);
        C02.start(w);
      });
      CapLog.start();
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      List<CapLog.Line> lines;
      try {
        co.go();
      } finally {
        lines = CapLog.stop();
      }
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      c.note(lines.toString());
      Set<Thread> on = new LinkedHashSet<>();
      List<Rec> log = w.logCopy();
      boolean init = true;
      for (Rec r : log) {
        init &= !r.is("STARTED");
        if (!init && History.isCallback(r)) {
          on.add(r.thread);
        }
      }
      Set<String> used = new HashSet<>();
      for (Thread t : on) {
        named(t, exp);
        c.check(used.add(t.getName()), "two threads are named '" + t.getName() + "'");
      }
      int err = 0;
      for (Throwable t : w.thrown) {
        if (!(t instanceof Error)) {
          continue;
        }
        err++;
        boolean ok = false;
        for (CapLog.Line line : lines) {
          if (line.thrown == t) {
            boolean named = false;
            for (Thread x : on) {
              named |= line.text.contains(x.getName()) && w.thrower(t).thread == x;
            }
            ok |= named && line.level == Level.ERROR;
          }
        }
        c.check(ok, "the Error " + t + " is not logged as an error with the name of its thread: "
            + lines);
      }
      c.check(on.size() <= 1 + err, "events are processed on " + on.size() + " threads although "
          + err + " died: " + on);
      new History(w).check(null);
      c.labelIf(err > 0, "error");
      c.labelIf(name == null, "default name");
      if (err > 0 || k >= 3) {
        c.nontrivial(cfg + exp + k + Util.callbacks(log) + co.s.steps());
      }
    }
  }

  private static void app(Ctx c) {
    String name = c.d.chance(1, 3) ? null : Names.odd(c.d);
    App a = App.gen(c, "A", false, false);
    a.threadName = name == null ? App.UNSET : name;
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        a.build(c);
        c.eq(name == null ? "app" : name, a.ctx.getAppThreadName(), "application thread name");
      });
      String desc = C13.drive(c, co, a);
      c.note(desc + " thread " + (name == null ? "by default" : "'" + name + "'"));
      co.settle();
      Thread one = null;
      int n = 0;
      int moves = 0;
      for (Rec r : a.logCopy()) {
        if (r.is("BEGIN")) {
          moves++;
        }
        if (moves > 1 && (r.is("BEGIN") || r.is("END") || r.is("SUB"))) {
          named(r.thread, name == null ? "app" : name);
          one = one == null ? r.thread : one;
          c.same(one, r.thread, "thread of the application");
          n++;
        }
      }
      c.labelIf(name == null, "default name");
      if (moves >= 3) {
        c.nontrivial(desc + name + n);
      }
      for (Sched.Uncaught u : co.s.uncaught) {
        throw new Violation("uncaught: " + u + " at " + Coop.top(u.error));
      }
    }
  }
}
