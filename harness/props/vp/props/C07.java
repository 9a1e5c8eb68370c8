package vp.props;

import java.util.ArrayList;
import java.util.List;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Violation;

/** An exception in a callback is reported once and harms no other event. */
final class C07 {

  private C07() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 40000, 1_500_000, C07::seq).rule(
        "random configuration and history of events, each throwing one of some 40 kinds of exception or 9 of error "
            + "at a random callback or not; exact trace, reports and escapes compared with the "
            + "model; non-trivial: at least one callback threw and an event was processed later"));
    l.add(new Part("coop", 9000, 300_000, C07::coop).inst().rule(
        "1-3 firing threads with throwing events, one or more executor threads, default executor "
            + "included, random schedule; non-trivial: at least one callback threw and another "
            + "event was processed"));
    l.add(Marathon.part(Marathon.FAULTS));
    return l;
  }

  private static Cfg.Opts opts(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    // what a throwing entry of a terminal state does to the end is not specified
    o.bare = false;
    o.imm = false;
    o.ends = c.d.chance(1, 3);
    return o;
  }

  private static Tok tok(Ctx c, String id, int fuel, boolean errors, boolean few) {
    if (few && c.d.chance(2, 3)) {
      return new Tok(id, fuel, c.d.below(3), c.d.below(2));
    }
    if (c.d.chance(1, 2)) {
      return new Tok(id, fuel);
    }
    return new Tok(id, fuel, c.d.below(6), c.d.below(errors ? World.KINDS : World.EXC));
  }

  private static void seq(Ctx c) {
    Cfg cfg = Cfg.gen(c.d, opts(c));
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    boolean dup = c.d.chance(1, 4);
    if (c.d.chance(1, 6)) {
      w.again = new java.util.HashMap<>();
    }
    w.build(World.strategy(dup, w.config(ex)), c.d);
    Model m = new Model(cfg);
    m.dropDup = dup;
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "")
        + (w.again != null ? " one instance of each exception" : ""));
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    ex.drain();
    exp.addAll(m.drain());
    StringBuilder hist = new StringBuilder();
    int n = c.d.size(1, 20, 100);
    boolean later = false;
    int before = 0;
    for (int i = 0; i < n; i++) {
      if (c.d.chance(2, 3)) {
        int e = c.d.below(cfg.ev.size());
        Tok t = c.d.chance(1, 8) ? null : tok(c, "t" + i, c.d.weighted(4, 2), true,
            w.again != null);
        c.note("fire '" + cfg.ev.get(e) + "' " + t + (t != null && t.throwAt >= 0 ? " throws kind "
            + t.throwKind + " at callback " + t.throwAt : ""));
        hist.append(" f").append(e);
        if (t != null) {
          hist.append('/').append(t.throwAt).append('.').append(t.throwKind);
        }
        w.fire(e, t);
        exp.addAll(m.fire(e, t));
      } else {
        c.note("pump");
        hist.append(" p");
        ex.drain();
        exp.addAll(m.drain());
        check(c, w, m, exp, "after pump");
        later |= before > 0 && m.processed > before;
        if (!w.thrown.isEmpty()) {
          before = m.processed;
        }
      }
    }
    ex.drain();
    exp.addAll(m.drain());
    check(c, w, m, exp, "finally");
    // exceptions reported are the very ones thrown, errors go to the executor
    List<Throwable> exc = new ArrayList<>();
    List<Throwable> err = new ArrayList<>();
    for (Throwable t : w.thrown) {
      (t instanceof Exception ? exc : err).add(t);
    }
    int x = 0;
    for (Rec r : w.logCopy()) {
      if (r.is("EXC")) {
        c.same(x < exc.size() ? exc.get(x) : null, r.obj, "reported exception " + x);
        x++;
      }
    }
    c.eq(exc.size(), x, "number of reports");
    for (Throwable t : ex.escaped) {
      c.check(err.contains(t), "escaped to the executor: " + t);
    }
    c.eq(0, w.sm.getEventQueueSize(), "queue size at the end");
    c.labelIf(!exc.isEmpty(), "exception");
    c.labelIf(w.again != null && exc.size() > 1, "one instance again");
    c.labelIf(!err.isEmpty(), "error");
    later |= before > 0 && m.processed > before;
    if (!w.thrown.isEmpty() && (later || m.processed > w.thrown.size())) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void check(Ctx c, World w, Model m, List<String> exp, String when) {
    Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, when);
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), when + ": current state");
    c.eq(m.ended, w.sm.isEnded(), when + ": isEnded");
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = opts(c);
    o.maxStates = 4;
    o.odd = false;
    o.maxActs = 2;
    Cfg cfg = Cfg.gen(c.d, o);
    int clients = c.d.range(1, 3);
    int threads = c.d.chance(1, 4) ? 2 : 1;
    boolean own = threads > 1 || c.d.chance(1, 2);
    boolean errors = c.d.chance(1, 2);
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        ops.add(new Object[]{c.d.below(cfg.baseEvents()), tok(c, "c" + i + "." + j, c.d.below(2),
            errors, false)});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note(own ? "own executor with " + threads + " threads" : "default executor");
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(World.strategy(false, w.config(ex[0])), c.d);
        C02.start(w);
      });
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      for (vp.core.Sched.Uncaught u : co.s.uncaught) {
        c.check(w.threw(u.error) && u.error instanceof Error, "escaped: " + u);
      }
      if (ex[0] != null) {
        for (vp.core.Sched.Uncaught u : ex[0].escaped) {
          c.check(w.threw(u.error) && u.error instanceof Error,
              "escaped to the executor: " + u + " at " + Coop.top(u.error));
        }
      }
      History h = new History(w);
      h.fifo = threads == 1;
      h.check(null);
      int x = 0;
      List<Throwable> exc = new ArrayList<>();
      for (Throwable t : w.thrown) {
        if (t instanceof Exception) {
          exc.add(t);
        }
      }
      for (Rec r : w.logCopy()) {
        if (r.is("EXC")) {
          c.same(x < exc.size() ? exc.get(x) : null, r.obj, "reported exception " + x);
          x++;
        }
      }
      c.eq(exc.size(), x, "number of reports");
      c.eq(h.m.curName(), World.stName(w.sm.getCurrentState()), "final state");
      c.eq(0, w.sm.getEventQueueSize(), "final queue size");
      if (!w.thrown.isEmpty() && h.processed.size() > 1) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(w.logCopy()) + co.s.steps());
      }
      c.labelIf(!exc.isEmpty(), "exception");
      c.labelIf(exc.size() < w.thrown.size(), "error");
    }
  }
}
