package vp.props;

import java.util.ArrayList;
import java.util.List;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Violation;

/** Concurrent firing: exactly once, atomic, ordered. */
final class C02 {

  private C02() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    String rule = "random configuration, 1-3 firing threads, start racing or not, random schedule; "
        + "history must be one contiguous predicted block per event; non-trivial: at least 2 events "
        + "processed and at least one preemption or two firing threads; distinct by configuration, "
        + "fires and schedule outcome";
    l.add(new Part("coop-single", 9000, 300_000, c -> coop(c, 1)).inst().rule(rule));
    l.add(new Part("coop-pool", 5000, 200_000, c -> coop(c, c.d.range(2, 4))).inst().rule(
        rule + "; executor with 2-4 threads"));
    l.add(Marathon.part(Marathon.PLAIN));
    return l;
  }

  private static void coop(Ctx c, int threads) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 4;
    o.odd = false;
    o.maxActs = 2;
    o.endW = c.d.chance(1, 3) ? 1 : 0;
    o.imm = o.endW > 0;
    o.bare = o.endW > 0;
    boolean dup = c.d.chance(1, 4);
    o.fires = !dup;
    Cfg cfg = Cfg.gen(c.d, o);
    int clients = c.d.range(1, 3);
    boolean race = c.d.chance(1, 3);
    boolean own = threads > 1 || c.d.chance(2, 3);
    int k = 0;
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        if (dup || c.d.chance(1, 3)) {
          int al = cfg.alias(e, k);
          ops.add(new Object[]{al, dup && c.d.bool() ? new Tok("c" + i + "." + j, 0) : null});
        } else {
          ops.add(new Object[]{e, new Tok("c" + i + "." + j, c.d.below(2))});
        }
        k++;
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note((dup ? "drop-duplicate" : "default") + " strategy, "
        + (own ? "own executor with " + threads + " threads" : "default executor")
        + (race ? ", start races" : ""));
    for (int i = 0; i < clients; i++) {
      StringBuilder b = new StringBuilder("client " + i + " fires");
      for (Object[] op : plan.get(i)) {
        b.append(" '").append(cfg.ev.get((int) op[0])).append("' ").append(op[1]);
      }
      c.note(b.toString());
    }
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(World.strategy(dup, w.config(ex[0])), c.d);
        if (!race) {
          start(w);
        }
      });
      if (race) {
        co.client("starter", () -> start(w));
      }
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0) + " at "
            + Coop.top(ex[0].escaped.get(0).error));
      }
      History h = new History(w);
      h.fifo = threads == 1;
      h.check(null);
      c.eq(h.m.curName(), World.stName(w.sm.getCurrentState()), "final state");
      c.eq(h.m.ended, w.sm.isEnded(), "final isEnded");
      c.eq(0, w.sm.getEventQueueSize(), "final queue size");
      c.labelIf(h.m.ended, "ended");
      c.labelIf(race, "start races");
      c.labelIf(dup, "drop-duplicate");
      c.labelIf(!own, "default executor");
      c.labelIf(co.s.preemptions() > 0, "preempted");
      c.labelIf(co.s.hadExternals(), "blocked outside");
      if (h.processed.size() >= 2 && (co.s.preemptions() > 0 || clients > 1)) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(w.logCopy()) + co.s.steps());
      }
    }
  }

  static void start(World w) {
    w.mark("START", null, null, "");
    w.sm.start();
    w.mark("STARTED", null, null, "");
  }
}
