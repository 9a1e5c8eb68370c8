package vp.props;

import java.util.ArrayList;
import java.util.List;
import java.util.Random;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Violation;

/** Long histories and deep backlogs on one machine, compared with the model. */
final class Marathon {

  static final int PLAIN = 0;
  static final int DUP = 1;
  static final int BOUND = 2;
  static final int FAULTS = 4;
  static final int REUSE = 8;

  private Marathon() {
  }

  static Part part(int mode) {
    return new Part("long", 500, 12_000, c -> run(c, mode)).rule(
        "one machine, up to 8 bursts of up to 6000 events with the backlog then processed; trace, "
            + "state and queue size compared with the model; non-trivial: more than 100 events "
            + "waited at once or more than 1000 were processed");
  }

  private static int burst(Ctx c) {
    switch (c.d.weighted(4, 4, 3, 1)) {
      case 0:
        return c.d.range(1, 10);
      case 1:
        return c.d.range(11, 150);
      case 2:
        return c.d.range(151, 1300);
      default:
        return c.d.range(1301, 6000);
    }
  }

  private static void run(Ctx c, int mode) {
    Cfg.Opts o = new Cfg.Opts();
    boolean faults = (mode & FAULTS) != 0 || c.d.chance(1, 4);
    o.maxActs = 2;
    o.odd = false;
    o.bare = o.imm = o.immInit = false;
    o.ends = c.d.chance(1, 8);
    o.endW = 1;
    o.targetW = 20;
    Cfg cfg = Cfg.gen(c.d, o);
    boolean dup = (mode & DUP) != 0 || c.d.chance(1, 6);
    int base = cfg.ev.size();
    int names = dup ? c.d.chance(1, 8) ? c.d.range(300, 4000) : c.d.range(0, 300) : c.d.below(3);
    Random r = new Random(c.d.below(1 << 20));
    for (int i = 0; i < names; i++) {
      cfg.alias(r.nextInt(base), i);
    }
    int bound = (mode & BOUND) != 0 || c.d.chance(1, 8) ? c.d.chance(1, 3) ? c.d.range(1, 20)
        : c.d.range(1, 2500) : -1;
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config<Object, Object> k =
        w.config(ex).withMaxQueueSize(bound);
    if (c.d.chance(1, 3)) {
      k.withEventQueue(C08.safeQueue(c));
    }
    w.build(World.strategy(dup, k), c.d);
    Model m = new Model(cfg);
    m.dropDup = dup;
    m.bound = bound;
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + " bound " + bound);
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    int n = c.d.range(1, 8);
    int id = 0;
    StringBuilder hist = new StringBuilder();
    List<com.webotech.statemachine.api.StateEvent<Object>> own = new ArrayList<>();
    for (int e = 0; e < cfg.ev.size(); e++) {
      own.add(cfg.event(e));
    }
    int done = 0;
    int at = 0;
    for (int i = 0; i < n; i++) {
      int b = burst(c);
      boolean fires = b < 1000 && c.d.chance(1, 2);
      boolean pre = c.d.chance(1, 3);
      c.note("fire " + b + " events" + (pre ? ", the first of them processed at once" : ""));
      hist.append(' ').append(b);
      for (int j = 0; j < b; j++) {
        int e = r.nextInt(cfg.ev.size());
        Tok t = r.nextInt(8) == 0 ? null : faults && r.nextInt(6) == 0 ? new Tok("t" + id,
            0, r.nextInt(5), r.nextInt(World.KINDS)) : new Tok("t" + id,
            fires && r.nextInt(4) == 0 ? 1 : 0);
        id++;
        if ((mode & REUSE) != 0 && r.nextInt(3) > 0) {
          own.get(e).setPayload(t);
          w.sm.fire(own.get(e));
        } else {
          w.fire(e, t);
        }
        exp.addAll(m.fire(e, t));
        if (j < 50 || j % 97 == 0 || j == b - 1) {
          c.eq(m.queue.size(), w.sm.getEventQueueSize(), "events waiting after fire " + j
              + " of burst " + i);
        }
        if (pre && j == 0) {
          ex.drain();
          exp.addAll(m.drain());
        }
      }
      ex.drain();
      exp.addAll(m.drain());
      c.eq(0, w.sm.getEventQueueSize(), "events waiting after burst " + i);
      at = compare(w, exp, at, "after burst " + i + " of sizes" + hist);
      c.eq(m.curName(), w.sm.getCurrentState().getName(), "state after burst " + i);
      c.eq(m.ended, w.sm.isEnded(), "ended after burst " + i);
      done = m.processed;
      if (m.ended) {
        break;
      }
    }
    for (Throwable t : ex.escaped) {
      if (!(t instanceof Error)) {
        throw new Violation("escaped to the executor: " + t);
      }
    }
    c.labelIf(m.maxWaiting > 1000, "over 1000 waiting");
    c.labelIf(done > 2000, "over 2000 processed");
    c.labelIf(m.rejected > 0, "rejected");
    c.labelIf(m.dropped > 0, "dropped");
    if (m.maxWaiting > 100 || done > 1000) {
      c.nontrivial(cfg + hist.toString() + bound + dup);
    }
  }

  /** the callbacks since position at; returns the new position */
  private static int compare(World w, List<String> exp, int at, String when) {
    List<Rec> log = w.log;
    int k = 0;
    for (int i = at; i < log.size(); i++) {
      Rec r = log.get(i);
      if (r.is("FIRE") || r.is("RET")) {
        continue;
      }
      String x = k < exp.size() ? exp.get(k) : "nothing";
      if (!x.equals(r.text)) {
        throw new Violation(when + ": expected callback <" + x + "> (number " + k + ") but was <"
            + r.text + ">");
      }
      k++;
    }
    if (k < exp.size()) {
      throw new Violation(when + ": expected callback <" + exp.get(k) + "> but there was none");
    }
    exp.clear();
    return log.size();
  }
}
