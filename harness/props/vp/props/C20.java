package vp.props;

import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** The reported queue size counts the events not yet processed. */
final class C20 {

  private C20() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 60000, 1_800_000, C20::seq).rule(
        "random configuration, strategy, bound, history of fires (before the start and after the "
            + "end too), pumps, stops, throwing callbacks: the size after every operation equals "
            + "the model's, in every callback it is the model's or one more; non-trivial: at least "
            + "3 events waited at a time and something was rejected, dropped, threw or ended"));
    l.add(new Part("coop", 7000, 250_000, C20::coop).inst().rule(
        "1-3 firing threads and a thread polling the size, 1-3 executor threads, bound or not, "
            + "random schedule; every polled size lies between the events certainly waiting and "
            + "those possibly waiting or in progress; zero at the end; non-trivial: a poll was "
            + "pinned to one possible value above zero or a size above one was seen"));
    l.add(Marathon.part(Marathon.PLAIN));
    return l;
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    boolean faults = c.d.bool();
    o.bare = o.imm = !faults;
    o.ends = c.d.chance(1, 2);
    Cfg cfg = Cfg.gen(c.d, o);
    boolean dup = c.d.chance(1, 3);
    int bound = c.d.chance(1, 3) ? c.d.range(1, 4) : -1;
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    w.build(World.strategy(dup, w.config(ex).withMaxQueueSize(bound)), c.d);
    Model m = new Model(cfg);
    m.dropDup = dup;
    m.bound = bound;
    m.sizes = new ArrayList<>();
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + " bound " + bound);
    List<Integer> sizes = new ArrayList<>();
    boolean[] initial = {false};
    w.hook = r -> {
      if (History.isCallback(r) && !r.is("EXC")) {
        sizes.add(w.sm.getEventQueueSize());
      }
    };
    c.eq(0, w.sm.getEventQueueSize(), "size of a fresh machine");
    int n = c.d.size(2, 30, 300);
    int startAt = c.d.weighted(4, 1, 1);
    int initSizes = -1;
    boolean stopped = false;
    StringBuilder hist = new StringBuilder();
    for (int i = 0; i < n; i++) {
      if (i == startAt) {
        hist.append(" start");
        w.sm.start();
        m.start();
        initSizes = m.sizes.size();
      } else if (c.d.chance(4, 5)) {
        int e = c.d.below(cfg.ev.size());
        Tok t = c.d.chance(1, 6) ? null : faults && c.d.chance(1, 3) ? new Tok("t" + i,
            c.d.below(2), c.d.below(5), c.d.below(World.KINDS))
            : new Tok("t" + i, c.d.weighted(4, 2, 1));
        c.note("fire '" + cfg.ev.get(e) + "' " + t);
        hist.append(" f").append(e);
        w.fire(e, t);
        m.fire(e, t);
      } else if (i > startAt && c.d.chance(1, 12)) {
        hist.append(" stop");
        w.sm.stop();
        m.ended = true;
        m.cur = Model.AT_END;
        stopped = true;
      } else {
        hist.append(" p");
        ex.drain();
        m.drain();
      }
      c.eq(m.queue.size(), w.sm.getEventQueueSize(), "size after step " + i + hist);
      sizes(c, m, sizes, initSizes);
    }
    ex.drain();
    m.drain();
    sizes(c, m, sizes, initSizes);
    c.eq(0, w.sm.getEventQueueSize(), "size after all is processed");
    boolean special = m.rejected + m.dropped + w.thrown.size() > 0 || m.ended;
    c.labelIf(m.rejected > 0, "rejected");
    c.labelIf(m.dropped > 0, "dropped");
    c.labelIf(m.ended, "ended");
    c.labelIf(stopped, "stopped");
    c.labelIf(!w.thrown.isEmpty(), "threw");
    if (special && m.maxWaiting >= 3) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void sizes(Ctx c, Model m, List<Integer> sizes, int init) {
    c.eq(m.sizes.size(), sizes.size(), "callbacks");
    for (int i = 0; i < sizes.size(); i++) {
      int s = sizes.get(i);
      int x = m.sizes.get(i);
      if (s != x && (i < init || s != x + 1)) {
        throw new Violation("size " + s + " in callback " + i + " while " + x + " events wait"
            + (i < init ? " and none is in progress" : ""));
      }
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.odd = false;
    o.maxActs = 2;
    boolean dup = c.d.chance(1, 4);
    o.fires = !dup;
    o.bare = o.imm = false;
    o.endW = c.d.chance(1, 4) ? 1 : 0;
    Cfg cfg = Cfg.gen(c.d, o);
    int bound = c.d.chance(1, 4) ? c.d.range(1, 3) : -1;
    int threads = c.d.weighted(6, 1, 1) + 1;
    boolean own = threads > 1 || c.d.bool();
    boolean faults = c.d.chance(1, 3);
    int clients = c.d.range(1, 3);
    int polls = c.d.range(1, 6);
    int gateAt = c.d.chance(1, 2) ? c.d.below(6) : -1;
    List<List<Object[]>> plan = new ArrayList<>();
    int k = 0;
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        String id = "c" + i + "." + j;
        ops.add(new Object[]{dup ? cfg.alias(e, k++) : e, faults && c.d.chance(1, 3)
            ? new Tok(id, 0, c.d.below(4), c.d.below(World.EXC)) : new Tok(id, dup ? 0 : c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + " bound " + bound);
    c.note((own ? "own executor with " + threads + " threads" : "default executor") + ", held up at "
        + gateAt);
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    int[] left = {clients + 1};
    int[] seen = {0};
    boolean[] on = {false};
    w.hook = r -> {
      if (on[0] && History.isCallback(r) && r.thread.getName().indexOf("client") < 0
          && seen[0]++ == gateAt) {
        Sched.block(() -> left[0] == 0, "held up");
      }
    };
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(World.strategy(dup, w.config(ex[0]).withMaxQueueSize(bound)), c.d);
        C02.start(w);
      });
      on[0] = true;
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
          left[0]--;
        });
      }
      co.client("poller-client", () -> {
        for (int i = 0; i < polls; i++) {
          w.mark("POLL", null, null, "" + i);
          int s = w.sm.getEventQueueSize();
          w.mark("POLLED", null, null, "" + s);
          Sched.point();
        }
        left[0]--;
      });
      co.go();
      List<Rec> log = w.logCopy();
      for (Rec r : log) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      Set<Rec> rej = new HashSet<>();
      for (Rec r : log) {
        if (r.is("EXC") && r.obj instanceof IllegalStateException && !w.threw(r.obj)) {
          rej.add(r);
        }
      }
      History h = new History(w);
      h.fifo = threads == 1;
      h.check(rej);
      c.eq(0, w.sm.getEventQueueSize(), "size at the end");
      boolean pinned = false;
      int from = -1;
      for (int i = 0; i < log.size(); i++) {
        Rec r = log.get(i);
        if (r.is("POLL")) {
          from = i;
        }
        if (!r.is("POLLED")) {
          continue;
        }
        int s = Integer.parseInt(r.text.substring(r.text.indexOf(' ') + 1));
        int lo = 0;
        int hi = 0;
        for (History.Fire f : h.fires.values()) {
          if (!f.accepted()) {
            continue;
          }
          // until the event before it was through it certainly waited
          int until = f.proc < 0 ? -1 : f.proc == 0 ? h.initEnd
              : h.processed.get(f.proc - 1).last;
          lo += f.ret < from && until > i ? 1 : 0;
          // the next event's first callback proves it is through
          int through = f.proc >= 0 && f.proc + 1 < h.processed.size()
              ? h.processed.get(f.proc + 1).first : Integer.MAX_VALUE;
          hi += f.call < i && through > from ? 1 : 0;
        }
        if (s < lo || s > hi) {
          throw new Violation("size " + s + " was read between " + from + " and " + i
              + " of the log although it must be between " + lo + " and " + hi);
        }
        pinned |= s > 0 && lo == hi || s > 1;
      }
      c.labelIf(!rej.isEmpty(), "rejected");
      c.labelIf(h.m.ended, "ended");
      c.labelIf(pinned, "pinned");
      if (pinned) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(log) + co.s.steps());
      }
    }
  }
}
