package vp.props;

import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.List;
import java.util.Queue;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Drop-duplicate: no two equal events wait, and nothing else is dropped. */
final class C09 {

  private C09() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 40000, 1_500_000, C09::seq).rule(
        "random configuration and history with few distinct events, odd names, own event types, "
            + "payloads, failures and actions firing; exact traces compared with the model; "
            + "non-trivial: an event was dropped and an equal one accepted later"));
    l.add(new Part("coop", 12000, 400_000, C09::coop).inst().rule(
        "2-4 threads firing equal and unequal events, processing held up or not, random schedule; "
            + "non-trivial: at least one event dropped, or two equal events accepted"));
    l.add(new Part("threads", 6, 100, C09::threads).racy().workers(1).rule(
        "real threads firing equal events at once into a machine whose processing is held up: "
            + "exactly one of each is accepted"));
    l.add(Own.part(true));
    l.add(Marathon.part(Marathon.DUP));
    return l;
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.customEvents = true;
    o.maxEvents = 3;
    o.ends = c.d.chance(1, 4);
    o.bare = o.imm = o.ends;
    boolean fail = !o.ends && c.d.chance(1, 3);
    Cfg cfg = Cfg.gen(c.d, o);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    int bound = c.d.chance(1, 6) ? c.d.range(1, 3) : -1;
    EventProcessingStrategyFactory.Config<Object, Object> k = w.config(ex).withMaxQueueSize(bound);
    Queue<EventMachinePair<Object, Object>> q = C08.queue(c);
    if (q != null) {
      k.withEventQueue(q);
    }
    w.build(World.strategy(true, k), c.d);
    Model m = new Model(cfg);
    m.dropDup = true;
    m.bound = bound;
    c.note("machine: " + cfg + " bound " + bound);
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    int n = c.d.size(1, 30, 200);
    StringBuilder hist = new StringBuilder();
    boolean again = false;
    for (int i = 0; i < n; i++) {
      if (c.d.chance(4, 5)) {
        int e = c.d.below(cfg.ev.size());
        Tok t = c.d.chance(1, 5) ? null : fail && c.d.chance(1, 3) ? new Tok("t" + i,
            c.d.weighted(4, 2), c.d.below(5), c.d.below(World.KINDS))
            : new Tok("t" + i, c.d.weighted(4, 2, 1));
        c.note("fire '" + cfg.ev.get(e) + "' " + t);
        hist.append(" f").append(e).append(t == null ? "" : "." + t.fuel + "." + t.throwAt);
        int size = m.queue.size();
        int dropped = m.dropped;
        exp.addAll(m.fire(e, t));
        w.fire(e, t);
        again |= dropped > 0 && m.queue.size() > size;
      } else {
        c.note("pump");
        hist.append(" p");
        exp.addAll(m.drain());
        ex.drain();
      }
      Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "step " + i);
      if (!m.ended) {
        c.eq(m.queue.size(), w.sm.getEventQueueSize(), "events waiting");
      }
    }
    ex.drain();
    exp.addAll(m.drain());
    Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "finally");
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
    for (Throwable t : ex.escaped) {
      c.check(t instanceof Error && w.threw(t), "escaped: " + t);
    }
    c.labelIf(m.dropped > 0, "dropped");
    c.labelIf(!w.thrown.isEmpty(), "failures");
    if (again) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.maxEvents = 2;
    o.odd = false;
    o.maxActs = 2;
    o.fires = c.d.chance(1, 4);
    o.ends = o.bare = o.imm = false;
    Cfg cfg = Cfg.gen(c.d, o);
    int clients = c.d.range(2, 4);
    boolean own = c.d.chance(2, 3);
    int gateAt = c.d.chance(2, 3) ? c.d.below(6) : -1;
    List<List<Object[]>> plan = new ArrayList<>();
    StringBuilder pl = new StringBuilder();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      pl.append(" client").append(i);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        ops.add(new Object[]{e, new Tok("c" + i + "." + j, c.d.below(2))});
        pl.append(' ').append(e);
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note("fires:" + pl + (own ? ", own executor" : ", default executor") + (gateAt >= 0
        ? ", held up at callback " + gateAt : ""));
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    int[] left = {clients};
    int[] seen = {0};
    boolean[] on = {false};
    w.hook = r -> {
      if (on[0] && History.isCallback(r) && !r.thread.getName().startsWith("client")
          && seen[0]++ == gateAt) {
        Sched.block(() -> left[0] == 0, "held up");
      }
    };
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(1, null) : null;
        w.build(World.strategy(true, w.config(ex[0])), c.d);
        C02.start(w);
      });
      on[0] = true;
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
          left[0]--;
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0) + " at "
            + Coop.top(ex[0].escaped.get(0).error));
      }
      History h = new History(w);
      h.mayDrop = f -> true;
      h.check(null);
      Waits ws = new Waits(h);
      int dropped = 0;
      int equal = 0;
      for (History.Fire f : h.fires.values()) {
        if (f.proc >= 0) {
          for (History.Fire g : h.processed) {
            if (g != f && g.ev == f.ev) {
              equal++;
              int from = Math.max(f.ret, g.ret);
              int to = Math.min(ws.until(f), ws.until(g));
              if (from <= to) {
                Waits.fail("equal events " + f + " and " + g + " waited at the same time", h);
              }
            }
          }
          continue;
        }
        dropped++;
        if (!ws.possible(f, f.call, f.ret, 1, g -> g.proc >= 0 && g.ev == f.ev)) {
          Waits.fail("event " + f + " was dropped although no equal event was waiting", h);
        }
      }
      c.eq(0, w.sm.getEventQueueSize(), "events waiting at the end");
      c.labelIf(dropped > 0, "dropped");
      c.labelIf(equal > 0, "equal ones accepted");
      if (dropped > 0 || equal > 0) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(w.logCopy()) + co.s.steps());
      }
    }
  }

  private static void threads(Ctx c) throws Exception {
    int rounds = 150;
    int n = 8;
    int per = 4;
    for (int round = 0; round < rounds; round++) {
      int kinds = c.d.range(1, 3);
      ExecutorService ex = Executors.newSingleThreadExecutor(r -> {
        Thread t = new Thread(r);
        t.setDaemon(true);
        return t;
      });
      CountDownLatch hold = new CountDownLatch(1);
      CountDownLatch held = new CountDownLatch(1);
      AtomicInteger processed = new AtomicInteger();
      com.webotech.statemachine.NamedState<Object, Object> s =
          new com.webotech.statemachine.NamedState<>("S");
      s.appendEntryActions((e, m) -> {
        if (e.getName().equals("hold")) {
          held.countDown();
          try {
            hold.await();
          } catch (InterruptedException x) {
            throw new IllegalStateException(x);
          }
        } else if (e.getName().startsWith("e")) {
          processed.incrementAndGet();
        }
      });
      com.webotech.statemachine.GenericStateMachine<Object, Object> sm =
          new com.webotech.statemachine.GenericStateMachine.Builder<Object, Object>()
              .setEventProcessingStrategy(World.strategy(true,
                  new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
                      .withEventQueue(new ConcurrentLinkedQueue<>()))).build();
      com.webotech.statemachine.NamedStateEvent<Object> h =
          new com.webotech.statemachine.NamedStateEvent<>("hold");
      sm.initialSate(s).receives(h).itTransitionsTo(s);
      for (int i = 0; i < kinds; i++) {
        sm.when(s).receives(new com.webotech.statemachine.NamedStateEvent<>("e" + i))
            .itTransitionsTo(s);
      }
      sm.start();
      sm.fire(h);
      c.check(held.await(60, TimeUnit.SECONDS), "the first event is never processed");
      AtomicInteger ready = new AtomicInteger();
      List<Thread> ts = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        Thread t = new Thread(() -> {
          ready.incrementAndGet();
          while (ready.get() < n) {
            Thread.onSpinWait();
          }
          for (int j = 0; j < per; j++) {
            sm.fire(new com.webotech.statemachine.NamedStateEvent<>("e" + j % kinds));
          }
        });
        t.setDaemon(true);
        ts.add(t);
        t.start();
      }
      for (Thread t : ts) {
        t.join();
      }
      int waiting = sm.getEventQueueSize();
      hold.countDown();
      ex.shutdown();
      c.check(ex.awaitTermination(60, TimeUnit.SECONDS), "processing does not end");
      c.eq(kinds, waiting, "events waiting after fires of " + kinds
          + " distinct events with the processing held up");
      c.eq(kinds, processed.get(), "events processed");
    }
    c.nontrivial("run" + c.d.below(1 << 20));
  }
}
