package vp.props;

import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Queue;
import java.util.Set;
import java.util.concurrent.ConcurrentLinkedDeque;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** A bounded queue never exceeds its bound and rejects only when full. */
final class C08 {

  private C08() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 40000, 1_500_000, C08::seq).rule(
        "random bound (negative, small, large), queue, strategy, configuration and history; exact "
            + "traces and rejections compared with the model; non-trivial: the bound was reached "
            + "and later events accepted again, or the bound is negative and over 50 events waited"));
    l.add(new Part("coop", 9000, 300_000, C08::coop).inst().rule(
        "bound 1-3, 2-4 firing threads, actions firing too, processing held up or not, random "
            + "schedule; non-trivial: at least one rejection or the bound was reached"));
    l.add(new Part("threads", 6, 100, C08::threads).racy().workers(1).rule(
        "real threads firing at once into a machine whose processing is held up: exactly the bound "
            + "is accepted"));
    l.add(Marathon.part(Marathon.BOUND));
    return l;
  }

  static Queue<EventMachinePair<Object, Object>> queue(Ctx c) {
    switch (c.d.weighted(4, 2, 2, 1)) {
      case 0:
        return null;
      case 1:
        return new ConcurrentLinkedQueue<>();
      case 2:
        return safeQueue(c);
      default:
        return c.d.bool() ? new ArrayDeque<>() : new java.util.LinkedList<>();
    }
  }

  /** a thread-safe queue of a kind of its own */
  static Queue<EventMachinePair<Object, Object>> safeQueue(Ctx c) {
    switch (c.d.below(6)) {
      case 0:
        return new LinkedBlockingQueue<>();
      case 1:
        return new ConcurrentLinkedDeque<>();
      case 2:
        return new java.util.concurrent.LinkedBlockingDeque<>();
      case 3:
        return new java.util.concurrent.LinkedTransferQueue<>();
      case 4:
        return new java.util.concurrent.ArrayBlockingQueue<>(10000);
      default:
        return new Plain();
    }
  }

  /** a user's queue that is none of the JDK's */
  private static final class Plain
      extends java.util.AbstractQueue<EventMachinePair<Object, Object>> {

    private final Queue<EventMachinePair<Object, Object>> q = new ConcurrentLinkedQueue<>();

    @Override
    public java.util.Iterator<EventMachinePair<Object, Object>> iterator() {
      return q.iterator();
    }

    @Override
    public int size() {
      return q.size();
    }

    @Override
    public boolean offer(EventMachinePair<Object, Object> x) {
      return q.offer(x);
    }

    @Override
    public EventMachinePair<Object, Object> poll() {
      return q.poll();
    }

    @Override
    public EventMachinePair<Object, Object> peek() {
      return q.peek();
    }
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.ends = c.d.chance(1, 4);
    o.bare = o.imm = o.ends;
    Cfg cfg = Cfg.gen(c.d, o);
    int bound = c.d.chance(1, 5) ? c.d.pick(-1, -2, Integer.MIN_VALUE)
        : c.d.chance(1, 12) ? c.d.pick(20, 100, Integer.MAX_VALUE) : c.d.range(1, 5);
    boolean dup = c.d.chance(1, 4);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    EventProcessingStrategyFactory.Config<Object, Object> k = w.config(ex).withMaxQueueSize(bound);
    Queue<EventMachinePair<Object, Object>> q = queue(c);
    if (q != null) {
      k.withEventQueue(q);
    }
    w.build(World.strategy(dup, k), c.d);
    Model m = new Model(cfg);
    m.bound = bound;
    m.dropDup = dup;
    c.note("machine: " + cfg + " bound " + bound + (dup ? " drop-duplicate" : "") + " queue "
        + (q == null ? "default" : q.getClass().getSimpleName()));
    w.hook = r -> {
      if (bound > 0 && w.sm.getEventQueueSize() > bound) {
        throw new Violation(w.sm.getEventQueueSize() + " events wait although the bound is "
            + bound);
      }
    };
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    int n = c.d.size(1, 40, 300);
    StringBuilder hist = new StringBuilder("b" + bound);
    boolean again = false;
    for (int i = 0; i < n; i++) {
      if (c.d.chance(5, 6)) {
        int e = c.d.below(cfg.ev.size());
        Tok t = new Tok("t" + i, c.d.weighted(4, 2, 1));
        int rej = m.rejected;
        int size = m.queue.size();
        c.note("fire '" + cfg.ev.get(e) + "' " + t + " fuel " + t.fuel);
        hist.append(" f").append(e).append('.').append(t.fuel);
        exp.addAll(m.fire(e, t));
        w.fire(e, t);
        again |= rej > 0 && m.queue.size() > size;
      } else {
        c.note("pump");
        hist.append(" p");
        exp.addAll(m.drain());
        ex.drain();
      }
      Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "step " + i);
      c.eq(m.ended ? 0 : m.queue.size(), m.ended ? 0 : w.sm.getEventQueueSize(), "events waiting");
      if (q != null && bound > 0) {
        c.check(q.size() <= bound, "the queue holds " + q.size());
      }
    }
    ex.drain();
    exp.addAll(m.drain());
    Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "finally");
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
    c.check(ex.escaped.isEmpty(), "escaped: " + ex.escaped);
    for (Rec r : w.logCopy()) {
      if (r.is("EXC")) {
        c.check(r.obj instanceof IllegalStateException, "rejected with " + r.obj);
      }
    }
    c.labelIf(m.rejected > 0, "rejected");
    c.labelIf(bound < 0, "unbounded");
    if (bound > 0 && again || bound < 0 && m.maxWaiting > 50) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.odd = false;
    o.maxActs = 2;
    boolean dup = c.d.chance(1, 4);
    o.fires = !dup && c.d.chance(1, 3);
    o.ends = o.bare = o.imm = false;
    Cfg cfg = Cfg.gen(c.d, o);
    int bound = c.d.chance(1, 10) ? -1 : c.d.range(1, 3);
    int clients = c.d.range(2, 4);
    boolean own = c.d.chance(2, 3);
    boolean explicit = c.d.chance(1, 3);
    int gateAt = c.d.chance(2, 3) ? c.d.below(6) : -1;
    List<List<Object[]>> plan = new ArrayList<>();
    int k = 0;
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        ops.add(new Object[]{dup ? cfg.alias(e, k++) : e, new Tok("c" + i + "." + j,
            dup ? 0 : c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note("bound " + bound + (dup ? ", drop-duplicate" : "") + (own ? ", own executor"
        : ", default executor") + (gateAt >= 0 ? ", held up at callback " + gateAt : ""));
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    int[] left = {clients};
    int[] seen = {0};
    boolean[] on = {false};
    w.hook = r -> {
      if (!on[0]) {
        return;
      }
      int s = w.sm.getEventQueueSize();
      if (bound > 0 && s > bound) {
        throw new Violation(s + " events wait although the bound is " + bound);
      }
      if (History.isCallback(r) && !r.thread.getName().startsWith("client")
          && seen[0]++ == gateAt) {
        Sched.block(() -> left[0] == 0, "held up");
      }
    };
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(1, null) : null;
        EventProcessingStrategyFactory.Config<Object, Object> kf = w.config(ex[0]).withMaxQueueSize(
            bound);
        if (explicit) {
          kf.withEventQueue(new ConcurrentLinkedQueue<>());
        }
        w.build(World.strategy(dup, kf), c.d);
        C02.start(w);
      });
      on[0] = true;
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
            int s = w.sm.getEventQueueSize();
            if (bound > 0 && s > bound) {
              throw new Violation(s + " events wait although the bound is " + bound);
            }
          }
          left[0]--;
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0) + " at "
            + Coop.top(ex[0].escaped.get(0).error));
      }
      Set<Rec> rej = new HashSet<>();
      for (Rec r : w.logCopy()) {
        if (r.is("EXC")) {
          if (!(r.obj instanceof IllegalStateException)) {
            throw new Violation("reported " + r.obj + " at " + Coop.top((Throwable) r.obj));
          }
          rej.add(r);
        }
      }
      History h = new History(w);
      h.check(rej);
      Waits ws = new Waits(h);
      for (History.Fire f : h.fires.values()) {
        if (f.rejected > 0) {
          int at = h.log.indexOf(f.rejectRec);
          if (at < f.call || at > f.ret || f.rejectRec.thread != f.callRec.thread) {
            Waits.fail("the rejection of " + f + " is not reported by its fire call", h);
          }
          if (bound < 0) {
            Waits.fail("event " + f + " rejected although there is no bound", h);
          }
          if (!ws.possible(f, f.call, at, bound, g -> true)) {
            Waits.fail("event " + f + " was rejected although never " + bound + " events waited",
                h);
          }
        }
      }
      int most = ws.most();
      if (bound > 0 && most > bound) {
        Waits.fail(most + " accepted events waited although the bound is " + bound, h);
      }
      c.eq(0, w.sm.getEventQueueSize(), "events waiting at the end");
      c.labelIf(!rej.isEmpty(), "rejected");
      c.labelIf(most == bound, "bound reached");
      if (!rej.isEmpty() || most == bound) {
        c.nontrivial(cfg + plan.toString() + bound + Util.callbacks(w.logCopy()) + co.s.steps());
      }
    }
  }

  private static void threads(Ctx c) throws Exception {
    int rounds = 150;
    int n = 8;
    int per = 6;
    for (int round = 0; round < rounds; round++) {
      int bound = c.d.range(1, 12);
      ExecutorService ex = Executors.newSingleThreadExecutor(r -> {
        Thread t = new Thread(r);
        t.setDaemon(true);
        return t;
      });
      Cfg cfg = new Cfg();
      CountDownLatch hold = new CountDownLatch(1);
      CountDownLatch held = new CountDownLatch(1);
      AtomicInteger processed = new AtomicInteger();
      AtomicInteger rejected = new AtomicInteger();
      com.webotech.statemachine.NamedState<Object, Object> s =
          new com.webotech.statemachine.NamedState<>("S");
      s.appendEntryActions((e, m) -> {
        if (e.getName().equals("hold")) {
          held.countDown();
          try {
            hold.await();
          } catch (InterruptedException x) {
            throw new IllegalStateException(x);
          }
        } else if (e.getName().equals("e")) {
          processed.incrementAndGet();
        }
      });
      com.webotech.statemachine.GenericStateMachine<Object, Object> sm =
          new com.webotech.statemachine.GenericStateMachine.Builder<Object, Object>()
              .setEventProcessingStrategy(World.strategy(false,
                  new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
                      .withMaxQueueSize(bound).withUnexpectedFlowListener(
                          new com.webotech.statemachine.strategy.DefaultUnexpectedFlowListener<Object,
                              Object>() {
                            @Override
                            public void onExceptionDuringEventProcessing(
                                com.webotech.statemachine.api.StateEvent<Object> e,
                                com.webotech.statemachine.api.StateMachine<Object, Object> m,
                                Thread t, Exception x) {
                              rejected.incrementAndGet();
                            }
                          }))).build();
      com.webotech.statemachine.NamedStateEvent<Object> e =
          new com.webotech.statemachine.NamedStateEvent<>("e");
      com.webotech.statemachine.NamedStateEvent<Object> h =
          new com.webotech.statemachine.NamedStateEvent<>("hold");
      sm.initialSate(s).receives(e).itTransitionsTo(s);
      sm.when(s).receives(h).itTransitionsTo(s);
      sm.start();
      sm.fire(h);
      c.check(held.await(60, TimeUnit.SECONDS), "the first event is never processed");
      AtomicInteger ready = new AtomicInteger();
      List<Thread> ts = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        Thread t = new Thread(() -> {
          ready.incrementAndGet();
          while (ready.get() < n) {
            Thread.onSpinWait();
          }
          for (int j = 0; j < per; j++) {
            sm.fire(e);
          }
        });
        t.setDaemon(true);
        ts.add(t);
        t.start();
      }
      for (Thread t : ts) {
        t.join();
      }
      int waiting = sm.getEventQueueSize();
      hold.countDown();
      ex.shutdown();
      c.check(ex.awaitTermination(60, TimeUnit.SECONDS), "processing does not end");
      c.eq(bound, waiting, "events waiting after " + n * per + " fires with the processing held up");
      c.eq(bound, processed.get(), "events processed");
      c.eq(n * per - bound, rejected.get(), "events rejected");
    }
    c.nontrivial("run" + c.d.below(1 << 20));
  }
}
