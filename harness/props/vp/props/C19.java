package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.DefaultEventStrategy;
import com.webotech.statemachine.strategy.DropDuplicateEventStrategy;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.Set;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.ExecutorService;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Every configured collaborator is used, in every combination. */
final class C19 {

  private C19() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 60000, 1_800_000, C19::seq).rule(
        "random combination of configured and defaulted handler, flow listener, queue, bound, "
            + "context, strategy (by factory, by constructor, wrapped in one of the user's) and "
            + "listener, the latter replaced or removed between events and inside callbacks; exact "
            + "trace by collaborator, thread, queue content compared with the model; non-trivial: "
            + "the listener was replaced and a transition followed, or a default was used and "
            + "needed"));
    l.add(new Part("coop", 7000, 250_000, C19::coop).inst().rule(
        "as seq with configured or default executor and thread name, 1-3 firing threads, random "
            + "schedule: callbacks of events on the executor's threads, rejections and early or "
            + "late events on the firing thread; non-trivial: at least 2 events processed and 2 "
            + "kinds of callback"));
    l.add(Kept.machine());
    l.add(new Part("bare", 1500, 50_000, C19::bare).inst().rule(
        "machines with nothing configured: no strategy, or a factory's strategy without config; "
            + "1-3 firing threads, random schedule; non-trivial: at least 2 events processed"));
    l.add(new Part("executors", 800, 20_000, C19::executors).rule(
        "a real executor of one of ten kinds, either strategy, configured queue or not, 1-12 events "
            + "fired by the test's thread: all processed, all callbacks on threads of that executor; "
            + "non-trivial: at least 2 events"));
    l.add(new Part("replace", 4000, 150_000, C19::replace).inst().rule(
        "1-2 threads set and remove the listener while 1-2 others fire events, random schedule: each "
            + "notification goes to a listener that was set at some moment between the callbacks "
            + "around it (or to none if none was set then), nothing throws; non-trivial: a setting "
            + "overlapped the processing of an event"));
    return l;
  }

  /** a queue of the user's */
  static final class OwnQueue extends ConcurrentLinkedQueue<EventMachinePair<Object, Object>> {

    private static final long serialVersionUID = 1L;
    int offered;
    int polled;

    @Override
    public boolean offer(EventMachinePair<Object, Object> p) {
      synchronized (this) {
        offered++;
      }
      return super.offer(p);
    }

    @Override
    public boolean add(EventMachinePair<Object, Object> p) {
      return offer(p);
    }

    @Override
    public EventMachinePair<Object, Object> poll() {
      EventMachinePair<Object, Object> p = super.poll();
      synchronized (this) {
        polled += p == null ? 0 : 1;
      }
      return p;
    }
  }

  /** a strategy of the user's around one of the library's */
  static final class Around implements EventProcessingStrategy<Object, Object> {

    final EventProcessingStrategy<Object, Object> in;
    int calls;
    final Set<Object> machines = new HashSet<>();

    Around(EventProcessingStrategy<Object, Object> in) {
      this.in = in;
    }

    @Override
    public int getEventQueueSize() {
      return in.getEventQueueSize();
    }

    @Override
    public void processEvent(StateEvent<Object> e, GenericStateMachine<Object, Object> m) {
      synchronized (this) {
        calls++;
        machines.add(m);
      }
      in.processEvent(e, m);
    }

    @Override
    public void setStates(
        Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states) {
      in.setStates(states);
    }

    @Override
    public UnexpectedFlowListener<Object, Object> getUnexpectedFlowListener() {
      return in.getUnexpectedFlowListener();
    }
  }

  /** one combination */
  private static final class Combo {

    boolean unmapped;
    boolean flow;
    boolean queue;
    int bound = -1;
    boolean dup;
    int way;
    boolean context;
    java.util.Queue<EventMachinePair<Object, Object>> q;
    Around around;

    static Combo gen(Ctx c) {
      Combo k = new Combo();
      k.unmapped = c.d.bool();
      k.flow = c.d.bool();
      k.queue = c.d.bool();
      k.bound = c.d.chance(1, 3) ? c.d.range(1, 3) : c.d.pick(-1, -7);
      k.dup = c.d.chance(1, 3);
      k.way = c.d.weighted(3, 1, 1);
      k.context = c.d.chance(3, 4);
      if (k.way == 1) {
        // the constructor takes them all
        k.unmapped = k.flow = k.queue = true;
      }
      return k;
    }

    EventProcessingStrategy<Object, Object> strategy(World w, ExecutorService ex, String thread,
        boolean named, Ctx c) {
      q = queue ? c.d.chance(1, 3) ? C08.safeQueue(c) : new OwnQueue() : null;
      EventProcessingStrategy<Object, Object> s;
      if (way == 1) {
        DefaultEventStrategy<Object, Object> d = new DefaultEventStrategy<>(w.unmapped, ex, w.flow,
            bound, q);
        s = dup ? new DropDuplicateEventStrategy<>(d) : d;
      } else {
        EventProcessingStrategyFactory.Config<Object, Object> k =
            new EventProcessingStrategyFactory.Config<>();
        if (c.d.chance(1, 4)) {
          Decoy.before(k, c);
        }
        List<Runnable> with = new ArrayList<>();
        if (unmapped) {
          with.add(() -> k.withUnmappedEventHandler(w.unmapped));
        }
        if (flow) {
          with.add(() -> k.withUnexpectedFlowListener(w.flow));
        }
        if (queue) {
          with.add(() -> k.withEventQueue(q));
        }
        if (bound > 0 || c.d.bool()) {
          with.add(() -> k.withMaxQueueSize(bound));
        }
        if (ex != null) {
          with.add(() -> k.withExecutor(ex));
        }
        if (named) {
          with.add(() -> k.withThreadName(thread));
        }
        while (!with.isEmpty()) {
          with.remove(c.d.below(with.size())).run();
        }
        s = World.strategy(dup, k);
        if (c.d.chance(1, 3)) {
          Decoy.into(k);
        }
      }
      if (way == 2) {
        around = new Around(s);
        s = around;
      }
      return s;
    }

    @Override
    public String toString() {
      return (unmapped ? "handler " : "") + (flow ? "flow " : "") + (queue ? "queue " : "") + "bound "
          + bound + (dup ? " drop-duplicate" : "") + (context ? "" : " no context") + (way == 1
          ? " by constructor" : way == 2 ? " wrapped" : "");
    }
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    boolean faults = c.d.chance(1, 3);
    o.bare = o.imm = !faults;
    o.ends = c.d.chance(1, 2);
    o.unmappedW = 4;
    Cfg cfg = Cfg.gen(c.d, o);
    Combo k = Combo.gen(c);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    if (!k.context) {
      w.ctx = null;
    }
    // with exceptions every callback is needed to know when they are thrown
    List<StateMachineListener<Object, Object>> ls = new ArrayList<>();
    ls.add(w.listener);
    w.alike = c.d.chance(1, 4);
    ls.add(w.newListener("#1"));
    ls.add(w.newListener("#2"));
    if (!faults) {
      ls.add(null);
    }
    int first = c.d.below(ls.size());
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    if (k.context) {
      b.setContext(w.ctx);
    }
    if (ls.get(first) != null || c.d.bool()) {
      b.setStateMachineListener(ls.get(first));
    }
    EventProcessingStrategy<Object, Object> s = k.strategy(w, ex, "x", c.d.chance(1, 4), c);
    w.build(b.setEventProcessingStrategy(s).build(), c.d);
    c.same(w.ctx, w.sm.getContext(), "context");
    Model m = new Model(cfg);
    m.dropDup = k.dup;
    m.bound = k.bound;
    m.defaultUnmapped = !k.unmapped;
    c.note("machine: " + cfg);
    c.note(k.toString() + ", listener " + first + (w.alike ? ", listeners equal" : ""));
    // replacement inside the n-th action
    int[] acts = {0};
    int swapAt = c.d.chance(1, 2) ? c.d.below(12) : -1;
    int swapTo = c.d.below(ls.size());
    boolean early = false;
    w.hook = r -> {
      boolean processing = History.isCallback(r) && !r.is("EXC") || r.kind.startsWith("BEGIN")
          || r.kind.startsWith("END");
      if (processing && acts[0] >= 0 && !ex.isPumping() && !Names.IMM.equals(r.ev)) {
        throw new Violation(r + " on the thread that fired, not on the executor");
      }
      if ((r.is("ENTRY") || r.is("EXIT")) && acts[0]++ == swapAt) {
        w.sm.setStateMachineListener(ls.get(swapTo));
      }
    };
    List<String> exp = new ArrayList<>();
    int n = c.d.size(2, 25, 200);
    int startAt = c.d.below(3);
    int fired = 0;
    int sets = 0;
    StringBuilder hist = new StringBuilder();
    for (int i = 0; i < n; i++) {
      if (i == startAt) {
        hist.append(" start");
        w.sm.start();
        exp.addAll(m.start());
        early |= fired > 0;
      }
      int x = c.d.weighted(8, 4, 2);
      if (x == 0) {
        int e = c.d.below(cfg.ev.size());
        Tok t = faults && c.d.chance(1, 3) ? new Tok("t" + i, c.d.below(2), c.d.below(5),
            c.d.below(World.KINDS)) : new Tok("t" + i, c.d.weighted(4, 2, 1));
        c.note("fire '" + cfg.ev.get(e) + "' " + t);
        hist.append(" f").append(e);
        exp.addAll(m.fire(e, t));
        w.fire(e, t);
        fired++;
      } else if (x == 1) {
        hist.append(" p");
        exp.addAll(m.drain());
        ex.drain();
      } else {
        int to = c.d.below(ls.size());
        c.note("set listener " + to);
        hist.append(" s").append(to);
        w.sm.setStateMachineListener(ls.get(to));
        exp.add("SET " + to);
        sets++;
      }
      if (k.q != null) {
        c.eq(m.queue.size(), k.q.size(), "events in the configured queue");
      }
      c.eq(m.queue.size(), w.sm.getEventQueueSize(), "events waiting");
    }
    exp.addAll(m.drain());
    ex.drain();
    List<String> act = Util.callbacks(w.logCopy());
    Util.expectAll(c, act, 0, by(exp, k, first, swapAt, swapTo), "whole history");
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
    c.eq(m.ended, w.sm.isEnded(), "isEnded");
    c.same(w.ctx, w.sm.getContext(), "context");
    int rejections = 0;
    for (Rec r : w.logCopy()) {
      if (r.is("EXC") && !w.threw(r.obj)) {
        rejections++;
        c.check(r.obj instanceof IllegalStateException, "rejected with " + r.obj);
      }
    }
    if (k.flow) {
      c.eq(m.rejected, rejections, "rejections reported to the configured listener");
    }
    if (k.around != null) {
      c.check(k.around.machines.isEmpty() || k.around.machines.equals(Set.of(w.sm)),
          "the strategy is given other machines");
      int before = 0;
      int all = 0;
      for (Rec r : w.logCopy()) {
        all += r.is("FIRE") ? 1 : 0;
      }
      if (k.flow) {
        for (Rec r : w.logCopy()) {
          before += r.is("BEFORE") || r.is("AFTER") ? 1 : 0;
        }
        c.eq(all - before, k.around.calls, "events given to the configured strategy");
      }
    }
    for (Throwable t : ex.escaped) {
      c.check(t instanceof Error && w.threw(t), "escaped to the executor: " + t);
    }
    c.labelIf(sets > 0 && m.realTransitions > 0, "replaced");
    c.labelIf(swapAt >= 0 && acts[0] > swapAt, "replaced in an action");
    c.labelIf(!k.flow && (early || m.ended || m.rejected > 0), "default flow listener needed");
    if (m.realTransitions > 0 && (sets > 0 || acts[0] > swapAt && swapAt >= 0 || !k.flow
        || !k.unmapped)) {
      c.nontrivial(cfg + k.toString() + hist + first + swapAt);
    }
  }

  /** the model's trace as seen by the collaborators that are there */
  private static List<String> by(List<String> exp, Combo k, int first, int swapAt, int swapTo) {
    List<String> out = new ArrayList<>();
    int cur = first;
    int acts = 0;
    for (String x : exp) {
      String kind = x.substring(0, x.indexOf(' '));
      switch (kind) {
        case "SET":
          cur = x.charAt(4) - '0';
          break;
        case "BEGIN":
        case "END":
          if (cur < 3) {
            out.add(kind + (cur == 0 ? "" : "#" + cur) + x.substring(kind.length()));
          }
          break;
        case "ENTRY":
        case "EXIT":
          out.add(x);
          if (acts++ == swapAt) {
            cur = swapTo;
          }
          break;
        case "UNMAPPED":
          if (k.unmapped) {
            out.add(x);
          }
          break;
        default:
          if (k.flow) {
            out.add(x);
          }
      }
    }
    return out;
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.odd = false;
    o.maxActs = 2;
    o.unmappedW = 3;
    o.bare = o.imm = false;
    o.endW = c.d.chance(1, 3) ? 1 : 0;
    Combo k = Combo.gen(c);
    k.context = true;
    o.fires = !k.dup;
    Cfg cfg = Cfg.gen(c.d, o);
    int threads = c.d.weighted(4, 1, 1) + 1;
    boolean own = k.way == 1 || threads > 1 || c.d.chance(1, 3);
    String name = c.d.chance(1, 2) ? Names.odd(c.d) : null;
    boolean faults = k.flow && c.d.chance(1, 3);
    int clients = c.d.range(1, 3);
    boolean race = c.d.chance(1, 4);
    int num = 0;
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        String id = "c" + i + "." + j;
        ops.add(new Object[]{k.dup ? cfg.alias(e, num++) : e, faults && c.d.chance(1, 3)
            ? new Tok(id, 0, c.d.below(4), c.d.below(World.EXC)) : new Tok(id, k.dup ? 0 : c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note(k + (own ? " own executor with " + threads + " threads" : " default executor") + (
        name == null ? "" : " thread name '" + name + "'"));
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(k.strategy(w, ex[0], name, name != null, c), c.d);
        if (!race) {
          C02.start(w);
        }
      });
      if (race) {
        co.client("starter", () -> C02.start(w));
      }
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      co.go();
      List<Rec> log = w.logCopy();
      for (Rec r : log) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0));
      }
      // where things run
      Set<Thread> exec = new LinkedHashSet<>();
      Set<Rec> rej = new HashSet<>();
      Set<String> kinds = new LinkedHashSet<>();
      List<Rec> open = new ArrayList<>();
      int before = 0;
      for (Rec r : log) {
        kinds.add(r.kind);
        if (r.is("FIRE")) {
          open.add(r);
        } else if (r.is("RET")) {
          open.removeIf(f -> f.pay == r.pay);
        }
        boolean rejection = r.is("EXC") && !w.threw(r.obj);
        if (r.is("BEFORE") || r.is("AFTER") || rejection) {
          boolean mine = false;
          for (Rec f : open) {
            mine |= f.pay == r.pay && f.thread == r.thread;
          }
          c.check(mine, r + " is not called back by the fire call");
          if (rejection) {
            c.check(r.obj instanceof IllegalStateException, "rejected with " + r.obj);
            rej.add(r);
          }
        } else if (History.isCallback(r) && !Names.IMM.equals(r.ev)) {
          exec.add(r.thread);
        }
        if (r.is("BEFORE") || r.is("AFTER")) {
          before++;
        }
      }
      for (Thread t : exec) {
        if (own) {
          c.check(ex[0].threads.contains(t), "callbacks on " + t.getName()
              + ", not a thread of the configured executor");
        } else {
          C17.named(t, name == null ? "state-machine" : name);
        }
      }
      c.check(own || exec.size() <= 1, "callbacks on " + exec);
      if (k.flow && k.unmapped) {
        History h = new History(w);
        h.fifo = threads == 1;
        h.check(rej);
        if (k.q instanceof OwnQueue) {
          int acc = 0;
          for (History.Fire f : h.fires.values()) {
            acc += f.accepted() ? 1 : 0;
          }
          c.eq(acc, ((OwnQueue) k.q).offered, "events put into the configured queue");
        }
        if (k.around != null) {
          c.eq(h.fires.size() - before, k.around.calls, "events given to the strategy");
        }
        if (h.processed.size() > 1 && kinds.size() > 4) {
          c.nontrivial(cfg + plan.toString() + k + Util.callbacks(log) + co.s.steps());
        }
      } else {
        plain(c, w, log, k, race);
        if (exec.size() > 0 && kinds.size() > 4) {
          c.nontrivial(cfg + plan.toString() + k + Util.callbacks(log) + co.s.steps());
        }
      }
      c.eq(0, w.sm.getEventQueueSize(), "events waiting at the end");
      if (k.q instanceof OwnQueue) {
        c.eq(((OwnQueue) k.q).offered, ((OwnQueue) k.q).polled,
            "events taken out of the configured queue");
      }
      c.labelIf(!own, "default executor");
      c.labelIf(!k.flow, "default flow listener");
      c.labelIf(!k.unmapped, "default handler");
      c.labelIf(!rej.isEmpty(), "rejected");
    }
  }

  /** blocks of callbacks without some of the callbacks: each event that shows any is as modelled */
  private static void plain(Ctx c, World w, List<Rec> log, Combo k, boolean race) {
    Model m = new Model(w.c);
    m.defaultUnmapped = !k.unmapped;
    List<Rec> cb = new ArrayList<>();
    for (Rec r : log) {
      if (History.isCallback(r) && (w.threw(r.obj) || !r.is("EXC"))) {
        cb.add(r);
      }
    }
    int p = 0;
    for (String x : m.init()) {
      c.eq(x, p < cb.size() ? cb.get(p).text : "(nothing)", "initial transition");
      p++;
    }
    Set<Object> done = new HashSet<>();
    while (p < cb.size()) {
      Rec r = cb.get(p);
      c.check(r.pay instanceof Tok && done.add(r.pay), "processed twice: " + r);
      List<String> exp = m.process(w.c.ev.indexOf(r.ev), (Tok) r.pay);
      c.check(!exp.isEmpty(), r + " for an unmapped event");
      for (String x : exp) {
        c.eq(x, p < cb.size() ? cb.get(p).text : "(nothing)", "event " + r.pay);
        p++;
      }
    }
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "final state");
    c.eq(m.ended, w.sm.isEnded(), "final isEnded");
    if (m.ended || race || k.bound > 0) {
      return;
    }
    // every event was processed: those without callbacks are unmapped wherever they may have been
    for (Rec f : log) {
      if (f.is("FIRE") && !done.contains(f.pay)) {
        boolean may = false;
        for (int s = 0; s < w.c.states(); s++) {
          may |= w.c.to(s, w.c.ev.indexOf(f.ev)) == Cfg.UNMAPPED;
        }
        c.check(may && !k.unmapped, "event " + f.pay + " was lost");
      }
    }
  }

  /** hands each task to another executor */
  private static final class Handing extends java.util.concurrent.AbstractExecutorService {

    private final ExecutorService to;

    Handing(ExecutorService to) {
      this.to = to;
    }

    @Override
    public void shutdown() {
      to.shutdown();
    }

    @Override
    public List<Runnable> shutdownNow() {
      return to.shutdownNow();
    }

    @Override
    public boolean isShutdown() {
      return to.isShutdown();
    }

    @Override
    public boolean isTerminated() {
      return to.isTerminated();
    }

    @Override
    public boolean awaitTermination(long n, java.util.concurrent.TimeUnit u)
        throws InterruptedException {
      return to.awaitTermination(n, u);
    }

    @Override
    public void execute(Runnable r) {
      to.execute(r);
    }
  }

  private static ExecutorService real(int kind, java.util.concurrent.ThreadFactory f,
      Set<Thread> made) {
    switch (kind) {
      case 0:
        return java.util.concurrent.Executors.newSingleThreadExecutor(f);
      case 1:
        return java.util.concurrent.Executors.newFixedThreadPool(1, f);
      case 2:
        return java.util.concurrent.Executors.newFixedThreadPool(3, f);
      case 3:
        return java.util.concurrent.Executors.newCachedThreadPool(f);
      case 4:
        return java.util.concurrent.Executors.newScheduledThreadPool(1, f);
      case 5:
        return java.util.concurrent.Executors.newSingleThreadScheduledExecutor(f);
      case 6:
      case 7:
        return new java.util.concurrent.ForkJoinPool(kind - 5, pool -> {
          java.util.concurrent.ForkJoinWorkerThread t =
              java.util.concurrent.ForkJoinPool.defaultForkJoinWorkerThreadFactory.newThread(pool);
          made.add(t);
          return t;
        }, null, kind == 7);
      case 8:
        return java.util.concurrent.Executors.unconfigurableExecutorService(
            java.util.concurrent.Executors.newFixedThreadPool(1, f));
      default:
        return new Handing(java.util.concurrent.Executors.newFixedThreadPool(2, f));
    }
  }

  private static void executors(Ctx c) throws Exception {
    int kind = c.d.below(10);
    boolean dup = c.d.chance(1, 3);
    int n = c.d.range(1, 12);
    int actions = c.d.range(1, 3);
    boolean queue = c.d.chance(1, 3);
    Set<Thread> made = java.util.concurrent.ConcurrentHashMap.newKeySet();
    ExecutorService ex = real(kind, r -> {
      Thread t = new Thread(r, "exec");
      t.setDaemon(true);
      made.add(t);
      return t;
    }, made);
    c.note("executor " + ex.getClass().getName() + " kind " + kind + ", " + n + " events, "
        + (dup ? "drop-duplicate" : "default strategy"));
    try {
      EventProcessingStrategyFactory.Config<Object, Object> k =
          new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex);
      List<Object> wrong = java.util.Collections.synchronizedList(new ArrayList<>());
      java.util.concurrent.CountDownLatch done = new java.util.concurrent.CountDownLatch(n);
      k.withUnmappedEventHandler((e, m) -> {
        if (!made.contains(Thread.currentThread())) {
          wrong.add(e + " unmapped on " + Thread.currentThread());
        }
        done.countDown();
      });
      if (queue) {
        k.withEventQueue(C08.safeQueue(c));
      }
      NamedState<Object, Object> s = new NamedState<>("S");
      for (int i = 0; i < actions; i++) {
        boolean last = i == actions - 1;
        s.appendEntryActions((e, m) -> {
          if (e.getName().equals("_immediate_")) {
            return;
          }
          if (!made.contains(Thread.currentThread())) {
            wrong.add(e + " action on " + Thread.currentThread());
          }
          if (last) {
            done.countDown();
          }
        });
      }
      GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
          .setEventProcessingStrategy(World.strategy(dup, k)).build();
      StateMachine<Object, Object> d = sm.initialSate(s);
      for (int i = 0; i < n; i++) {
        if (i % 3 != 2) {
          d = (i == 0 ? d : d.when(s)).receives(new NamedStateEvent<>("e" + i)).itTransitionsTo(s);
        }
      }
      sm.start();
      for (int i = 0; i < n; i++) {
        sm.fire(new NamedStateEvent<>("e" + i));
      }
      if (!done.await(120, java.util.concurrent.TimeUnit.SECONDS)) {
        throw new Violation(done.getCount() + " of " + n + " events are not processed");
      }
      if (!wrong.isEmpty()) {
        throw new Violation("not on a thread of the configured executor: " + wrong);
      }
    } finally {
      ex.shutdownNow();
    }
    c.label("kind " + kind);
    if (n >= 2) {
      c.nontrivial(kind + " " + dup + n + actions + queue);
    }
  }

  private static void bare(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.maxActs = 2;
    o.odd = false;
    o.bare = o.imm = o.ends = false;
    o.unmappedW = 0;
    int kind = c.d.below(4);
    boolean dup = kind == 3;
    o.fires = !dup;
    Cfg cfg = Cfg.gen(c.d, o);
    boolean listener = c.d.bool();
    int clients = c.d.range(1, 3);
    List<List<Object[]>> plan = new ArrayList<>();
    int num = 0;
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        ops.add(new Object[]{dup ? cfg.alias(e, num++) : e,
            new Tok("c" + i + "." + j, dup ? 0 : c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg + " strategy " + kind);
    World w = new World(cfg, "m");
    w.ctx = null;
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
        if (kind > 0) {
          b.setEventProcessingStrategy(kind == 1 ? null : dup
              ? EventProcessingStrategyFactory.createDropDuplicateStrategy()
              : EventProcessingStrategyFactory.createDefaultStrategy());
        }
        if (listener) {
          b.setStateMachineListener(w.listener);
        }
        w.build(b.build(), c.d);
        C02.start(w);
      });
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      co.go();
      co.nothingUncaught();
      List<Rec> log = w.logCopy();
      int fires = 0;
      for (Rec r : log) {
        fires += r.is("FIRE") ? 1 : 0;
        if (History.isCallback(r) && !Names.IMM.equals(r.ev)) {
          C17.named(r.thread, "state-machine");
        }
        c.check(!r.text.contains("WRONG-"), r.text);
      }
      c.eq(0, w.sm.getEventQueueSize(), "events waiting at the end");
      c.same(null, w.sm.getContext(), "context");
      if (listener) {
        History h = new History(w);
        h.check(null);
        c.eq(h.m.curName(), World.stName(w.sm.getCurrentState()), "final state");
      }
      if (fires > 1) {
        c.nontrivial(cfg + plan.toString() + kind + Util.callbacks(log) + co.s.steps());
      }
    }
  }

  /** one setting of the listener; 0 is none */
  private static final class Swap {

    final int to;
    int call = Integer.MAX_VALUE;
    int ret = Integer.MAX_VALUE;

    Swap(int to) {
      this.to = to;
    }
  }

  /** a callback seen: of listener who, or of a state if -1 */
  private static final class Seen {

    final int who;
    final String text;
    final int at;

    Seen(int who, String text, int at) {
      this.who = who;
      this.text = text;
      this.at = at;
    }
  }

  /** the listener is replaced while events are processed */
  private static void replace(Ctx c) {
    int states = c.d.range(1, 3);
    int first = c.d.below(3);
    int swappers = c.d.weighted(3, 1) + 1;
    int clients = c.d.weighted(3, 1) + 1;
    boolean atStart = c.d.chance(1, 4);
    boolean dup = c.d.chance(1, 4);
    List<List<Swap>> swaps = new ArrayList<>();
    StringBuilder desc = new StringBuilder("states " + states + " listener " + first + " swaps");
    for (int i = 0; i < swappers; i++) {
      List<Swap> l = new ArrayList<>();
      int n = c.d.range(1, 4);
      desc.append(" |");
      for (int j = 0; j < n; j++) {
        l.add(new Swap(c.d.below(3)));
        desc.append(' ').append(l.get(j).to);
      }
      swaps.add(l);
    }
    // what each event does: 0.. a transition by so many states, -1 none
    List<List<Integer>> fires = new ArrayList<>();
    desc.append(" fires");
    for (int i = 0; i < clients; i++) {
      List<Integer> l = new ArrayList<>();
      int n = c.d.range(1, 3);
      desc.append(" |");
      for (int j = 0; j < n; j++) {
        l.add(c.d.weighted(1, 4) == 0 ? -1 : c.d.below(states));
        desc.append(' ').append(l.get(j));
      }
      fires.add(l);
    }
    c.note(desc + (dup ? " drop-duplicate" : "") + (atStart ? " swapping from the start" : ""));
    List<Seen> log = new ArrayList<>();
    List<String> exc = new ArrayList<>();
    int[] clock = {0};
    int[] total = {0};
    try (Coop co = new Coop(c)) {
      List<StateMachineListener<Object, Object>> ls = new ArrayList<>();
      ls.add(null);
      for (int i = 1; i < 3; i++) {
        int me = i;
        ls.add(new StateMachineListener<Object, Object>() {
          @Override
          public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
              State<Object, Object> t) {
            log.add(new Seen(me, "BEGIN " + f.getName() + e.getName() + t.getName(), clock[0]++));
            Sched.point();
          }

          @Override
          public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
              State<Object, Object> t) {
            log.add(new Seen(me, "END " + f.getName() + e.getName() + t.getName(), clock[0]++));
            Sched.point();
          }
        });
      }
      GenericStateMachine<?, ?>[] holder = {null};
      List<NamedState<Object, Object>> ss = new ArrayList<>();
      co.alone("setup", () -> {
        EventProcessingStrategyFactory.Config<Object, Object> cf =
            new EventProcessingStrategyFactory.Config<Object, Object>()
                .withExecutor(new CoopExec(1, null))
                .withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
                  @Override
                  public void onExceptionDuringEventProcessing(StateEvent<Object> e,
                      StateMachine<Object, Object> m, Thread t, Exception x) {
                    exc.add(e.getName() + " " + x + " at " + Coop.top(x));
                  }

                  @Override
                  public void onEventAfterMachineEnd(StateEvent<Object> e,
                      StateMachine<Object, Object> m) {
                    exc.add("late " + e.getName());
                  }

                  @Override
                  public void onEventBeforeMachineStart(StateEvent<Object> e,
                      StateMachine<Object, Object> m) {
                    exc.add("early " + e.getName());
                  }
                });
        GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
            .setStateMachineListener(ls.get(first)).setEventProcessingStrategy(
                dup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(cf)
                    : EventProcessingStrategyFactory.createDefaultStrategy(cf)).build();
        for (int i = 0; i < states; i++) {
          NamedState<Object, Object> s = new NamedState<>("S" + i);
          s.appendEntryActions((e, m) -> {
            log.add(new Seen(-1, "ENTRY " + s.getName() + e.getName(), clock[0]++));
            Sched.point();
          });
          s.appendExitActions((e, m) -> {
            log.add(new Seen(-1, "EXIT " + s.getName() + e.getName(), clock[0]++));
            Sched.point();
          });
          ss.add(s);
        }
        for (int i = 0; i < states; i++) {
          if (i == 0) {
            sm.initialSate(ss.get(0));
          } else {
            sm.when(ss.get(i));
          }
          boolean begun = true;
          for (int k = 0; k < clients; k++) {
            for (int j = 0; j < fires.get(k).size(); j++) {
              int step = fires.get(k).get(j);
              if (!begun) {
                sm.when(ss.get(i));
              }
              begun = false;
              sm.receives(new NamedStateEvent<>("e" + k + "." + j));
              if (step < 0) {
                sm.itDoesNotTransition();
              } else {
                sm.itTransitionsTo(ss.get((i + step) % states));
              }
            }
          }
        }
        holder[0] = sm;
        if (!atStart) {
          sm.start();
        }
      });
      @SuppressWarnings("unchecked")
      GenericStateMachine<Object, Object> sm = (GenericStateMachine<Object, Object>) holder[0];
      for (int i = 0; i < swappers; i++) {
        List<Swap> l = swaps.get(i);
        co.client("swapper" + i, () -> {
          for (Swap s : l) {
            s.call = clock[0]++;
            sm.setStateMachineListener(ls.get(s.to));
            s.ret = clock[0]++;
            Sched.point();
          }
        });
      }
      if (atStart) {
        co.client("starter", () -> {
          sm.start();
          for (int k = 0; k < clients; k++) {
            for (int j = 0; j < fires.get(k).size(); j++) {
              sm.fire(new NamedStateEvent<>("e" + k + "." + j));
              total[0]++;
            }
          }
        });
      } else {
        for (int i = 0; i < clients; i++) {
          int k = i;
          co.client("client" + i, () -> {
            for (int j = 0; j < fires.get(k).size(); j++) {
              sm.fire(new NamedStateEvent<>("e" + k + "." + j));
              total[0]++;
            }
          });
        }
      }
      co.go();
      for (Seen s : log) {
        c.note("@" + s.at + (s.who < 0 ? " " : " listener " + s.who + " ") + s.text);
      }
      for (List<Swap> l : swaps) {
        for (Swap s : l) {
          c.note("@" + s.call + "-" + s.ret + " listener set to " + s.to);
        }
      }
      c.check(exc.isEmpty(), "reported: " + exc);
      co.nothingUncaught();
      // the callbacks of the states tell the transitions, and these the notifications there were
      List<String> exp = new ArrayList<>();
      exp.add("BEGIN " + Names.UNINIT + Names.IMM + "S0");
      exp.add("ENTRY S0" + Names.IMM);
      exp.add("END " + Names.UNINIT + Names.IMM + "S0");
      int p = 0;
      int cur = 0;
      int processed = 0;
      int last = -1;
      Set<String> todo = new LinkedHashSet<>();
      for (int k = 0; k < clients; k++) {
        for (int j = 0; j < fires.get(k).size(); j++) {
          todo.add("e" + k + "." + j);
        }
      }
      boolean overlap = false;
  
      while (true) {
        for (String x : exp) {
          Seen s = p < log.size() ? log.get(p) : null;
          if (s != null && s.text.equals(x)) {
            if (s.who >= 0) {
              c.check(possible(swaps, first, s.who, last, s.at), "@" + s.at + " " + x
                  + " goes to listener " + s.who + ", which was not set then");
            }
            last = s.at;
            p++;
            continue;
          }
          c.check(!x.startsWith("E") || x.startsWith("END"), "expected " + x + " but was " + (
              s == null ? "nothing" : "@" + s.at + " " + s.text));
          int until = s == null ? clock[0] : s.at;
          c.check(possible(swaps, first, 0, last, until), x + " is not notified between @" + last
              + " and @" + until + ", though a listener was set all the time");
        }
        exp.clear();
        if (p == log.size()) {
          break;
        }
        // the next event that can be told
        Seen s = log.get(p);
        String ev = null;
        for (String e : todo) {
          if (s.text.contains(e) && (s.text.startsWith("BEGIN S" + cur + e)
              || s.text.startsWith("END S" + cur + e) || s.text.equals("EXIT S" + cur + e))) {
            ev = e;
          }
        }
        c.check(ev != null, "unexpected @" + s.at + " " + s.text);
        todo.remove(ev);
        processed++;
        int k = Integer.parseInt(ev.substring(1, ev.indexOf('.')));
        int step = fires.get(k).get(Integer.parseInt(ev.substring(ev.indexOf('.') + 1)));
        if (step < 0) {
          exp.add("BEGIN S" + cur + ev + Names.NOOP);
          exp.add("END S" + cur + ev + Names.NOOP);
        } else {
          int to = (cur + step) % states;
          exp.add("BEGIN S" + cur + ev + "S" + to);
          exp.add("EXIT S" + cur + ev);
          exp.add("ENTRY S" + to + ev);
          exp.add("END S" + cur + ev + "S" + to);
          cur = to;
        }
      }
      for (String e : todo) {
        int k = Integer.parseInt(e.substring(1, e.indexOf('.')));
        int step = fires.get(k).get(Integer.parseInt(e.substring(e.indexOf('.') + 1)));
        c.check(step < 0 && possible(swaps, first, 0, -1, clock[0]), "event " + e + " was lost");
      }
      c.eq("S" + cur, sm.getCurrentState().getName(), "final state");
      for (List<Swap> l : swaps) {
        for (Swap s : l) {
          overlap |= !log.isEmpty() && s.ret > log.get(0).at && s.call < last;
        }
      }
      if (overlap && processed > 0) {
        c.nontrivial(desc + String.valueOf(log.size()) + co.s.steps());
      }
    }
  }

  /** whether the listener can have been who at a moment between two points of time */
  private static boolean possible(List<List<Swap>> swaps, int first, int who, int from, int to) {
    // a setting holds from its call at the earliest, until another one that began after it returned
    // has returned at the latest
    int end = Integer.MAX_VALUE;
    for (List<Swap> l : swaps) {
      for (Swap o : l) {
        end = Math.min(end, o.ret);
      }
    }
    if (first == who && end > from) {
      return true;
    }
    for (List<Swap> l : swaps) {
      for (Swap s : l) {
        if (s.to != who || s.call > to) {
          continue;
        }
        end = Integer.MAX_VALUE;
        for (List<Swap> l2 : swaps) {
          for (Swap o : l2) {
            if (o.call > s.ret) {
              end = Math.min(end, o.ret);
            }
          }
        }
        if (end > from) {
          return true;
        }
      }
    }
    return false;
  }
}
