package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.api.Subsystem;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.lang.ref.WeakReference;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.atomic.AtomicInteger;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Violation;

/** What is done with is not retained. */
final class C23 {

  /** a last event or the like may be remembered */
  private static final int FEW = 4;

  private C23() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("events", 800, 20000, C23::events).workers(4).rule(
        "a machine, either strategy, bound or not, fired batches of 1-60, at times up to 500, events with payloads "
            + "before, during and after its life, some mapped, unmapped, failing, dropped or "
            + "rejected, pumped in between; once nothing waits at most 4 of the payloads and "
            + "exceptions are still reachable; non-trivial: at least 20 events"));
    l.add(new Part("listeners", 400, 10000, C23::listeners).workers(4).rule(
        "listeners added to and removed from a fan-out and set on a machine and replaced while it is "
            + "notified: at most 4 of those removed are still reachable; non-trivial: at least 10"));
    l.add(new Part("machines", 400, 10000, C23::machines).workers(4).rule(
        "batches of machines with their payloads and contexts, default or own executor, one builder "
            + "or Config or several, ended or not, dropped with nothing waiting: at most 4 (8 strategies, 12 "
            + "states, 12 payloads and contexts) are still reachable; non-trivial: at least 10 machines"));
    l.add(new Part("app", 40, 1000, C23::app).workers(4).racy().rule(
        "an application that is started, fails, is given errors and stopped again 4-20 times, real "
            + "threads: at most 4 of the exceptions are still reachable; non-trivial: at least 8 of "
            + "them"));
    return l;
  }

  // ------------------------------------------------------------------

  /** a payload, context or exception: big enough to matter, told apart by nothing but identity */
  static final class Big {

    final byte[] bytes = new byte[64];
  }

  private static final class Failed extends RuntimeException {

    private static final long serialVersionUID = 1L;
    final transient Big big;

    Failed(Big big) {
      super("failed", null, true, true);
      this.big = big;
    }
  }

  private static int alive(List<? extends WeakReference<?>> l) {
    int n = 0;
    for (WeakReference<?> w : l) {
      n += w.get() != null ? 1 : 0;
    }
    return n;
  }

  /** garbage is collected until few are left, for a while at least */
  static void gone(List<? extends WeakReference<?>> l, String what) throws InterruptedException {
    gone(l, FEW, what);
  }

  private static void gone(List<? extends WeakReference<?>> l, int few, String what)
      throws InterruptedException {
    for (int i = 0; i < 40; i++) {
      System.gc();
      if (alive(l) <= few) {
        return;
      }
      if (i > 3) {
        System.runFinalization();
        Thread.sleep(25);
      }
    }
    int n = alive(l);
    if (n > few) {
      throw new Violation(n + " of " + l.size() + " " + what + " are still retained");
    }
  }

  private static UnexpectedFlowListener<Object, Object> quiet(AtomicInteger calls) {
    return new UnexpectedFlowListener<Object, Object>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> m, Thread t, Exception x) {
        calls.incrementAndGet();
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
        calls.incrementAndGet();
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
        calls.incrementAndGet();
      }
    };
  }

  private static StateMachineListener<Object, Object> counting(AtomicInteger n) {
    return new StateMachineListener<Object, Object>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        n.incrementAndGet();
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        n.incrementAndGet();
      }
    };
  }

  private static final String[] NAMES = {"go", "back", "stay", "again", "unmapped", "end"};

  private static GenericStateMachine<Object, Object> configure(
      GenericStateMachine<Object, Object> sm, AtomicInteger ran) {
    return configure(sm, ran, false, new ArrayList<>());
  }

  private static GenericStateMachine<Object, Object> configure(
      GenericStateMachine<Object, Object> sm, AtomicInteger ran, boolean guarded,
      List<WeakReference<Object>> states) {
    NamedState<Object, Object> a = new NamedState<>("A");
    NamedState<Object, Object> b = new NamedState<>("B");
    for (NamedState<Object, Object> s : List.of(a, b)) {
      states.add(new WeakReference<>(s));
      s.appendEntryActions(guarded ? new HandleExceptionAction<>((e, m) -> act(e, ran),
          (e, m, x) -> ran.incrementAndGet()) : (e, m) -> act(e, ran));
      s.appendExitActions((e, m) -> act(e, ran));
    }
    sm.initialSate(a).receives(new NamedStateEvent<>("go")).itTransitionsTo(b).when(a)
        .receives(new NamedStateEvent<>("stay")).itDoesNotTransition().when(a)
        .receives(new NamedStateEvent<>("again")).itTransitionsTo(a).when(b)
        .receives(new NamedStateEvent<>("back")).itTransitionsTo(a).when(b)
        .receives(new NamedStateEvent<>("end")).itEnds();
    return sm;
  }

  private static void act(StateEvent<Object> e, AtomicInteger ran) {
    ran.incrementAndGet();
    if (e.getPayload() instanceof Failed) {
      throw (Failed) e.getPayload();
    }
  }

  private static void fire(StateMachine<Object, Object> sm, String name, boolean fails,
      List<WeakReference<Object>> refs) {
    Big b = new Big();
    refs.add(new WeakReference<>(b));
    NamedStateEvent<Object> e = new NamedStateEvent<>(name);
    e.setPayload(fails ? new Failed(b) : b);
    sm.fire(e);
  }

  // ------------------------------------------------------------------

  private static void events(Ctx c) throws Exception {
    boolean dup = c.d.chance(1, 3);
    int bound = c.d.chance(1, 3) ? c.d.range(1, 40) : -1;
    boolean defaults = c.d.chance(1, 4);
    int listening = c.d.below(4);
    boolean guarded = c.d.chance(1, 3);
    AtomicInteger calls = new AtomicInteger();
    AtomicInteger ran = new AtomicInteger();
    ManualExec ex = new ManualExec();
    EventProcessingStrategyFactory.Config<Object, Object> k =
        new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
            .withMaxQueueSize(bound);
    if (!defaults) {
      k.withUnexpectedFlowListener(quiet(calls))
          .withUnmappedEventHandler((e, m) -> act(e, calls));
    }
    GenericStateMachine<Object, Object> sm = configure(
        new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(
                listening == 0 ? counting(calls) : listening == 1
                    ? new LoggingStateMachineListener<>("m") : listening == 2
                    ? new MultiConsumerStateMachineListener<>(new LoggingStateMachineListener<>(),
                        counting(calls)) : null)
            .setEventProcessingStrategy(World.strategy(dup, k)).build(), ran, guarded, new ArrayList<>());
    c.note((dup ? "drop-duplicate" : "default") + " bound " + bound + (defaults
        ? ", default handlers" : "") + (guarded ? ", guarded" : "") + " listener " + listening);
    List<WeakReference<Object>> refs = new ArrayList<>();
    StringBuilder hist = new StringBuilder();
    int batches = c.d.range(1, 4);
    int startAt = c.d.weighted(3, 1);
    int stopAt = c.d.chance(1, 5) ? c.d.range(0, batches) : -1;
    boolean ends = c.d.chance(1, 4);
    for (int i = 0; i < batches; i++) {
      if (i == startAt) {
        sm.start();
        hist.append(" start");
      }
      int n = c.d.chance(1, 12) ? c.d.range(60, 500) : c.d.size(1, 20, 60);
      for (int j = 0; j < n; j++) {
        String name = NAMES[c.d.below(ends ? 6 : 5)] + (c.d.chance(1, 4) ? String.valueOf(j) : "");
        boolean fails = c.d.chance(1, 6);
        hist.append(' ').append(name).append(fails ? "!" : "");
        fire(sm, name, fails, refs);
      }
      if (i == stopAt) {
        sm.stop();
        hist.append(" stop");
      }
      ex.drain();
      hist.append(" pump");
      c.eq(0, sm.getEventQueueSize(), "events waiting after all were processed");
    }
    c.note(hist.toString());
    c.check(ex.escaped.isEmpty(), "escaped: " + ex.escaped);
    gone(refs, "payloads of events that do not wait any more");
    c.labelIf(ran.get() > 0, "actions ran");
    c.labelIf(sm.isEnded(), "ended");
    c.eq(0, sm.getEventQueueSize(), "events waiting");
    if (refs.size() >= 20) {
      c.nontrivial(dup + " " + bound + hist);
    }
  }

  // ------------------------------------------------------------------

  private static void listeners(Ctx c) throws Exception {
    AtomicInteger calls = new AtomicInteger();
    MultiConsumerStateMachineListener<Object, Object> f = new MultiConsumerStateMachineListener<>();
    ManualExec ex = new ManualExec();
    boolean multi = c.d.chance(2, 3);
    GenericStateMachine<Object, Object> sm = configure(
        new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(
            multi ? f : null).setEventProcessingStrategy(World.strategy(c.d.bool(),
            new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex))).build(),
        new AtomicInteger());
    sm.start();
    List<WeakReference<Object>> refs = new ArrayList<>();
    int n = c.d.size(2, 20, 60);
    StringBuilder hist = new StringBuilder(multi ? "fan-out" : "machine");
    List<StateMachineListener<Object, Object>> in = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      StateMachineListener<Object, Object> l = counting(calls);
      refs.add(new WeakReference<>(l));
      if (multi) {
        c.check(f.add(l), "add");
        in.add(l);
        hist.append(" add");
        while (!in.isEmpty() && c.d.bool()) {
          c.check(f.remove(in.remove(c.d.below(in.size()))), "remove");
          hist.append(" remove");
        }
      } else {
        sm.setStateMachineListener(l);
        hist.append(" set");
      }
      l = null;
      if (c.d.bool()) {
        sm.fire(new NamedStateEvent<>(NAMES[c.d.below(4)]));
        ex.drain();
        hist.append(" f");
      }
    }
    if (multi) {
      for (StateMachineListener<Object, Object> l : in) {
        c.check(f.remove(l), "remove");
      }
      in.clear();
    } else {
      sm.setStateMachineListener(null);
    }
    c.note(hist.toString());
    gone(refs, "listeners that were removed");
    calls.set(0);
    sm.fire(new NamedStateEvent<>("again"));
    ex.drain();
    c.eq(0, calls.get(), "calls of listeners that were removed");
    if (n >= 10) {
      c.nontrivial(hist.toString());
    }
  }

  // ------------------------------------------------------------------

  private static void machines(Ctx c) throws Exception {
    int n = c.d.size(2, 14, 40);
    boolean dup = c.d.chance(1, 3);
    int how = c.d.below(4);
    AtomicInteger calls = new AtomicInteger();
    AtomicInteger ran = new AtomicInteger();
    ManualExec ex = new ManualExec();
    EventProcessingStrategyFactory.Config<Object, Object> one = how == 2
        ? shared(null, calls, c.d.bool()) : shared(ex, calls, c.d.bool());
    GenericStateMachine.Builder<Object, Object> builder = new GenericStateMachine.Builder<>();
    boolean sameBuilder = c.d.bool();
    List<WeakReference<Object>> refs = new ArrayList<>();
    List<WeakReference<Object>> pays = new ArrayList<>();
    List<WeakReference<Object>> strategies = new ArrayList<>();
    List<WeakReference<Object>> states = new ArrayList<>();
    StringBuilder hist = new StringBuilder(dup + " " + how + " " + sameBuilder);
    GenericStateMachine<?, ?> keep = null;
    for (int i = 0; i < n; i++) {
      GenericStateMachine.Builder<Object, Object> b = sameBuilder ? builder
          : new GenericStateMachine.Builder<>();
      Big ctx = new Big();
      pays.add(new WeakReference<>(ctx));
      b.setContext(ctx);
      ctx = null;
      EventProcessingStrategy<Object, Object> strategy = how != 0 ? World.strategy(dup,
          how == 3 ? shared(ex, calls, c.d.bool()) : one) : dup
          ? EventProcessingStrategyFactory.createDropDuplicateStrategy()
          : EventProcessingStrategyFactory.createDefaultStrategy();
      b.setEventProcessingStrategy(strategy);
      strategies.add(new WeakReference<>(strategy));
      strategy = null;
      GenericStateMachine<Object, Object> sm = configure(b.build(), ran, false, states);
      refs.add(new WeakReference<>(sm));
      boolean start = c.d.chance(5, 6);
      if (start) {
        sm.start();
      }
      int k = c.d.below(6);
      for (int j = 0; j < k; j++) {
        fire(sm, NAMES[c.d.below(6)], c.d.chance(1, 8), pays);
      }
      hist.append(' ').append(start).append(k);
      ex.drain();
      if (how == 0 || how == 2) {
        settle(sm);
      }
      keep = c.d.chance(1, 4) ? sm : keep;
    }
    c.note(hist.toString());
    gone(refs, "machines nobody refers to any more");
    gone(strategies, 2 * FEW, "strategies of machines nobody refers to any more");
    gone(states, 3 * FEW, "states of machines nobody refers to any more");
    // the few machines left have a context and may remember their last event
    gone(pays, 3 * FEW, "contexts and payloads of machines nobody refers to any more");
    c.check(ex.escaped.isEmpty(), "escaped: " + ex.escaped);
    c.label("how " + how);
    c.labelIf(keep != null, "one still in use");
    if (n >= 10) {
      c.nontrivial(hist.toString());
    }
    java.lang.ref.Reference.reachabilityFence(keep);
    java.lang.ref.Reference.reachabilityFence(one);
    java.lang.ref.Reference.reachabilityFence(builder);
  }

  private static EventProcessingStrategyFactory.Config<Object, Object> shared(ManualExec ex,
      AtomicInteger calls, boolean defaults) {
    EventProcessingStrategyFactory.Config<Object, Object> k =
        new EventProcessingStrategyFactory.Config<>();
    if (!defaults) {
      k.withUnexpectedFlowListener(quiet(calls))
          .withUnmappedEventHandler((e, m) -> calls.incrementAndGet());
    }
    return ex == null ? k : k.withExecutor(ex);
  }

  /** until the machine's own thread has nothing to do for it; a time limit, but no failure */
  private static void settle(StateMachine<Object, Object> sm) throws InterruptedException {
    for (int i = 0; i < 2000 && sm.getEventQueueSize() > 0; i++) {
      Thread.sleep(i < 100 ? 0 : 5);
    }
  }

  // ------------------------------------------------------------------

  private static final class Fragile implements Subsystem<App.TCtx> {

    final List<WeakReference<Object>> refs;
    volatile boolean failsUp;
    volatile boolean failsDown;
    final AtomicInteger starts = new AtomicInteger();

    Fragile(List<WeakReference<Object>> refs) {
      this.refs = refs;
    }

    @Override
    public void start(App.TCtx c) {
      starts.incrementAndGet();
      fail(failsUp);
    }

    @Override
    public void stop(App.TCtx c) {
      fail(failsDown);
    }

    private void fail(boolean fails) {
      if (fails) {
        throw failure(refs);
      }
    }
  }

  private static Failed failure(List<WeakReference<Object>> refs) {
    Failed f = new Failed(new Big());
    synchronized (refs) {
      refs.add(new WeakReference<>(f));
    }
    return f;
  }

  private static void app(Ctx c) throws Exception {
    List<WeakReference<Object>> refs = new ArrayList<>();
    Fragile sub = new Fragile(refs);
    App.TCtx ctx = new App.TCtx("app");
    ctx.withSubsystems(List.of(sub));
    App.TApp app = new App.TApp(ctx, false);
    StringBuilder hist = new StringBuilder();
    int n = c.d.range(4, 20);
    Thread t = new Thread(app::start, "main");
    t.setDaemon(true);
    for (int i = 0; i < n; i++) {
      sub.failsUp = c.d.chance(1, 3);
      sub.failsDown = c.d.chance(1, 3);
      int errors = c.d.below(3);
      hist.append(sub.failsUp ? " U" : " u").append(sub.failsDown ? "D" : "d").append(errors);
      if (i == 0) {
        t.start();
      } else {
        app.start();
      }
      // it is in STARTING from the call of the subsystem on
      for (int j = 0; j < 60_000 && sub.starts.get() == i; j++) {
        Thread.sleep(j < 50 ? 0 : 1);
      }
      reaches(app, sub.failsUp ? App.STOPPED : App.STARTED);
      boolean down = sub.failsUp;
      for (int j = 0; j < errors; j++) {
        app.error(failure(refs));
        reaches(app, App.STOPPED);
        down = true;
      }
      if (!down) {
        app.stop();
        reaches(app, App.STOPPED);
      }
    }
    c.note(hist.toString());
    gone(refs, "exceptions an application was told of");
    app.stop();
    t.join(60_000);
    if (t.isAlive()) {
      throw new Violation("the application does not end");
    }
    if (refs.size() >= 8) {
      c.nontrivial(hist.toString());
    }
  }

  private static void reaches(App.TApp app, String state) throws InterruptedException {
    for (int i = 0; i < 60_000; i++) {
      State<App.TCtx, Void> s = app.getLifecycleState();
      if (s != null && s.getName().equals(state)) {
        return;
      }
      Thread.sleep(i < 50 ? 0 : 1);
    }
    throw new Violation("the application does not reach " + state);
  }
}
