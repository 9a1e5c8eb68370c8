package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.List;
import java.util.Queue;
import java.util.concurrent.ExecutorService;
import java.util.function.BiConsumer;
import vp.core.ManualExec;
import vp.core.Src;
import vp.core.Violation;

/** A machine under test with everything about it recorded. */
class World {

  static final class Boom extends RuntimeException {

    private static final long serialVersionUID = 1L;

    Boom(String m) {
      super(m);
    }
  }

  static final class Checked extends Exception {

    private static final long serialVersionUID = 1L;

    Checked(String m) {
      super(m);
    }
  }

  static final class Err extends Error {

    private static final long serialVersionUID = 1L;

    Err(String m) {
      super(m);
    }
  }

  /** kinds of throwables below EXC are exceptions, the others errors */
  static final int EXC = Thrown.EXC;
  static final int KINDS = Thrown.ALL;

  final Cfg c;
  final String tag;
  Object ctx;
  final List<State<Object, Object>> inst = new ArrayList<>();
  GenericStateMachine<Object, Object> sm;
  final List<Rec> log = new ArrayList<>();
  /** called in callbacks after recording; for gates and the like */
  java.util.function.Consumer<Rec> hook;
  boolean silent;

  final StateMachineListener<Object, Object> listener = newListener("");
  final UnexpectedFlowListener<Object, Object> flow = newFlow("");
  final BiConsumer<StateEvent<Object>, StateMachine<Object, Object>> unmapped = newUnmapped("");

  World(Cfg c, String tag) {
    this.c = c;
    this.tag = tag;
    this.ctx = new Object();
    inst.addAll(instances());
  }

  /** the states, with their actions */
  final List<State<Object, Object>> instances() {
    List<State<Object, Object>> l = new ArrayList<>();
    for (int s = 0; s < c.states(); s++) {
      State<Object, Object> x = c.blankState(s);
      l.add(x);
      appendAll(x, s);
    }
    return l;
  }

  private void appendAll(int s) {
    appendAll(inst.get(s), s);
  }

  private void appendAll(State<Object, Object> x, int s) {
    made.clear();
    appendAll(x, c.entry.get(s), true);
    made.clear();
    appendAll(x, c.exit.get(s), false);
    made.clear();
  }

  @SuppressWarnings("unchecked")
  final void append(State<Object, Object> x, Act a, boolean entry) {
    StateAction<Object, Object> sa = newAction(x, a, entry);
    if (entry) {
      x.appendEntryActions(sa);
    } else {
      x.appendExitActions(sa);
    }
  }

  /** several at once and one at a time, by the action ids */
  @SuppressWarnings("unchecked")
  private void appendAll(State<Object, Object> x, List<Act> as, boolean entry) {
    int i = 0;
    while (i < as.size()) {
      int k = Math.min(as.size() - i, 1 + as.get(i).id % 3);
      StateAction<Object, Object>[] arr = new StateAction[k + (as.get(i).id % 5 == 4 ? 1 : 0)];
      for (int j = 0; j < k; j++) {
        arr[j] = action(x, as.get(i + j), entry);
      }
      // a null among them is skipped
      if (entry) {
        x.appendEntryActions(x instanceof Cfg.OwnState ? trim(arr, k) : arr);
      } else {
        x.appendExitActions(x instanceof Cfg.OwnState ? trim(arr, k) : arr);
      }
      i += k;
    }
  }

  private static StateAction<Object, Object>[] trim(StateAction<Object, Object>[] a, int k) {
    return java.util.Arrays.copyOf(a, k);
  }

  static final class Rethrown extends RuntimeException {

    private static final long serialVersionUID = 1L;

    Rethrown(Throwable cause) {
      super(cause);
    }
  }

  /** the actions of the list being made */
  private final java.util.Map<Act, StateAction<Object, Object>> made =
      new java.util.IdentityHashMap<>();

  private StateAction<Object, Object> action(State<Object, Object> x, Act a, boolean entry) {
    StateAction<Object, Object> old = made.get(a);
    if (old == null) {
      made.put(a, old = newAction(x, a, entry));
    }
    return old;
  }

  private StateAction<Object, Object> newAction(State<Object, Object> x, Act a, boolean entry) {
    StateAction<Object, Object> act = bare(x, a, entry);
    if (a.guard == 0) {
      return act;
    }
    StateEvent<?>[] given = {null};
    Throwable[] last = {null};
    StateAction<Object, Object> g = (e, m) -> {
      cb(entry ? "ENTRY" : "EXIT", e, m, x.getName() + " a" + a.id);
      Object p = e == null ? null : e.getPayload();
      if (a.booms(p instanceof Tok ? (Tok) p : null)) {
        given[0] = e;
        last[0] = made(a.kind, "guarded");
        synchronized (thrown) {
          thrown.add(last[0]);
        }
        World.<RuntimeException>sneak(last[0]);
      }
      fires(e, m, a);
    };
    for (int i = 0; i < a.guard; i++) {
      int level = i;
      g = new HandleExceptionAction<>(g, (e, m, t) -> {
        mark("HANDLED", e.getName(), e.getPayload(), evStr(e) + " a" + a.id + " " + level + " "
            + t.getClass().getSimpleName() + (m != sm ? " WRONG-MACHINE" : "")
            + (e != given[0] ? " WRONG-EVENT" : "") + (t != last[0] ? " WRONG-EXCEPTION" : ""));
        if (level < a.guard - 1 || a.rethrows) {
          last[0] = new Rethrown(t);
          if (level == a.guard - 1) {
            synchronized (thrown) {
              thrown.add(last[0]);
            }
          }
          throw (Rethrown) last[0];
        }
      });
    }
    return g;
  }

  private StateAction<Object, Object> bare(State<Object, Object> x, Act a, boolean entry) {
    String owner = x.getName();
    return (e, m) -> {
      cb(entry ? "ENTRY" : "EXIT", e, m, owner + " a" + a.id);
      fires(e, m, a);
    };
  }

  private void fires(StateEvent<Object> e, StateMachine<Object, Object> m, Act a) {
    Object p = e == null ? null : e.getPayload();
    boolean init = e != null && p == null && Names.IMM.equals(e.getName());
    int fuel = p instanceof Tok ? ((Tok) p).fuel : init ? 1 : 0;
    if (fuel > 0) {
      for (int k = 0; k < a.fires.length; k++) {
        fire(a.fires[k], childTok(p instanceof Tok ? (Tok) p : null, a, k), m);
      }
    }
  }

  static Tok childTok(Tok parent, Act a, int k) {
    return new Tok((parent == null ? "init" : parent.id) + "/" + a.id + "." + k,
        parent == null ? 0 : parent.fuel - 1);
  }

  static String evStr(StateEvent<Object> e) {
    if (e == null) {
      return "null";
    }
    return "'" + e.getName() + "'" + payStr(e.getPayload());
  }

  static String payStr(Object p) {
    return p == null ? "" : p instanceof Tok ? p.toString() : "(" + p.getClass().getSimpleName()
        + "@" + System.identityHashCode(p) + ")";
  }

  static String stName(State<Object, Object> s) {
    return s == null ? "null" : s.getName();
  }

  /** records a callback made on behalf of event e */
  void cb(String kind, StateEvent<Object> e, StateMachine<Object, Object> m, String what) {
    int pre;
    synchronized (log) {
      pre = log.size();
    }
    String cur = stName(sm.getCurrentState());
    String t = kind + " " + evStr(e) + " " + what + " cur='" + cur + "'";
    if (m != null && m != sm) {
      t += " WRONG-MACHINE";
    } else if (m != null && m.getContext() != ctx) {
      t += " WRONG-CONTEXT";
    }
    Rec r = new Rec(kind, e == null ? null : e.getName(), e == null ? null : e.getPayload(), t);
    r.pre = pre;
    r.event = e;
    add(r);
    if (hook != null) {
      hook.accept(r);
    }
    dawdle();
    if (interrupts > 0 && manual.isPumping() && ++slowed % interrupts == 0) {
      // as a callback does that was interrupted; the executor clears it
      Thread.currentThread().interrupt();
    }
    if (r.pay instanceof Tok && !kind.equals("EXC") && !kind.equals("AFTER")
        && !kind.equals("BEFORE")) {
      Tok k = (Tok) r.pay;
      if (k.seen++ == k.throwAt) {
        Throwable x = made(k.throwKind, k.id);
        synchronized (thrown) {
          thrown.add(x);
          thrownBy.put(x, r);
        }
        World.<RuntimeException>sneak(x);
      }
    }
  }

  /** what was thrown by callbacks, in order */
  final List<Throwable> thrown = new ArrayList<>();
  /** the callback that threw it, unless a guarded action did */
  private final java.util.Map<Throwable, Rec> thrownBy = new java.util.IdentityHashMap<>();

  final Rec thrower(Throwable t) {
    synchronized (thrown) {
      return thrownBy.get(t);
    }
  }

  final boolean threw(Object t) {
    synchronized (thrown) {
      for (Throwable x : thrown) {
        if (x == t) {
          return true;
        }
      }
      return false;
    }
  }

  /** exceptions of a kind are one instance that is thrown again and again, if not null */
  java.util.Map<Integer, Throwable> again;
  /** the listeners are equal to each other */
  boolean alike;

  private Throwable made(int kind, String id) {
    if (again == null) {
      return throwable(kind, id);
    }
    synchronized (thrown) {
      return again.computeIfAbsent(kind, k -> throwable(k, id));
    }
  }

  /** a listener that is equal to others of this world if they are alike */
  private abstract class Listener implements StateMachineListener<Object, Object> {

    private World world() {
      return World.this;
    }

    @Override
    public boolean equals(Object o) {
      return this == o || alike && o instanceof Listener && ((Listener) o).world() == World.this;
    }

    @Override
    public int hashCode() {
      return alike ? 1 : System.identityHashCode(this);
    }
  }

  static Throwable throwable(int kind, String id) {
    return Thrown.make(kind, id);
  }

  static boolean isError(int kind) {
    return kind >= EXC;
  }

  @SuppressWarnings("unchecked")
  static <X extends Throwable> void sneak(Throwable t) throws X {
    throw (X) t;
  }

  final void add(Rec r) {
    if (!silent) {
      synchronized (log) {
        log.add(r);
      }
    }
  }

  final void mark(String kind, String ev, Object pay, String text) {
    add(new Rec(kind, ev, pay, kind + " " + text));
  }

  final List<Rec> logCopy() {
    synchronized (log) {
      return new ArrayList<>(log);
    }
  }

  final StateMachineListener<Object, Object> newListener(String which) {
    return new Listener() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        cb("BEGIN" + which, e, null, "'" + stName(f) + "'->'" + stName(t) + "'");
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        cb("END" + which, e, null, "'" + stName(f) + "'->'" + stName(t) + "'");
      }
    };
  }

  final UnexpectedFlowListener<Object, Object> newFlow(String which) {
    return new UnexpectedFlowListener<Object, Object>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> m, Thread t, Exception x) {
        Rec r = new Rec("EXC" + which, e.getName(), e.getPayload(),
            "EXC" + which + " " + evStr(e) + " " + x.getClass().getSimpleName() + (m != sm
                ? " WRONG-MACHINE" : "") + (t != Thread.currentThread() ? " WRONG-THREAD" : ""));
        r.obj = x;
        r.event = e;
        add(r);
        if (hook != null) {
          hook.accept(r);
        }
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
        cb("AFTER" + which, e, m, "");
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
        cb("BEFORE" + which, e, m, "");
      }
    };
  }

  final BiConsumer<StateEvent<Object>, StateMachine<Object, Object>> newUnmapped(String which) {
    return (e, m) -> cb("UNMAPPED" + which, e, m, "");
  }

  // ------------------------------------------------------------------ building

  /** the usual strategy: everything configured */
  final EventProcessingStrategyFactory.Config<Object, Object> config(ExecutorService ex) {
    EventProcessingStrategyFactory.Config<Object, Object> k =
        new EventProcessingStrategyFactory.Config<Object, Object>().withUnmappedEventHandler(
            unmapped).withUnexpectedFlowListener(flow);
    if (ex != null) {
      k.withExecutor(ex);
    }
    manual = ex instanceof ManualExec ? (ManualExec) ex : null;
    return k;
  }

  final World build(EventProcessingStrategy<Object, Object> strategy, Src d) {
    return build(new GenericStateMachine.Builder<Object, Object>().setContext(ctx)
        .setStateMachineListener(listener).setEventProcessingStrategy(strategy).build(), d);
  }

  private static final int[] SLOW = {0, 1, 20, 150, 1500, 10_000, 70_000, 900_000};

  /** how long some callbacks and firing threads sleep, in milliseconds of the scheduler's time */
  private int slow;
  private int slowEvery = 1;
  private int slowed;
  /** interrupts its own thread in every so-manieth callback, and when it fires from outside */
  private int interrupts;
  private ManualExec manual;

  private void dawdle() {
    if (slow > 0 && vp.core.Sched.current() != null && ++slowed % slowEvery == 0) {
      try {
        vp.core.Sched.sleep(slow);
      } catch (InterruptedException e) {
        throw new IllegalStateException("interrupted in a callback", e);
      }
    }
  }

  final World build(GenericStateMachine<Object, Object> machine, Src d) {
    sm = machine;
    if (d.chance(1, 6)) {
      slow = SLOW[d.below(SLOW.length)];
      slowEvery = d.range(1, 4);
    }
    if (manual != null && d.chance(1, 10)) {
      interrupts = d.range(1, 4);
    }
    if (manual != null && d.chance(1, 5)) {
      sameEvent = new java.util.HashMap<>();
    }
    if (d.chance(1, 6)) {
      // the states get their actions when all is configured
      for (int s = 0; s < c.states(); s++) {
        inst.set(s, c.blankState(s));
      }
      c.apply(sm, inst, d);
      for (int s = 0; s < c.states(); s++) {
        appendAll(s);
      }
    } else {
      c.apply(sm, inst, d);
    }
    return this;
  }

  /** fires one instance of each event again and again */
  final void sameEvents() {
    sameEvent = new java.util.HashMap<>();
  }

  /** every fire is of a new event instance */
  final void freshEvents() {
    sameEvent = null;
  }

  static EventProcessingStrategy<Object, Object> strategy(boolean dropDup,
      EventProcessingStrategyFactory.Config<Object, Object> k) {
    return dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(k)
        : EventProcessingStrategyFactory.createDefaultStrategy(k);
  }

  // ------------------------------------------------------------------ firing

  /** one instance of each event is fired again and again, if not null */
  private java.util.Map<Integer, StateEvent<Object>> sameEvent;

  final StateEvent<Object> event(int e, Tok t) {
    StateEvent<Object> x = sameEvent == null ? c.event(e)
        : sameEvent.computeIfAbsent(e, i -> c.event(i));
    if ((t != null || sameEvent != null) && x instanceof NamedStateEvent) {
      x.setPayload(t);
    }
    return x;
  }

  final void fire(int e, Tok t) {
    fire(e, t, sm);
  }

  final void fire(int e, Tok t, StateMachine<Object, Object> m) {
    fire(event(e, t), m);
  }

  final void fire(StateEvent<Object> x, StateMachine<Object, Object> m) {
    Object p = x.getPayload();
    String n = x.getName();
    dawdle();
    mark("FIRE", n, p, "'" + n + "'" + payStr(p));
    boolean interrupt = interrupts > 0 && !manual.isPumping();
    try {
      if (interrupt) {
        Thread.currentThread().interrupt();
      }
      m.fire(x);
    } catch (RuntimeException | Error t) {
      if (t instanceof vp.core.Sched.Abort || t instanceof Violation) {
        throw t;
      }
      throw new Violation("fire threw " + t, t);
    } finally {
      if (interrupt) {
        Thread.interrupted();
      }
    }
    mark("RET", n, p, "'" + n + "'" + payStr(p));
  }

  static void drainQueue(Queue<EventMachinePair<Object, Object>> q) {
    q.clear();
  }
}
