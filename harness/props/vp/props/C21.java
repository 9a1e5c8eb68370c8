package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Violation;

/** A guarded action hands every exception once to its handler. */
final class C21 {

  private C21() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("tree", 60000, 2_000_000, C21::tree).rule(
        "random nestings of guards around a random action that throws one of some 40 kinds of exception or 9 of error "
            + "now and then, or executes other guards again, with handlers that return or throw; "
            + "calls, arguments and results compared with an interpreter; non-trivial: a handler "
            + "was called and at least two executions"));
    l.add(new Part("machine", 30000, 900_000, C21::machine).rule(
        "random machine half of whose actions are guarded and throw; trace compared with the "
            + "model; non-trivial: a handler was called in a transition that completed"));
    l.add(new Part("coop", 5000, 150_000, C21::coop).inst().rule(
        "2-3 threads execute the same guards with different events, machines and outcomes at a "
            + "time, random schedule; non-trivial: a preemption and a handler called"));
    return l;
  }

  private static Throwable make(int kind) {
    return Thrown.make(kind, "k" + kind);
  }

  private static final int KINDS = World.KINDS;

  /** one execution's plan: what the action throws, and what each handler does */
  private static final class Plan {

    /** -1 returns */
    int kind;
    /** per handler from the inside: -1 returns, -2 rethrows, else throws that kind */
    int[] handler;
    /** the action executes the whole thing again with this plan, before it throws or returns */
    Plan again;
    StateEvent<Object> ev;
    StateMachine<Object, Object> sm;
    Throwable thrown;
    Throwable[] handlerThrown;

    @Override
    public String toString() {
      return "(" + kind + java.util.Arrays.toString(handler) + (again == null ? "" : again) + ")";
    }
  }

  private static Plan plan(Ctx c, int depth, int nest, List<StateMachine<Object, Object>> sms) {
    Plan p = new Plan();
    p.kind = c.d.chance(1, 3) ? -1 : c.d.below(KINDS);
    p.thrown = p.kind < 0 ? null : make(p.kind);
    p.handler = new int[depth];
    p.handlerThrown = new Throwable[depth];
    for (int i = 0; i < depth; i++) {
      p.handler[i] = c.d.chance(1, 2) ? -1 : c.d.chance(1, 3) ? -2 : c.d.below(KINDS);
      p.handlerThrown[i] = p.handler[i] < 0 ? null : make(p.handler[i]);
    }
    if (nest > 0 && c.d.chance(1, 4)) {
      p.again = plan(c, depth, nest - 1, sms);
    }
    p.ev = c.d.chance(1, 8) ? null : new NamedStateEvent<>(Names.odd(c.d));
    if (p.ev != null && c.d.bool()) {
      p.ev.setPayload("p");
    }
    p.sm = c.d.chance(1, 3) ? null : c.d.pick(sms);
    return p;
  }

  private static List<StateMachine<Object, Object>> machines() {
    List<StateMachine<Object, Object>> l = new ArrayList<>();
    for (int i = 0; i < 2; i++) {
      l.add(new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
          World.strategy(false, new com.webotech.statemachine.strategy.EventProcessingStrategyFactory
              .Config<Object, Object>().withExecutor(new ManualExec()))).build());
    }
    // running, in a state, and ended
    for (int i = 0; i < 2; i++) {
      GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>()
          .setEventProcessingStrategy(World.strategy(false,
              new com.webotech.statemachine.strategy.EventProcessingStrategyFactory
                  .Config<Object, Object>().withExecutor(new ManualExec()))).build();
      m.initialSate(new com.webotech.statemachine.NamedState<>("S")).receives(
          new NamedStateEvent<>("e")).itEnds();
      m.start();
      if (i > 0) {
        m.stop();
      }
      l.add(m);
    }
    return l;
  }

  /** the guards around an action whose plan is looked up by cur */
  private static StateAction<Object, Object> guards(int depth, ThreadLocal<List<Plan>> cur,
      ThreadLocal<List<Object>> log, StateAction<Object, Object>[] whole, Runnable yield) {
    StateAction<Object, Object> g = (e, m) -> {
      Plan p = top(cur);
      log.get().add("run");
      log.get().add(e);
      log.get().add(m);
      yield.run();
      if (p.again != null) {
        exec(p.again, cur, log, whole[0]);
      }
      if (p.thrown != null) {
        World.<RuntimeException>sneak(p.thrown);
      }
    };
    for (int i = 0; i < depth; i++) {
      int level = i;
      g = new HandleExceptionAction<>(g, (e, m, t) -> {
        Plan p = top(cur);
        log.get().add("handler" + level);
        log.get().add(e);
        log.get().add(m);
        log.get().add(t);
        yield.run();
        if (p.handler[level] == -2) {
          World.<RuntimeException>sneak(t);
        }
        if (p.handlerThrown[level] != null) {
          World.<RuntimeException>sneak(p.handlerThrown[level]);
        }
      });
    }
    whole[0] = g;
    return g;
  }

  private static Plan top(ThreadLocal<List<Plan>> cur) {
    List<Plan> l = cur.get();
    return l.get(l.size() - 1);
  }

  private static void exec(Plan p, ThreadLocal<List<Plan>> cur, ThreadLocal<List<Object>> log,
      StateAction<Object, Object> g) {
    cur.get().add(p);
    try {
      g.execute(p.ev, p.sm);
      log.get().add("ok");
    } catch (Throwable t) {
      if (t instanceof vp.core.Sched.Abort) {
        throw t;
      }
      log.get().add("threw");
      log.get().add(t);
    } finally {
      cur.get().remove(cur.get().size() - 1);
    }
  }

  /** the interpreter */
  private static int expect(Plan p, List<Object> out) {
    out.add("run");
    out.add(p.ev);
    out.add(p.sm);
    int handled = 0;
    if (p.again != null) {
      handled += expect(p.again, out);
    }
    Throwable t = p.thrown;
    for (int i = 0; i < p.handler.length && t instanceof Exception; i++) {
      out.add("handler" + i);
      out.add(p.ev);
      out.add(p.sm);
      out.add(t);
      handled++;
      t = p.handler[i] == -2 ? t : p.handlerThrown[i];
    }
    out.add(t == null ? "ok" : "threw");
    if (t != null) {
      out.add(t);
    }
    return handled;
  }

  private static void compare(Ctx c, List<Object> exp, List<Object> log, String what) {
    for (int i = 0; i < Math.max(exp.size(), log.size()); i++) {
      Object x = i < exp.size() ? exp.get(i) : "(nothing)";
      Object y = i < log.size() ? log.get(i) : "(nothing)";
      if (x instanceof String ? !x.equals(y) : x != y) {
        throw new Violation(what + ": step " + i + " expected " + str(x) + " but was " + str(y));
      }
    }
  }

  private static String str(Object o) {
    return o == null ? "null" : o instanceof String ? o.toString() : o.getClass().getSimpleName()
        + "@" + o;
  }

  @SuppressWarnings("unchecked")
  private static void tree(Ctx c) {
    int depth = c.d.weighted(6, 3, 2) + 1;
    List<StateMachine<Object, Object>> sms = machines();
    ThreadLocal<List<Plan>> cur = ThreadLocal.withInitial(ArrayList::new);
    ThreadLocal<List<Object>> log = ThreadLocal.withInitial(ArrayList::new);
    StateAction<Object, Object> g = guards(depth, cur, log, new StateAction[1], () -> { });
    int n = c.d.size(1, 6, 40);
    List<Object> exp = new ArrayList<>();
    StringBuilder key = new StringBuilder();
    int handled = 0;
    for (int i = 0; i < n; i++) {
      Plan p = plan(c, depth, 2, sms);
      if (i > 0 && c.d.chance(1, 6)) {
        // the very same throwable again
        p.thrown = p.thrown == null ? null : p.thrown;
      }
      c.note("execute " + p);
      key.append(p);
      boolean interrupted = c.d.chance(1, 10);
      if (interrupted) {
        Thread.currentThread().interrupt();
      }
      exec(p, cur, log, g);
      boolean still = Thread.interrupted();
      c.eq(interrupted, still, "interrupted status of the thread");
      handled += expect(p, exp);
      compare(c, exp, log.get(), "execution " + i);
      if (c.d.chance(1, 4)) {
        // the same plan, with the same throwables, once more
        exec(p, cur, log, g);
        handled += expect(p, exp);
        compare(c, exp, log.get(), "repeated execution " + i);
      }
    }
    if (handled > 0 && n > 1) {
      c.nontrivial(key.toString());
    }
  }

  private static void machine(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.guards = true;
    o.bare = o.imm = false;
    o.ends = c.d.chance(1, 3);
    Cfg cfg = Cfg.gen(c.d, o);
    for (Act a : cfg.entry.get(0)) {
      // a start whose entry throws is not specified
      a.rethrows = false;
      a.kind = Math.min(a.kind, 4);
    }
    boolean dup = c.d.chance(1, 4);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    w.build(World.strategy(dup, w.config(ex)), c.d);
    Model m = new Model(cfg);
    m.dropDup = dup;
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : ""));
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    int n = c.d.size(1, 20, 100);
    StringBuilder hist = new StringBuilder();
    for (int i = 0; i < n; i++) {
      if (c.d.chance(2, 3)) {
        int e = c.d.below(cfg.ev.size());
        Tok t = c.d.chance(1, 6) ? null : new Tok("t" + i, c.d.weighted(4, 2, 1));
        c.note("fire '" + cfg.ev.get(e) + "' " + t);
        hist.append(" f").append(e).append(t);
        w.fire(e, t);
        exp.addAll(m.fire(e, t));
      } else {
        c.note("pump");
        ex.drain();
        exp.addAll(m.drain());
        Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "after pump");
        c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
      }
    }
    ex.drain();
    exp.addAll(m.drain());
    Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "finally");
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
    c.eq(m.ended, w.sm.isEnded(), "isEnded");
    for (Throwable t : ex.escaped) {
      c.check(t instanceof Error && w.threw(t), "escaped to the executor: " + t);
    }
    Map<Object, Boolean> known = new IdentityHashMap<>();
    for (Throwable t : w.thrown) {
      known.put(t, true);
    }
    boolean handled = false;
    for (Rec r : w.logCopy()) {
      if (r.is("EXC")) {
        c.check(known.remove(r.obj) != null, "reported " + r.obj);
      }
      handled |= r.is("HANDLED");
      c.check(!r.text.contains("WRONG-"), r.text);
    }
    c.labelIf(handled, "handled");
    c.labelIf(!ex.escaped.isEmpty(), "error");
    if (handled && m.realTransitions > 0) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  @SuppressWarnings("unchecked")
  private static void coop(Ctx c) {
    int depth = c.d.weighted(4, 2) + 1;
    int clients = c.d.range(2, 3);
    List<List<Plan>> plans = new ArrayList<>();
    List<StateMachine<Object, Object>> sms = machines();
    for (int i = 0; i < clients; i++) {
      List<Plan> l = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        l.add(plan(c, depth, 1, sms));
      }
      plans.add(l);
      c.note("thread " + i + " executes " + l);
    }
    ThreadLocal<List<Plan>> cur = ThreadLocal.withInitial(ArrayList::new);
    ThreadLocal<List<Object>> log = ThreadLocal.withInitial(ArrayList::new);
    StateAction<Object, Object> g = guards(depth, cur, log, new StateAction[1],
        vp.core.Sched::point);
    try (Coop co = new Coop(c)) {
      List<List<Object>> logs = new ArrayList<>();
      for (int i = 0; i < clients; i++) {
        int me = i;
        logs.add(null);
        co.client("t" + i, () -> {
          for (Plan p : plans.get(me)) {
            exec(p, cur, log, g);
          }
          logs.set(me, log.get());
        });
      }
      co.go();
      int handled = 0;
      for (int i = 0; i < clients; i++) {
        List<Object> exp = new ArrayList<>();
        for (Plan p : plans.get(i)) {
          handled += expect(p, exp);
        }
        compare(c, exp, logs.get(i), "thread " + i);
      }
      if (handled > 0 && co.s.preemptions() > 0) {
        c.nontrivial(plans.toString() + co.s.steps());
      }
    }
  }
}
