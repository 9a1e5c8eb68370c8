package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.List;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.HangViolation;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Calls never wait for a running callback. */
final class C22 {

  private C22() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("machine", 35000, 1_500_000, C22::machine).inst().rule(
        "random machine, either strategy, bound or not, default or own executor, whose callbacks "
            + "(initial ones, reports on the firing thread too) are held up at random until 1-3 "
            + "clients have made all their calls: fire, stop, queries, set listener, add to or "
            + "remove from the fan-out, run another machine; random schedule; non-trivial: a call "
            + "was made and returned while a callback of the machine was held up"));
    l.add(new Part("flood", 500, 20000, C22::flood).inst().rule(
        "1-3 clients fire up to 2500 events each while the first callback is held up; non-trivial: "
            + "at least 100 events"));
    l.add(new Part("app", 9000, 300_000, C22::app).inst().rule(
        "an application whose subsystems or listener are held up until 1-3 clients have made all "
            + "their calls: stop, error, a further start, state, set listener; non-trivial: a call "
            + "was made and returned while it was held up"));
    l.add(new Part("fan-out", 20000, 600_000, C22::fanOut).inst().rule(
        "a fan-out notified by one thread, its listeners held up until 1-3 clients have added, "
            + "removed and notified; non-trivial: a call was made and returned meanwhile"));
    return l;
  }

  /** holds up callbacks until no client has anything left to do */
  private static final class Gate {

    final int clients;
    final boolean[] plan;
    int at;
    int done;
    int heldClients;
    int held;
    int overlaps;
    boolean on;

    Gate(Ctx c, int clients) {
      this.clients = clients;
      plan = new boolean[c.d.range(1, 30)];
      int p = c.d.range(1, 4);
      for (int i = 0; i < plan.length; i++) {
        plan[i] = c.d.chance(1, p);
      }
    }

    static boolean isClient() {
      return Thread.currentThread().getName().startsWith("client");
    }

    void pass() {
      if (!on || at >= plan.length || !plan[at++]) {
        return;
      }
      boolean cl = isClient();
      if (cl) {
        heldClients++;
      } else {
        held++;
      }
      Sched.block(() -> done + heldClients >= clients, "held up in a callback");
      if (cl) {
        heldClients--;
      } else {
        held--;
      }
    }

    void call(Runnable r) {
      boolean was = held > 0;
      r.run();
      if (was && held > 0) {
        overlaps++;
      }
    }
  }

  private static StateMachineListener<Object, Object> another(Gate g) {
    return new StateMachineListener<Object, Object>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        g.pass();
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        g.pass();
      }
    };
  }

  // ------------------------------------------------------------------

  private static void machine(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.maxActs = 2;
    o.endW = c.d.chance(1, 3) ? 1 : 0;
    o.bare = o.imm = false;
    boolean dup = c.d.chance(1, 3);
    o.fires = !dup;
    Cfg cfg = Cfg.gen(c.d, o);
    int bound = c.d.chance(1, 3) ? c.d.range(1, 3) : -1;
    int pool = c.d.chance(1, 3) ? c.d.range(1, 3) : 0;
    boolean fan = c.d.chance(1, 3);
    boolean race = c.d.chance(1, 3);
    int clients = c.d.range(1, 3);
    List<List<Object[]>> plan = new ArrayList<>();
    StringBuilder pl = new StringBuilder();
    int k = 0;
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      pl.append(" client").append(i).append(':');
      int n = c.d.range(1, 5);
      for (int j = 0; j < n; j++) {
        int op = c.d.weighted(10, 1, 3, 1, fan ? 3 : 0, 1);
        int e = c.d.below(cfg.baseEvents());
        ops.add(new Object[]{op, e, c.d.chance(1, 5) ? new Tok("t" + k, 0, c.d.below(4),
            c.d.below(World.EXC)) : new Tok("t" + k, dup ? 0 : c.d.below(2))});
        k++;
        pl.append(' ').append(new String[]{"fire" + e, "stop", "ask", "set", "add", "other"}[op]);
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + " bound " + bound + (pool > 0
        ? " executor of " + pool : "") + (fan ? " fan-out" : "") + (race ? " start races" : ""));
    c.note("calls:" + pl);
    Gate g = new Gate(c, clients);
    World w = new World(cfg, "m");
    w.hook = r -> g.pass();
    MultiConsumerStateMachineListener<Object, Object> f = new MultiConsumerStateMachineListener<>(
        w.listener);
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        EventProcessingStrategyFactory.Config<Object, Object> kf = w.config(
            pool > 0 ? new CoopExec(pool, null) : null).withMaxQueueSize(bound);
        w.build(new GenericStateMachine.Builder<Object, Object>().setContext(w.ctx)
            .setStateMachineListener(fan ? f : w.listener)
            .setEventProcessingStrategy(World.strategy(dup, kf)).build(), c.d);
        if (!race) {
          C02.start(w);
        }
      });
      g.on = true;
      if (race) {
        co.client("starter", () -> C02.start(w));
      }
      int[] others = {0};
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        int me = i;
        co.client("client" + i, () -> {
          StateMachineListener<Object, Object> mine = another(g);
          boolean[] in = {false};
          for (Object[] op : ops) {
            g.call(() -> {
              switch ((int) op[0]) {
                case 0:
                  w.fire((int) op[1], (Tok) op[2]);
                  break;
                case 1:
                  w.sm.stop();
                  break;
                case 2:
                  w.sm.isStarted();
                  w.sm.isEnded();
                  w.sm.getCurrentState();
                  w.sm.getEventQueueSize();
                  c.same(w.ctx, w.sm.getContext(), "context");
                  String.valueOf(w.sm);
                  break;
                case 3:
                  w.sm.setStateMachineListener((int) op[1] == 0 ? null : (int) op[1] == 1 ? mine
                      : w.listener);
                  break;
                case 4:
                  c.eq(true, in[0] ? f.remove(mine) : f.add(mine), in[0] ? "removed" : "added");
                  in[0] = !in[0];
                  break;
                default:
                  other(dup, "other" + me + "." + others[0]++);
              }
            });
          }
          g.done++;
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      co.nothingUncaught();
      c.eq(0, w.sm.getEventQueueSize(), "events waiting at the end");
      c.labelIf(w.sm.isEnded(), "ended");
      c.labelIf(others[0] > 0, "another machine");
      if (g.overlaps > 0) {
        c.nontrivial(cfg + pl.toString() + Util.callbacks(w.logCopy()) + co.s.steps());
      }
    }
  }

  private static void flood(Ctx c) {
    int clients = c.d.range(1, 3);
    boolean dup = c.d.chance(1, 3);
    int most = dup ? 150 : 2500 / clients;
    int n = c.d.chance(1, 3) ? c.d.range(1, most) : c.d.range(1, Math.min(most, 400));
    int bound = c.d.chance(1, 3) ? c.d.range(1, n) : -1;
    boolean own = c.d.bool();
    int[] ran = {0};
    int[] rejected = {0};
    int[] done = {0};
    c.note(clients + " clients fire " + n + " events each" + (dup ? ", drop-duplicate" : "")
        + " bound " + bound);
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((e, m) -> {
      if (ran[0]++ == 0) {
        Sched.block(() -> done[0] == clients, "held up in a callback");
      }
    });
    try (Coop co = new Coop(c, 5_000_000)) {
      GenericStateMachine<?, ?>[] sm = {null};
      co.alone("setup", () -> {
        EventProcessingStrategyFactory.Config<Object, Object> k =
            new EventProcessingStrategyFactory.Config<Object, Object>().withMaxQueueSize(bound)
                .withUnmappedEventHandler((e, m) -> ran[0]++).withUnexpectedFlowListener(
                    counting(rejected));
        if (own) {
          k.withExecutor(new CoopExec(1, null));
        }
        GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>()
            .setEventProcessingStrategy(World.strategy(dup, k)).build();
        m.initialSate(s).receives(new NamedStateEvent<>("go")).itTransitionsTo(s);
        m.start();
        m.fire(new NamedStateEvent<>("go"));
        sm[0] = m;
        for (int i = 0; i < clients; i++) {
          int me = i;
          co.s.client("client" + i, () -> {
            for (int j = 0; j < n; j++) {
              m.fire(new NamedStateEvent<>(dup ? "e" + me + "." + j : "go"));
            }
            done[0]++;
          });
        }
      });
      co.nothingUncaught();
      c.eq(1 + clients * n, ran[0] + rejected[0], "events processed or rejected");
      c.eq(0, sm[0].getEventQueueSize(), "events waiting at the end");
      c.labelIf(rejected[0] > 0, "rejected");
      if (clients * n >= 100) {
        c.nontrivial(clients + " " + n + " " + bound + dup + own + co.s.steps());
      }
    }
  }

  private static UnexpectedFlowListener<Object, Object> counting(int[] n) {
    return new UnexpectedFlowListener<Object, Object>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> m, Thread t, Exception x) {
        n[0]++;
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e,
          StateMachine<Object, Object> m) {
      }
    };
  }

  /** a machine of its own is configured, started and processes an event */
  private static void other(boolean dup, String name) {
    boolean[] done = {false};
    NamedState<Object, Object> s = new NamedState<>(name);
    s.appendExitActions((e, m) -> done[0] = true);
    GenericStateMachine<Object, Object> x = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(dup
            ? EventProcessingStrategyFactory.createDropDuplicateStrategy(
                new EventProcessingStrategyFactory.Config<>())
            : EventProcessingStrategyFactory.createDefaultStrategy(
                new EventProcessingStrategyFactory.Config<>())).build();
    x.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
    x.start();
    x.fire(new NamedStateEvent<>("e"));
    Sched.block(() -> done[0], "waits for another machine's event");
  }

  // ------------------------------------------------------------------

  private static void app(Ctx c) {
    int subs = c.d.below(4);
    List<App.Outcome> os = new ArrayList<>();
    int calls = c.d.range(0, 8 * subs);
    for (int i = 0; i < calls; i++) {
      os.add(new App.Outcome(' ', c.d.chance(1, 2), c.d.chance(1, 10) ? c.d.below(World.EXC) : -1));
    }
    App a = new App("A", c.d.bool(), subs, os);

    boolean listen = c.d.chance(1, 2);
    int clients = c.d.range(1, 3);
    int before = c.d.below(4);
    c.note(a.toString());
    Gate g = new Gate(c, clients);
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        a.build(c);
        if (listen) {
          a.app.setStateMachineListener(appListener(g));
        }
      });
      co.task("main", () -> a.logged('s'));
      co.settle();
      // to somewhere in its life, gates opening by themselves
      StringBuilder hist = new StringBuilder();
      for (int i = 0; i < before; i++) {
        char op = c.d.pick('x', 'x', 'e', 's');
        hist.append(op);
        a.released = 1 << 20;
        co.task("before" + i, () -> a.logged(op));
        co.settle();
      }
      a.released = 0;
      g.on = true;
      hist.append(" |");
      List<Sched.Task> ts = new ArrayList<>();
      for (int i = 0; i < clients; i++) {
        int n = c.d.range(1, 4);
        StringBuilder ops = new StringBuilder();
        for (int j = 0; j < n; j++) {
          ops.append(c.d.pick('x', 'x', 'e', 's', '?', 'l'));
        }
        hist.append(' ').append(ops);
        ts.add(co.task("client" + i, () -> {
          for (char op : ops.toString().toCharArray()) {
            boolean was = g.held > 0 || a.atGate;
            if (op == '?') {
              a.app.getLifecycleState();
              c.same(a.ctx, a.app.getAppContext(), "context");
            } else if (op == 'l') {
              a.app.setStateMachineListener(listen ? appListener(g) : null);
            } else {
              String r = a.logged(op);
              c.check(r.equals("ok") || r.equals("ISE"), "call " + op + ": " + r);
            }
            if (was && (g.held > 0 || a.atGate)) {
              g.overlaps++;
            }
          }
          g.done++;
        }));
      }
      c.note(hist.toString());
      co.settle();
      for (Sched.Task t : ts) {
        if (!co.s.isDone(t)) {
          throw new HangViolation(t + " waits while " + (a.atGate ? "a subsystem"
              : "a callback or nothing") + " is held up, application in " + a.state() + ": "
              + co.s.endDetail());
        }
      }
      a.released = 1 << 20;
      co.settle();
      if (!co.s.uncaught.isEmpty()) {
        throw new Violation("uncaught: " + co.s.uncaught.get(0));
      }
      String st = a.state();
      c.check(st.equals(App.STARTED) || st.equals(App.STOPPED) || st.equals(Names.END)
          || st.equals(App.UNINIT), "comes to rest in " + st);
      if (g.overlaps > 0) {
        c.nontrivial(a + hist.toString() + co.s.steps());
      }
    }
  }

  private static StateMachineListener<App.TCtx, Void> appListener(Gate g) {
    return new StateMachineListener<App.TCtx, Void>() {
      @Override
      public void onStateChangeBegin(State<App.TCtx, Void> f, StateEvent<Void> e,
          State<App.TCtx, Void> t) {
        g.pass();
      }

      @Override
      public void onStateChangeEnd(State<App.TCtx, Void> f, StateEvent<Void> e,
          State<App.TCtx, Void> t) {
        g.pass();
      }
    };
  }

  // ------------------------------------------------------------------

  private static void fanOut(Ctx c) {
    int clients = c.d.range(1, 3);
    Gate g = new Gate(c, clients);
    int n0 = c.d.range(1, 4);
    MultiConsumerStateMachineListener<Object, Object> f = new MultiConsumerStateMachineListener<>();
    List<StateMachineListener<Object, Object>> ls = new ArrayList<>();
    for (int i = 0; i < n0 + 3; i++) {
      ls.add(held(g));
    }
    NamedState<Object, Object> s = new NamedState<>("S");
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    try (Coop co = new Coop(c)) {
      for (int i = 0; i < n0; i++) {
        f.add(ls.get(i));
      }
      g.on = true;
      int rounds = c.d.range(1, 3);
      co.client("notifier", () -> {
        for (int i = 0; i < rounds; i++) {
          f.onStateChangeBegin(s, e, s);
          f.onStateChangeEnd(s, e, s);
        }
      });
      StringBuilder hist = new StringBuilder(n0 + " " + rounds);
      for (int i = 0; i < clients; i++) {
        int n = c.d.range(1, 5);
        int[][] ops = new int[n][];
        hist.append(" client").append(i);
        for (int j = 0; j < n; j++) {
          ops[j] = new int[]{c.d.below(4), c.d.below(ls.size())};
          hist.append(' ').append("arbe".charAt(ops[j][0])).append(ops[j][1]);
        }
        co.client("client" + i, () -> {
          for (int[] op : ops) {
            g.call(() -> {
              if (op[0] == 0) {
                f.add(ls.get(op[1]));
              } else if (op[0] == 1) {
                f.remove(ls.get(op[1]));
              } else if (op[0] == 2) {
                f.onStateChangeBegin(s, e, s);
              } else {
                f.onStateChangeEnd(s, e, s);
              }
            });
          }
          g.done++;
        });
      }
      c.note(hist.toString());
      co.go();
      if (g.overlaps > 0) {
        c.nontrivial(hist + " " + co.s.steps());
      }
    }
  }

  /** held up only when the notifying thread calls */
  private static StateMachineListener<Object, Object> held(Gate g) {
    return new StateMachineListener<Object, Object>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        if (!Gate.isClient()) {
          g.pass();
        }
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        if (!Gate.isClient()) {
          g.pass();
        }
      }
    };
  }
}
