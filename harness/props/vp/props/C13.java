package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.List;
import vp.core.Ctx;
import vp.core.HangViolation;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** The application lifecycle. */
final class C13 {

  private C13() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("table", 20000, 600_000, C13::table).rule(
        "a machine configured by the lifecycle utility, random lifecycle events with payloads and "
            + "delays, against the documented table; non-trivial: at least 5 transitions"));
    l.add(new Part("seq", 9000, 300_000, c -> seq(c, true)).inst().rule(
        "an application (either mode, 0-3, at times 40, subsystems, failing, slow or calling back) "
            + "driven by a random sequence of start, stop and error calls, one at a time; exact "
            + "trace, call results and state against the model after each; non-trivial: at least "
            + "two cycles or a failing subsystem"));
    l.add(new Part("coop", 5000, 150_000, c -> coop(c, true)).inst().rule(
        "start, stop and error calls by 2-4 threads at any time, random schedule; the history must "
            + "follow the table and every call's result must suit a state the application was in "
            + "during the call; non-trivial: at least 4 transitions and 2 driving threads"));
    return l;
  }

  @SuppressWarnings({"unchecked", "rawtypes"})
  private static void table(Ctx c) {
    ManualExec ex = new ManualExec();
    List<String> log = new ArrayList<>();
    List<String> exp = new ArrayList<>();
    GenericStateMachine<Object, Void> sm = new GenericStateMachine.Builder<Object, Void>()
        .setStateMachineListener(new StateMachineListener<Object, Void>() {
          @Override
          public void onStateChangeBegin(State<Object, Void> f, StateEvent<Void> e,
              State<Object, Void> t) {
            log.add("BEGIN " + f.getName() + " + " + e.getName() + " = " + t.getName());
          }

          @Override
          public void onStateChangeEnd(State<Object, Void> f, StateEvent<Void> e,
              State<Object, Void> t) {
            log.add("END " + f.getName() + " + " + e.getName() + " = " + t.getName());
          }
        }).setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Void>().withExecutor(ex)
                .withUnmappedEventHandler((e, m) -> log.add("UNMAPPED " + e.getName())))).build();
    String[] names = {App.UNINIT, App.STARTING, App.STARTED, App.STOPPING, App.STOPPED};
    int[] acts = new int[5];
    State<Object, Void>[] st = new State[5];
    for (int i = 0; i < 5; i++) {
      acts[i] = c.d.below(4);
      StateAction<Object, Void>[] as = new StateAction[acts[i]];
      for (int j = 0; j < acts[i]; j++) {
        String t = "ENTRY " + names[i] + " " + j;
        as[j] = (e, m) -> log.add(t);
      }
      st[i] = i == 0 ? LifecycleStateMachineUtil.newUnitialisedState(as)
          : i == 1 ? LifecycleStateMachineUtil.newStartingState(as)
              : i == 2 ? LifecycleStateMachineUtil.newStartedState(as)
                  : i == 3 ? LifecycleStateMachineUtil.newStoppingState(as)
                      : LifecycleStateMachineUtil.newStoppedState(as);
      c.eq(names[i], st[i].getName(), "name of the state");
    }
    LifecycleStateMachineUtil.configureAppStateMachine(sm, st[0], st[1], st[2], st[3], st[4]);
    sm.start();
    exp.add("BEGIN " + Names.UNINIT + " + " + Names.IMM + " = " + App.UNINIT);
    for (int j = 0; j < acts[0]; j++) {
      exp.add("ENTRY " + App.UNINIT + " " + j);
    }
    exp.add("END " + Names.UNINIT + " + " + Names.IMM + " = " + App.UNINIT);
    String cur = App.UNINIT;
    String[] evs = {App.START, App.COMPLETE, App.STOP, App.ERROR};
    List<String> q = new ArrayList<>();
    StringBuilder hist = new StringBuilder();
    int moves = 0;
    int n = c.d.size(1, 25, 120);
    for (int i = 0; i < n && !cur.equals(Names.END); i++) {
      // mostly what the state expects, so that all of the table is seen
      String ev = c.d.pick(evs);
      if (c.d.bool()) {
        for (int j = 0; j < 4 && App.next(cur, ev) == null; j++) {
          ev = evs[j];
        }
      }
      if (ev.equals(App.STOP) && cur.equals(App.STOPPED) && c.d.chance(2, 3)) {
        ev = App.START;
      }
      c.note("fire " + ev);
      hist.append(' ').append(ev);
      sm.fire(ev.equals(App.START) ? LifecycleStateMachineUtil.evtStart
          : ev.equals(App.COMPLETE) ? LifecycleStateMachineUtil.evtComplete
              : ev.equals(App.STOP) ? LifecycleStateMachineUtil.evtStop
                  : LifecycleStateMachineUtil.evtError);
      q.add(ev);
      if (c.d.chance(1, 3) && i < n - 1) {
        continue;
      }
      ex.drain();
      for (String x : q) {
        if (cur.equals(Names.END)) {
          break;
        }
        String to = App.next(cur, x);
        if (to == null) {
          exp.add("UNMAPPED " + x);
          continue;
        }
        moves++;
        exp.add("BEGIN " + cur + " + " + x + " = " + to);
        for (int k = 0; k < 5; k++) {
          for (int j = 0; j < acts[k] && names[k].equals(to); j++) {
            exp.add("ENTRY " + to + " " + j);
          }
        }
        exp.add("END " + cur + " + " + x + " = " + to);
        cur = to;
      }
      q.clear();
      Util.expectAll(c, log, 0, exp, "step " + i);
      c.eq(cur, sm.getCurrentState().getName(), "current state");
      c.eq(cur.equals(Names.END), sm.isEnded(), "ended");
    }
    c.check(ex.escaped.isEmpty(), "escaped: " + ex.escaped);
    if (moves >= 5) {
      c.nontrivial(hist.toString());
    }
  }

  /** one call at a time; checks what the property says, or when start returns */
  static void seq(Ctx c, boolean lifecycle) {
    App a = App.gen(c, "A", true, true);
    c.note(a.toString());
    App.Model m = new App.Model(a);
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> a.build(c));
      int n = c.d.chance(1, 60) ? c.d.range(15, 150) : c.d.range(1, 14);
      StringBuilder hist = new StringBuilder(a.toString());
      Sched.Task main = null;
      String[] mainRes = {null};
      for (int i = 0; i < n; i++) {
        char op = i == 0 && c.d.chance(5, 6) ? 's' : m.inGate && c.d.bool() ? 'r'
            : c.d.pick('s', 'x', 'x', 'e', 'n', 's', 'x');
        if (op == 'r') {
          if (m.inGate) {
            m.released++;
            a.released = m.released;
            co.settle();
          }
        } else {
          hist.append(op);
          String exp = m.call(op == 'n' ? 'e' : op);
          boolean first = exp.equals("blocks");
          String[] res = {null};
          Sched.Task t = co.task((first ? "main" : "op") + i, () -> {
            String r = a.call(op);
            if (first) {
              mainRes[0] = r;
            } else {
              res[0] = r;
            }
          });
          if (first) {
            main = t;
          }
          co.settle();
          if (!first) {
            if (!co.s.isDone(t)) {
              throw new HangViolation("call " + op + " in state " + m.st + " never returns: "
                  + co.s.endDetail());
            }
            if (lifecycle) {
              c.eq(exp, res[0], "outcome of call " + op + " in state " + a.state());
            }
          }
        }
        m.pump();
        c.note("after " + op + ": " + m.st + " " + a.trace().size());
        compare(c, co, a, m, main, mainRes, lifecycle);
      }
      m.released = Integer.MAX_VALUE;
      a.released = Integer.MAX_VALUE;
      co.settle();
      m.pump();
      compare(c, co, a, m, main, mainRes, lifecycle);
      if (!lifecycle && m.started) {
        // and it can always be brought to its end
        for (int i = 0; i < 4 && !m.over; i++) {
          m.call('x');
          co.task("end" + i, () -> a.call('x'));
          co.settle();
          m.pump();
          compare(c, co, a, m, main, mainRes, false);
        }
        c.check(m.over, "harness: application cannot be ended in " + m.st);
      }
      for (Sched.Uncaught u : co.s.uncaught) {
        throw new Violation("uncaught: " + u + " at " + Coop.top(u.error));
      }
      c.label(a.exit ? "exits on stop" : "restartable");
      c.labelIf(m.over, "over");
      c.labelIf(m.failures > 0, "subsystem failed");
      c.labelIf(m.cycles > 1, "restarted");
      if (m.cycles > 1 || m.failures > 0) {
        c.nontrivial(hist.toString());
      }
    }
  }

  private static void compare(Ctx c, Coop co, App a, App.Model m, Sched.Task main,
      String[] mainRes, boolean lifecycle) {
    if (lifecycle) {
      Util.expectAll(c, a.trace(), 0, m.out, "in state " + m.st);
      c.eq(m.st, a.state(), "lifecycle state");
      return;
    }
    if (main == null) {
      return;
    }
    boolean done = co.s.isDone(main);
    if (m.over && !done) {
      throw new HangViolation("the application is over (" + a.state()
          + ") but the first start call does not return: " + co.s.endDetail());
    }
    if (!m.over && done) {
      throw new Violation("the first start call returned with the application in " + a.state());
    }
    if (done) {
      c.eq("ok", mainRes[0], "outcome of the first start call");
    }
  }

  // ------------------------------------------------------------------ scheduled

  /** is the application at rest, by its log */
  static boolean atRest(App a) {
    synchronized (a.log) {
      for (int i = a.log.size() - 1; i >= 0; i--) {
        String t = a.log.get(i).text;
        if (t.startsWith("END ")) {
          return t.endsWith("= " + App.STARTED) || t.endsWith("= " + App.STOPPED)
              || t.endsWith("= " + Names.END);
        }
        if (t.startsWith("BEGIN ")) {
          return false;
        }
      }
    }
    return false;
  }

  /** adds the calls of several threads to the session */
  static String drive(Ctx c, Coop co, App a) {
    int drivers = c.d.range(1, 3);
    StringBuilder desc = new StringBuilder(a.toString());
    co.task(a.tag + "main", () -> a.logged('s'));
    for (int i = 0; i < drivers; i++) {
      // at times a flood of calls, all of one kind
      int n = c.d.chance(1, 8) ? c.d.range(5, 12) : c.d.range(1, 5);
      char of = n > 5 && c.d.bool() ? c.d.pick('x', 'e', 's') : 0;
      char[] ops = new char[n];
      boolean[] wait = new boolean[n];
      desc.append(" | ");
      for (int j = 0; j < n; j++) {
        ops[j] = of != 0 ? of : c.d.pick('x', 'x', 'x', 's', 's', 'e');
        wait[j] = of != 0 ? j == 0 : c.d.chance(2, 3);
        desc.append(wait[j] ? "." : "").append(ops[j]);
      }
      co.task(a.tag + "d" + i, () -> {
        for (int j = 0; j < n; j++) {
          if (wait[j]) {
            Sched.block(() -> atRest(a), "waits for rest");
          }
          a.logged(ops[j]);
        }
      });
    }
    return desc.toString();
  }

  static void coop(Ctx c, boolean lifecycle) {
    App a = App.gen(c, "A", false, true);
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> a.build(c));
      String desc = drive(c, co, a);
      c.note(desc);
      co.settle();
      App.Seen s = lifecycle ? settled(c, co, a) : finish(c, co, a);
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      c.label(a.exit ? "exits on stop" : "restartable");
      c.labelIf(s.over, "over");
      c.labelIf(s.cycles > 1, "restarted");
      if (s.transitions >= 4 && co.s.preemptions() > 0) {
        c.nontrivial(desc + a.trace() + co.s.steps());
      }
    }
  }

  private static void notes(Ctx c, App a) {
    for (Rec r : a.logCopy()) {
      c.note(a.tag + ": " + r + " @" + r.thread.getName());
    }
  }

  static App.Seen settled(Ctx c, Coop co, App a) {
    for (Sched.Uncaught u : co.s.uncaught) {
      throw new Violation("uncaught: " + u + " at " + Coop.top(u.error));
    }
    return a.checkHistory(c);
  }

  /** brings the application to its end: the first start call must return then, and not before */
  static App.Seen finish(Ctx c, Coop co, App a) {
    App.Seen s = over(c, a);
    for (int i = 0; i < 4 && !s.over; i++) {
      co.task("end" + i, () -> a.logged('x'));
      co.settle();
      s = over(c, a);
    }
    if (!s.over) {
      throw new Violation("the application cannot be brought to its end, it is in " + a.state());
    }
    return s;
  }

  private static App.Seen over(Ctx c, App a) {
    App.Seen s = a.lifecycle();
    if (s.over && s.firstRet < 0) {
      notes(c, a);
      throw new HangViolation("the application is over (" + s.last
          + ") but the first start call does not return");
    }
    if (s.firstRet >= 0 && (!s.over || s.firstRet < (a.exit ? s.stopped : s.ended))) {
      notes(c, a);
      throw new Violation("the first start call returned before the application was over, in "
          + s.last);
    }
    if (s.firstRes != null && !s.firstRes.equals("ok")) {
      notes(c, a);
      throw new Violation("the first start call threw " + s.firstRes);
    }
    return s;
  }
}
