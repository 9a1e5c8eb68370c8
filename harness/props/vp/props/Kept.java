package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.lang.ref.WeakReference;
import java.util.ArrayList;
import java.util.List;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;

/** What was handed to the library is kept by it: the harness drops its own references, and collects. */
final class Kept {

  private Kept() {
  }

  /** collects garbage; an object nobody refers to is gone afterwards */
  private static void collect() {
    WeakReference<Object> w = new WeakReference<>(new Object());
    for (int i = 0; i < 20 && w.get() != null; i++) {
      System.gc();
    }
    System.gc();
  }

  private static NamedStateEvent<Object> ev(String n) {
    return new NamedStateEvent<>(new String(n.toCharArray()));
  }

  @SuppressWarnings("unchecked")
  private static State<Object, Object> state(String n, List<String> log, Object[] mark) {
    State<Object, Object> s = new NamedState<>(new String(n.toCharArray()));
    s.appendEntryActions((e, m) -> log.add("in " + n + " " + e.getName() + " " + e.getPayload()
        + mark[0]));
    s.appendExitActions((e, m) -> log.add("out " + n + " " + e.getName() + " " + e.getPayload()
        + mark[0]));
    return s;
  }

  private static StateMachineListener<Object, Object> listener(String n, List<String> log,
      Object[] mark) {
    return new StateMachineListener<Object, Object>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        log.add(n + " begin " + f.getName() + " " + e.getName() + " " + t.getName() + mark[0]);
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        log.add(n + " end " + f.getName() + " " + e.getName() + " " + t.getName() + mark[0]);
      }
    };
  }

  private static UnexpectedFlowListener<Object, Object> flow(List<String> log, Object[] mark) {
    return new UnexpectedFlowListener<Object, Object>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> m, Thread t, Exception x) {
        log.add("exception " + e.getName() + mark[0]);
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
        log.add("after " + e.getName() + mark[0]);
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e,
          StateMachine<Object, Object> m) {
        log.add("before " + e.getName() + mark[0]);
      }
    };
  }

  private static GenericStateMachine<Object, Object> machine(Ctx c, ManualExec ex, List<String> log,
      boolean dup, boolean later) {
    Object[] mark = {""};
    EventProcessingStrategyFactory.Config<Object, Object> k =
        new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
            .withUnmappedEventHandler((e, m) -> {
              log.add("unmapped " + e.getName() + " " + e.getPayload() + mark[0]);
              if (e.getPayload() == null) {
                throw new IllegalArgumentException();
              }
            }).withUnexpectedFlowListener(flow(log, mark));
    EventProcessingStrategy<Object, Object> s = World.strategy(dup, k);
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<Object, Object>()
        .setContext(new ArrayList<>(List.of("context"))).setEventProcessingStrategy(s);
    if (!later) {
      b.setStateMachineListener(listener("l", log, mark));
    }
    GenericStateMachine<Object, Object> sm = b.build();
    if (later) {
      sm.setStateMachineListener(listener("l", log, mark));
    }
    sm.initialSate(state("A", log, mark)).receives(ev("go")).itTransitionsTo(state("B", log, mark))
        .when(state("B", log, mark)).receives(ev("back")).itTransitionsTo(state("A", log, mark))
        .when(state("B", log, mark)).receives(ev("end")).itEnds();
    return sm;
  }

  /** events fired one after the other while nothing is processed, then all of them are */
  private static void run(Ctx c, boolean payloads) {
    ManualExec ex = new ManualExec();
    List<String> log = new ArrayList<>();
    boolean dup = c.d.bool();
    GenericStateMachine<Object, Object> sm = machine(c, ex, log, dup, c.d.bool());
    List<String> exp = new ArrayList<>();
    c.note(dup ? "drop-duplicate" : "default");
    boolean early = c.d.bool();
    collect();
    if (early) {
      sm.fire(ev("go"));
      exp.add("before go");
    }
    sm.start();
    exp.add("l begin _UNINITIALISED_ _immediate_ A");
    exp.add("in A _immediate_ null");
    exp.add("l end _UNINITIALISED_ _immediate_ A");
    boolean inA = true;
    boolean over = false;
    int rounds = c.d.range(1, 3);
    for (int r = 0; r < rounds && !over; r++) {
      collect();
      List<String> waiting = new ArrayList<>();
      int n = c.d.range(1, 5);
      for (int i = 0; i < n; i++) {
        String name = new String[]{"go", "back", "odd", "end"}[c.d.weighted(3, 3, 2, 1)];
        NamedStateEvent<Object> e = ev(name);
        String p = payloads || c.d.chance(2, 3) ? "p" + r + "." + i : null;
        if (p != null) {
          e.setPayload(c.d.bool() ? new StringBuilder(p) : new ArrayList<>(List.of(p)) {
            private static final long serialVersionUID = 1L;

            @Override
            public String toString() {
              return get(0);
            }
          });
        }
        sm.fire(e);
        if (dup && waiting.contains(name)) {
          continue;
        }
        waiting.add(name);
        if (over) {
          continue;
        }
        if (name.equals("odd") || name.equals("go") && !inA || name.equals("back") && inA
            || name.equals("end") && inA) {
          exp.add("unmapped " + name + " " + p);
          if (p == null) {
            exp.add("exception " + name);
          }
          continue;
        }
        String from = inA ? "A" : "B";
        String to = name.equals("end") ? "_END_" : inA ? "B" : "A";
        exp.add("l begin " + from + " " + name + " " + to);
        exp.add("out " + from + " " + name + " " + p);
        if (!name.equals("end")) {
          exp.add("in " + to + " " + name + " " + p);
        }
        exp.add("l end " + from + " " + name + " " + to);
        inA = !inA;
        over = name.equals("end");
      }
      collect();
      c.eq(waiting.size(), sm.getEventQueueSize(), "events waiting");
      ex.drain();
    }
    if (over) {
      sm.fire(ev("go"));
      exp.add("after go");
    }
    c.eq(String.join("\n", exp), String.join("\n", log), "callbacks");
    c.eq("[context]", String.valueOf(sm.getContext()), "context");
    c.check(ex.escaped.isEmpty(), "escaped to the executor: " + ex.escaped);
    c.nontrivial(dup + " " + exp);
  }

  private static void fanOut(Ctx c) {
    List<String> log = new ArrayList<>();
    Object[] mark = {""};
    int n = c.d.range(1, 6);
    MultiConsumerStateMachineListener<Object, Object> f = c.d.bool()
        ? new MultiConsumerStateMachineListener<>()
        : new MultiConsumerStateMachineListener<>(listener("x", log, mark));
    List<String> names = new ArrayList<>();
    log.clear();
    State<Object, Object> a = new NamedState<>("A");
    State<Object, Object> b = new NamedState<>("B");
    f.onStateChangeBegin(a, ev("go"), b);
    if (!log.isEmpty()) {
      names.add("x");
    }
    for (int i = 0; i < n; i++) {
      c.check(f.add(listener("l" + i, log, mark)), "added");
      names.add("l" + i);
    }
    int rounds = c.d.range(1, 3);
    for (int r = 0; r < rounds; r++) {
      collect();
      log.clear();
      boolean end = c.d.bool();
      List<String> exp = new ArrayList<>();
      for (String s : names) {
        exp.add(s + (end ? " end" : " begin") + " A go B");
      }
      if (end) {
        f.onStateChangeEnd(a, ev("go"), b);
      } else {
        f.onStateChangeBegin(a, ev("go"), b);
      }
      java.util.Collections.sort(exp);
      java.util.Collections.sort(log);
      c.eq(String.join("\n", exp), String.join("\n", log), "delivered");
    }
    c.nontrivial(names + " " + rounds);
  }

  static Part machine() {
    return new Part("kept", 60, 1500, c -> run(c, false)).workers(4).rule(
        "machines whose states, actions, handlers, listener, context and payloads nobody else refers "
            + "to, garbage collected between the steps: everything is still called");
  }

  static Part payloads() {
    return new Part("kept", 60, 1500, c -> run(c, true)).workers(4).rule(
        "payloads nobody else refers to, garbage collected while their events wait: still delivered");
  }

  static Part listeners() {
    return new Part("kept", 60, 1500, Kept::fanOut).workers(4).rule(
        "listeners nobody else refers to, garbage collected between notifications: still notified");
  }
}
