package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.List;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;

/** Machines that receive events of the user's own types, whose equality has nothing to do with names. */
final class Own {

  private static final int UNMAPPED = -1;
  private static final int NOOP = -2;

  private Own() {
  }

  static Part part(boolean dup) {
    return new Part("own", 15000, 400_000, c -> run(c, dup)).rule(
        "a machine that receives events of two user-defined types that are equal by a key, names "
            + "drawn independently of it (equal ones for unequal events, unequal ones for equal "
            + "events), " + (dup ? "drop-duplicate; non-trivial: an event was dropped and another "
            + "of its name was not" : "either strategy; non-trivial: two events of one name had "
            + "different effects"));
  }

  private abstract static class Keyed implements StateEvent<Object> {

    final int key;
    final String name;

    Keyed(int key, String name) {
      this.key = key;
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object payload) {
      throw new UnsupportedOperationException();
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Keyed && ((Keyed) o).key == key;
    }

    @Override
    public int hashCode() {
      return key % 3;
    }

    @Override
    public String toString() {
      return "'" + name + "'/" + key;
    }
  }

  private static final class One extends Keyed {

    One(int key, String name) {
      super(key, name);
    }
  }

  private static final class Two extends Keyed {

    Two(int key, String name) {
      super(key, name);
    }
  }

  private static Keyed event(Ctx c, int key, int names) {
    String n = "n" + c.d.below(names);
    return c.d.bool() ? new One(key, n) : new Two(key, n);
  }

  private static void run(Ctx c, boolean dups) {
    boolean dup = dups || c.d.chance(1, 3);
    int ns = c.d.range(1, 4);
    int ne = c.d.range(1, 5);
    int names = c.d.range(1, 3);
    int[][] to = new int[ns][ne];
    List<State<Object, Object>> st = new ArrayList<>();
    List<String> log = new ArrayList<>();
    for (int s = 0; s < ns; s++) {
      NamedState<Object, Object> x = new NamedState<>("S" + s);
      int me = s;
      x.appendEntryActions((e, m) -> log.add("in " + me + " " + e));
      x.appendExitActions((e, m) -> log.add("out " + me + " " + e));
      st.add(x);
    }
    ManualExec ex = new ManualExec();
    EventProcessingStrategyFactory.Config<Object, Object> k =
        new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
            .withUnmappedEventHandler((e, m) -> log.add("unmapped " + e));
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setStateMachineListener(new StateMachineListener<Object, Object>() {
          @Override
          public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
              State<Object, Object> t) {
            log.add("begin " + f.getName() + " " + e + " " + t.getName());
          }

          @Override
          public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
              State<Object, Object> t) {
            log.add("end " + f.getName() + " " + e + " " + t.getName());
          }
        }).setEventProcessingStrategy(World.strategy(dup, k)).build();
    StateMachine<Object, Object> m = sm.initialSate(st.get(0));
    boolean first = true;
    StringBuilder table = new StringBuilder(dup ? "drop-duplicate" : "");
    for (int s = 0; s < ns; s++) {
      boolean any = false;
      for (int e = 0; e < ne; e++) {
        int r = c.d.weighted(4, 2, 1);
        to[s][e] = r == 0 ? c.d.below(ns) : r == 1 ? UNMAPPED : NOOP;
        if (s == 0 && e == ne - 1 && !any && to[s][e] == UNMAPPED || s > 0 && e == ne - 1 && !any
            && to[s][e] == UNMAPPED) {
          to[s][e] = NOOP;
        }
        if (to[s][e] == UNMAPPED) {
          continue;
        }
        any = true;
        if (!first) {
          m.when(new NamedState<>("S" + s));
        }
        first = false;
        Keyed ev = event(c, e, names);
        m.receives(ev);
        if (to[s][e] == NOOP) {
          m.itDoesNotTransition();
        } else {
          m.itTransitionsTo(st.get(to[s][e]));
        }
        table.append(" S").append(s).append(' ').append(ev).append("->").append(
            to[s][e] == NOOP ? "noop" : "S" + to[s][e]);
      }
    }
    c.note(table.toString());
    sm.start();
    List<String> exp = new ArrayList<>();
    exp.add("begin " + Names.UNINIT + " " + log.get(0).split(" ")[2] + " S0");
    exp.add("in 0 " + exp.get(0).split(" ")[2]);
    exp.add("end" + exp.get(0).substring(5));
    Deque<Keyed> waiting = new ArrayDeque<>();
    int[] cur = {0};
    StringBuilder hist = new StringBuilder();
    boolean[] seen = new boolean[4];
    java.util.Map<String, Integer> effects = new java.util.HashMap<>();
    Runnable pump = () -> {
      ex.drain();
      while (!waiting.isEmpty()) {
        Keyed e = waiting.poll();
        int t = to[cur[0]][e.key];
        Integer was = effects.put(cur[0] + e.name, t);
        seen[2] |= was != null && was != t;
        if (t == UNMAPPED) {
          exp.add("unmapped " + e);
          continue;
        }
        String a = " S" + cur[0] + " " + e + " " + (t == NOOP ? Names.NOOP : "S" + t);
        exp.add("begin" + a);
        if (t != NOOP) {
          exp.add("out " + cur[0] + " " + e);
          exp.add("in " + t + " " + e);
          cur[0] = t;
        }
        exp.add("end" + a);
      }
      Util.expectAll(c, log, 0, exp, "after a pump");
      c.eq("S" + cur[0], sm.getCurrentState().getName(), "current state");
    };
    int n = c.d.size(1, 25, 150);
    List<Keyed> old = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      if (c.d.chance(4, 5)) {
        Keyed e = !old.isEmpty() && c.d.chance(1, 4) ? c.d.pick(old)
            : event(c, c.d.below(ne), names);
        old.add(e);
        c.note("fire " + e);
        hist.append(' ').append(e);
        boolean drop = dup && waiting.contains(e);
        for (Keyed x : waiting) {
          seen[1] |= !drop && dup && x.name.equals(e.name);
        }
        seen[0] |= drop;
        if (!drop) {
          waiting.add(e);
        }
        sm.fire(e);
        c.eq(waiting.size(), sm.getEventQueueSize(), "events waiting");
      } else {
        c.note("pump");
        hist.append(" p");
        pump.run();
      }
    }
    pump.run();
    c.check(ex.escaped.isEmpty(), "escaped: " + ex.escaped);
    c.labelIf(seen[0], "dropped");
    if (dups ? seen[0] && seen[1] : seen[2]) {
      c.nontrivial(table + hist.toString());
    }
  }
}
