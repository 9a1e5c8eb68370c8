package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;

/** Configuration calls accept exactly the valid sequences. */
final class C10 {

  private static final String PENDING = "\u0000pending";
  private static final String NOOP = "\u0000noop";
  private static final String ENDS = "\u0000end";

  private C10() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("calls", 60000, 2_000_000, C10::calls).rule(
        "random sequence of configuration calls, valid and invalid, reserved names included, each "
            + "accepted or refused as the model says; then start and a probe of every state and "
            + "event; non-trivial: a refused call after which a further one was accepted, and at "
            + "least two mappings"));
    return l;
  }

  private static final class Dsl {

    String init;
    String marked;
    String event;
    final Map<String, Map<String, String>> map = new LinkedHashMap<>();
    final Map<String, Boolean> imm = new TreeMap<>();

    boolean defined(String s) {
      return map.containsKey(s);
    }

    /** null if the call is outside the domain, else whether it is accepted */
    Boolean call(String[] op) {
      String a = op[1];
      switch (op[0]) {
        case "initialSate":
          if (Names.RESERVED.contains(a) || init != null) {
            return false;
          }
          init = a;
          map.put(a, new LinkedHashMap<>());
          marked = a;
          return true;
        case "when":
          if (Names.RESERVED.contains(a) || init == null || marked != null) {
            return false;
          }
          map.putIfAbsent(a, new LinkedHashMap<>());
          marked = a;
          return true;
        case "receives":
          if (Names.IMM.equals(a) || init == null || marked == null) {
            return false;
          }
          if (imm.containsKey(marked)) {
            return null;
          }
          event = a;
          map.get(marked).putIfAbsent(a, PENDING);
          return true;
        case "itEnds":
          if (init == null || marked == null) {
            return false;
          }
          if (event == null) {
            if (!map.get(marked).isEmpty() || imm.containsKey(marked)) {
              return false;
            }
            imm.put(marked, true);
            marked = null;
            return true;
          }
          return outcome(ENDS);
        case "itTransitionsTo":
          if (Names.RESERVED.contains(a) || init == null || marked == null) {
            return false;
          }
          return event == null ? null : (Boolean) outcome(a);
        default:
          if (init == null || marked == null) {
            return false;
          }
          return event == null ? null : (Boolean) outcome(NOOP);
      }
    }

    private boolean outcome(String o) {
      if (!map.get(marked).get(event).equals(PENDING)) {
        return false;
      }
      map.get(marked).put(event, o);
      marked = null;
      event = null;
      return true;
    }

    boolean complete() {
      return init != null && map.values().stream().noneMatch(m -> m.containsValue(PENDING));
    }

    Dsl copy() {
      Dsl d = new Dsl();
      d.init = init;
      d.marked = marked;
      d.event = event;
      map.forEach((k, v) -> d.map.put(k, new LinkedHashMap<>(v)));
      d.imm.putAll(imm);
      return d;
    }
  }

  private static final class Own implements State<Object, Object> {

    private final String name;

    Own(String name) {
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) {
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) {
    }

    @Override
    @SafeVarargs
    public final void appendEntryActions(StateAction<Object, Object>... actions) {
    }

    @Override
    @SafeVarargs
    public final void appendExitActions(StateAction<Object, Object>... actions) {
    }

    @Override
    public String getName() {
      return name;
    }
  }

  private static final class OwnEvent implements StateEvent<Object> {

    private final String name;

    OwnEvent(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object payload) {
    }
  }

  /** a machine and what its listener and handlers were told */
  private static final class M implements StateMachineListener<Object, Object> {

    final List<String> log = new ArrayList<>();
    final ManualExec ex = new ManualExec();
    final GenericStateMachine<Object, Object> sm;
    StateMachine<Object, Object> chain;
    private int kind;

    M() {
      sm = new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(this)
          .setEventProcessingStrategy(World.strategy(false,
              new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
                  .withUnmappedEventHandler((e, m) -> log.add("unmapped " + e.getName()))))
          .build();
      chain = sm;
    }

    /** a name that is refused is refused whatever the kind of the state */
    private State<Object, Object> state(String name) {
      return !Names.RESERVED.contains(name) || kind++ % 2 == 0 ? new NamedState<>(name)
          : new Own(name);
    }

    private StateEvent<Object> event(String name) {
      return !name.equals(Names.IMM) || kind++ % 2 == 0 ? new NamedStateEvent<>(name)
          : new OwnEvent(name);
    }

    boolean call(String[] op) {
      try {
        switch (op[0]) {
          case "initialSate":
            chain = chain.initialSate(state(op[1]));
            break;
          case "when":
            chain = chain.when(state(op[1]));
            break;
          case "receives":
            StateEvent<Object> ev = event(op[1]);
            if (op[1].hashCode() % 4 == 1) {
              ev.setPayload(op);
            }
            chain = chain.receives(ev);
            break;
          case "itEnds":
            chain = chain.itEnds();
            break;
          case "itTransitionsTo":
            chain = chain.itTransitionsTo(state(op[1]));
            break;
          default:
            chain = chain.itDoesNotTransition();
        }
        return true;
      } catch (IllegalStateException e) {
        return false;
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      log.add("begin " + f.getName() + "+" + e.getName() + "=" + t.getName());
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      log.add("end " + f.getName() + "+" + e.getName() + "=" + t.getName());
    }
  }

  private static void calls(Ctx c) {
    boolean big = c.d.chance(1, 12);
    int ns = big ? c.d.range(2, 24) : c.d.range(1, 4);
    int ne = big ? c.d.range(4, 24) : c.d.range(1, 3);
    boolean odd = c.d.chance(1, 4);
    List<String> sn = new ArrayList<>(Names.distinct(c.d, ns, "S", odd, false));
    List<String> en = new ArrayList<>(Names.distinct(c.d, ne, "e", odd, true));
    boolean reserved = c.d.chance(1, 3);
    Dsl d = new Dsl();
    M m = new M();
    List<String[]> ops = new ArrayList<>();
    int n = big ? c.d.range(40, 400) : c.d.size(1, 24, 60);
    boolean wild = c.d.chance(1, 2);
    int refusedAt = -1;
    boolean again = false;
    int accepted = 0;
    for (int i = 0; i < n; i++) {
      String[] op = draw(c, d, sn, en, reserved, wild);
      Dsl x = d.copy();
      Boolean ok = x.call(op);
      if (ok == null) {
        continue;
      }
      if (ok) {
        d = x;
      }
      boolean real = m.call(op);
      c.note(op[0] + "(" + op[1] + ") " + (ok ? "accepted" : "refused"));
      c.eq(ok, real, "call " + i + " " + op[0] + "(" + op[1] + ") accepted");
      c.same(m.sm, m.chain, "the machine returned by " + op[0]);
      ops.add(op);
      if (!ok) {
        refusedAt = i;
      } else {
        accepted++;
        again |= refusedAt >= 0;
      }
      c.check(!m.sm.isStarted() && !m.sm.isEnded(), "started or ended by a configuration call");
    }
    c.eq(List.of(), m.log, "callbacks while configuring");
    boolean started = true;
    try {
      m.sm.start();
    } catch (IllegalStateException e) {
      started = false;
    }
    c.eq(d.complete(), started, "start() accepted");
    c.eq(started, m.sm.isStarted(), "isStarted");
    int mappings = 0;
    for (Map<String, String> v : d.map.values()) {
      mappings += v.size();
    }
    if (started) {
      List<String> exp = new ArrayList<>();
      exp.add("begin " + Names.UNINIT + "+" + Names.IMM + "=" + d.init);
      exp.add("end " + Names.UNINIT + "+" + Names.IMM + "=" + d.init);
      c.eq(exp, m.log, "start");
      c.eq(d.imm.containsKey(d.init) ? Names.END : d.init, m.sm.getCurrentState().getName(),
          "state after start");
      String cur = d.imm.containsKey(d.init) ? null : d.init;
      int k = c.d.below(8);
      for (int i = 0; i < k && cur != null; i++) {
        cur = probe(c, d, m, cur, c.d.pick(en), "walk");
      }
    } else {
      c.eq(List.of(), m.log, "callbacks of a refused start");
    }
    // every state and event on machines configured by the same calls
    List<String[]> pairs = new ArrayList<>();
    for (String s : sn) {
      if (!d.defined(s)) {
        M p = replay(ops);
        boolean in = true;
        try {
          p.sm.startInState(new NamedState<>(s));
        } catch (IllegalStateException e) {
          in = false;
        }
        c.check(!in, "started in the unknown state " + s);
        continue;
      }
      for (String e : en) {
        if (!PENDING.equals(d.map.get(s).get(e))) {
          pairs.add(new String[]{s, e});
        }
      }
    }
    while (pairs.size() > 12) {
      pairs.remove(c.d.below(pairs.size()));
    }
    for (String[] pr : pairs) {
      M p = replay(ops);
      p.sm.startInState(new NamedState<>(pr[0]));
      c.eq(List.of(), p.log, "callbacks by starting in a state");
      probe(c, d, p, pr[0], pr[1], "probe");
    }
    c.labelIf(big, "many states and events");
    c.labelIf(started, "started");
    c.labelIf(refusedAt >= 0, "refused calls");
    c.labelIf(mappings > 3, "more than 3 mappings");
    if (again && mappings >= 2) {
      StringBuilder b = new StringBuilder();
      ops.forEach(o -> b.append(o[0]).append(o[1]).append(';'));
      c.nontrivial(b.toString());
    }
  }

  private static M replay(List<String[]> ops) {
    M p = new M();
    for (String[] op : ops) {
      p.call(op);
    }
    return p;
  }

  /** fires e in state s; returns the next state or null if ended */
  private static String probe(Ctx c, Dsl d, M p, String s, String e, String what) {
    p.log.clear();
    p.sm.fire(new NamedStateEvent<>(e));
    p.ex.drain();
    what = what + ": event '" + e + "' in state '" + s + "'";
    c.check(p.ex.escaped.isEmpty(), what + ": escaped " + p.ex.escaped);
    String o = d.map.get(s).get(e);
    if (o == null) {
      c.eq(List.of("unmapped " + e), p.log, what);
      c.eq(s, p.sm.getCurrentState().getName(), what + ": current state");
      c.check(!p.sm.isEnded(), what + ": ended");
      return s;
    }
    String t = o.equals(NOOP) ? Names.NOOP : o.equals(ENDS) ? Names.END : o;
    c.eq(List.of("begin " + s + "+" + e + "=" + t, "end " + s + "+" + e + "=" + t), p.log, what);
    boolean ends = o.equals(ENDS) || !o.equals(NOOP) && (!d.defined(o) || d.imm.containsKey(o));
    c.eq(ends, p.sm.isEnded(), what + ": ended");
    String to = ends ? Names.END : o.equals(NOOP) ? s : o;
    c.eq(to, p.sm.getCurrentState().getName(), what + ": current state");
    return ends ? null : to;
  }

  private static String[] draw(Ctx c, Dsl d, List<String> sn, List<String> en, boolean reserved,
      boolean wild) {
    String s = reserved && c.d.chance(1, 8) ? c.d.pick(Names.END, Names.NOOP, Names.UNINIT)
        : c.d.pick(sn);
    String e = reserved && c.d.chance(1, 8) ? Names.IMM : c.d.pick(en);
    boolean any = wild && c.d.chance(1, 3);
    int k;
    if (any) {
      k = c.d.below(6);
    } else if (d.init == null) {
      k = 0;
    } else if (d.marked == null) {
      k = 1;
    } else if (d.event == null) {
      k = c.d.weighted(8, 1) == 0 ? 2 : 3;
    } else {
      k = c.d.weighted(1, 2, 5, 2);
      k = k == 0 ? 2 : k == 1 ? 3 : k == 2 ? 4 : 5;
    }
    switch (k) {
      case 0:
        return new String[]{"initialSate", s};
      case 1:
        return new String[]{"when", s};
      case 2:
        return new String[]{"receives", e};
      case 3:
        return new String[]{"itEnds", ""};
      case 4:
        return new String[]{"itTransitionsTo", s};
      default:
        return new String[]{"itDoesNotTransition", ""};
    }
  }
}
