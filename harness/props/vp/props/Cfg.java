package vp.props;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.Collections;
import java.util.List;
import java.util.Objects;
import vp.core.Src;

/** A machine configuration in the abstract. */
final class Cfg {

  static final int UNMAPPED = -1;
  static final int NOOP = -2;
  static final int END = -3;

  static final class Opts {

    int minStates = 1;
    int maxStates = 5;
    int maxEvents = 4;
    boolean big;
    boolean odd = true;
    boolean customStates = true;
    boolean customEvents;
    boolean fires = true;
    boolean ends = true;
    boolean bare = true;
    boolean imm = true;
    boolean immInit = true;
    int unmappedW = 2;
    int noopW = 1;
    int endW = 1;
    int targetW = 7;
    int maxActs = 3;
    boolean guards;
    /** one state may be configured by when() alone */
    boolean open = true;
  }

  private static final String[] SEPS = {"", ":", "-", "_", " ", ",", "|", "/", "+", "->", ".", "#",
      "=", " + ", "\u0000", ";"};

  /** a state type of the user's */
  static final class OwnState implements State<Object, Object> {

    private final String name;
    private final List<StateAction<Object, Object>> in = new ArrayList<>();
    private final List<StateAction<Object, Object>> out = new ArrayList<>();

    OwnState(String name) {
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      for (StateAction<Object, Object> a : in) {
        a.execute(e, sm);
      }
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      for (StateAction<Object, Object> a : out) {
        a.execute(e, sm);
      }
    }

    @SafeVarargs
    @Override
    public final void appendEntryActions(StateAction<Object, Object>... as) {
      Collections.addAll(in, as);
    }

    @SafeVarargs
    @Override
    public final void appendExitActions(StateAction<Object, Object>... as) {
      Collections.addAll(out, as);
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof OwnState && ((OwnState) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return name.hashCode();
    }
  }

  /** an event type of the user's; never given a payload by the harness */
  static final class OwnEvent implements StateEvent<Object> {

    private final String name;
    private Object payload;

    OwnEvent(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object payload) {
      this.payload = payload;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof OwnEvent && ((OwnEvent) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return Objects.hashCode(name);
    }

    @Override
    public String toString() {
      return "OwnEvent[" + name + "]";
    }
  }

  List<String> st = new ArrayList<>();
  List<Boolean> ownState = new ArrayList<>();
  List<List<Act>> entry = new ArrayList<>();
  List<List<Act>> exit = new ArrayList<>();
  List<String> ev = new ArrayList<>();
  List<Boolean> ownEvent = new ArrayList<>();
  /** [state][event] */
  List<List<Integer>> map = new ArrayList<>();
  List<Boolean> imm = new ArrayList<>();
  List<Boolean> configured = new ArrayList<>();
  int nextAct;
  private int baseEvents;
  /** the state that is configured last, by when() alone */
  private int open = -1;

  int states() {
    return st.size();
  }

  int baseEvents() {
    return baseEvents;
  }

  int to(int s, int e) {
    return map.get(s).get(e);
  }

  /** state 0 is the initial state */
  static Cfg gen(Src d, Opts o) {
    Cfg c = new Cfg();
    boolean huge = o.big && d.chance(1, 24);
    int ns = huge ? d.range(20, 45) : d.range(o.minStates, o.maxStates);
    int ne = huge ? d.range(10, 30) : d.range(1, d.chance(1, 20) ? 3 * o.maxEvents : o.maxEvents);
    boolean odd = o.odd && d.chance(1, 3);
    c.st = Names.distinct(d, ns, "S", odd, false);
    c.ev = Names.distinct(d, ne, "e", odd, true);
    if (odd && ns > 1 && ne > 1 && d.chance(1, 6)) {
      // state and event names that make the same text when put together
      String sep = d.pick(SEPS);
      swap(c.st, d, "a", "a" + sep + "b");
      swap(c.ev, d, "c", "b" + sep + "c");
    }
    c.baseEvents = ne;
    boolean own = o.customStates && d.chance(1, 6);
    boolean ownE = o.customEvents && d.chance(1, 6);
    for (int e = 0; e < ne; e++) {
      c.ownEvent.add(ownE && d.bool());
    }
    for (int s = 0; s < ns; s++) {
      c.ownState.add(own && d.bool());
      boolean bare = s > 0 && o.bare && d.chance(1, 8);
      boolean im = !bare && o.imm && (s > 0 || o.immInit) && d.chance(1, s == 0 ? 30 : 8);
      c.imm.add(im);
      List<Integer> row = new ArrayList<>();
      boolean any = false;
      for (int e = 0; e < ne; e++) {
        int r = UNMAPPED;
        if (!bare && !im) {
          int k = d.weighted(o.targetW, o.unmappedW, o.noopW, o.ends ? o.endW : 0);
          r = k == 0 ? d.below(ns) : k == 1 ? UNMAPPED : k == 2 ? NOOP : END;
        }
        any |= r != UNMAPPED;
        row.add(r);
      }
      c.map.add(row);
      // a state with neither events nor an immediate end is one that is never configured,
      // except the initial state, which is always defined
      c.configured.add(s == 0 || any || im);
      c.entry.add(c.acts(d, o, ne, huge));
      c.exit.add(c.acts(d, o, ne, huge));
    }
    if (o.open && o.bare && o.unmappedW > 0 && d.chance(1, 6)) {
      for (int s = 1; s < ns && c.open < 0; s++) {
        if (!c.configured.get(s)) {
          c.open = s;
          c.configured.set(s, true);
        }
      }
    }
    if (!o.bare) {
      // every state must be configured: give a bare one a no-transition mapping
      for (int s = 1; s < ns; s++) {
        if (!c.configured.get(s)) {
          c.map.get(s).set(0, NOOP);
          c.configured.set(s, true);
        }
      }
    }
    if (!c.imm.get(0) && ns > 1 && c.map.get(0).stream().allMatch(x -> x == UNMAPPED)) {
      // configuration cannot go on after an initial state that receives nothing
      boolean others = false;
      for (int s = 1; s < ns; s++) {
        others |= c.configured.get(s);
      }
      if (others) {
        c.map.get(0).set(0, d.below(ns));
      }
    }
    return c;
  }

  private static void swap(List<String> names, Src d, String a, String b) {
    int i = d.below(names.size());
    int j = (i + 1 + d.below(names.size() - 1)) % names.size();
    if (!names.contains(a) && !names.contains(b)) {
      names.set(i, a);
      names.set(j, b);
    }
  }

  private List<Act> acts(Src d, Opts o, int ne, boolean huge) {
    List<Act> l = new ArrayList<>();
    int n = huge && d.chance(1, 8) ? 40 : d.below((d.chance(1, 24) ? 3 * o.maxActs : o.maxActs) + 1);
    for (int i = 0; i < n; i++) {
      Act again = i > 0 && d.chance(1, 10) ? l.get(d.below(i)) : null;
      if (again != null && again.fires.length == 0 && again.guard == 0) {
        // one instance several times in a list
        l.add(again);
        continue;
      }
      int k = o.fires && d.chance(1, 4) ? d.range(1, 2) : 0;
      int[] f = new int[k];
      for (int j = 0; j < k; j++) {
        f[j] = d.below(ne);
      }
      Act a = new Act(nextAct++, f);
      l.add(a);
      if (o.guards && d.chance(1, 2)) {
        a.guard = d.weighted(6, 2, 1) + 1;
        a.kind = d.chance(1, 8) ? d.below(World.KINDS) : d.below(World.EXC);
        a.rethrows = d.chance(1, 8);
        a.every = d.range(1, 4);
      }
    }
    return l;
  }

  /** another event name with the same effect everywhere */
  int alias(int e, int k) {
    String n = ev.get(e) + "#" + k;
    while (ev.contains(n)) {
      n = n + "#";
    }
    ev.add(n);
    ownEvent.add(false);
    for (List<Integer> row : map) {
      row.add(row.get(e));
    }
    return ev.size() - 1;
  }

  StateEvent<Object> event(int e) {
    String n = new String(ev.get(e).toCharArray());
    return ownEvent.get(e) ? new OwnEvent(n) : new NamedStateEvent<>(n);
  }

  State<Object, Object> blankState(int s) {
    String n = new String(st.get(s).toCharArray());
    return ownState.get(s) ? new OwnState(n) : new NamedState<>(n);
  }

  /** makes the configuration calls, in an order drawn from d, with equal instances now and then */
  void apply(StateMachine<Object, Object> sm, List<State<Object, Object>> inst, Src d) {
    apply(sm, inst, inst, d);
  }

  /** as apply, taking instances from either list at random */
  void apply(StateMachine<Object, Object> sm, List<State<Object, Object>> inst,
      List<State<Object, Object>> alt, Src d) {
    boolean shuffle = d.chance(1, 2);
    boolean alias = d.chance(1, 3);
    StateMachine<Object, Object> m = sm.initialSate(one(inst, alt, d).get(0));
    List<int[]> steps = new ArrayList<>();
    for (int s = 0; s < states(); s++) {
      if (imm.get(s)) {
        steps.add(new int[]{s, -1});
      }
      for (int e = 0; e < ev.size(); e++) {
        if (to(s, e) != UNMAPPED) {
          steps.add(new int[]{s, e});
        }
      }
    }
    // the first step must be about the initial state
    if (shuffle) {
      for (int i = steps.size() - 1; i > 0; i--) {
        Collections.swap(steps, i, i - d.below(i + 1));
      }
    }
    for (int i = 0; i < steps.size(); i++) {
      if (steps.get(i)[0] == 0) {
        Collections.swap(steps, 0, i);
        break;
      }
    }
    boolean first = true;
    for (int[] x : steps) {
      if (!first) {
        m = m.when(alias && d.bool() ? blankState(x[0]) : one(inst, alt, d).get(x[0]));
      }
      first = false;
      if (x[1] < 0) {
        m = m.itEnds();
        continue;
      }
      m = m.receives(event(x[1]));
      int t = to(x[0], x[1]);
      m = t == NOOP ? m.itDoesNotTransition() : t == END ? m.itEnds()
          : m.itTransitionsTo(one(inst, alt, d).get(t));
    }
    if (open >= 0) {
      m.when(one(inst, alt, d).get(open));
    }
  }

  private static List<State<Object, Object>> one(List<State<Object, Object>> a,
      List<State<Object, Object>> b, Src d) {
    return a == b || d.bool() ? a : b;
  }

  @Override
  public String toString() {
    StringBuilder b = new StringBuilder();
    for (int s = 0; s < states(); s++) {
      b.append(s == 0 ? "init " : "").append('\'').append(st.get(s)).append('\'');
      if (ownState.get(s)) {
        b.append(" (own type)");
      }
      b.append(" in").append(entry.get(s)).append(" out").append(exit.get(s));
      if (imm.get(s)) {
        b.append(" itEnds");
      } else if (!configured.get(s)) {
        b.append(" never configured");
      } else if (s == open) {
        b.append(" when() only");
      }
      for (int e = 0; e < ev.size(); e++) {
        int t = to(s, e);
        if (t != UNMAPPED) {
          b.append(" '").append(ev.get(e)).append("'->")
              .append(t == NOOP ? "noop" : t == END ? "end" : "'" + st.get(t) + "'");
        }
      }
      b.append("; ");
    }
    return b.toString();
  }
}
