package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Objects;
import java.util.Set;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;

/** Equality of named states and events. */
final class C16 {

  private C16() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("laws", 60000, 2_000_000, C16::laws).rule(
        "2-8 named states and events over a pool of odd, colliding, null and equal names with "
            + "actions and payloads, changed and used in between; equality, hash and set behaviour "
            + "compared with their names'; non-trivial: both an equal pair of distinct instances and "
            + "an unequal pair with colliding or nearly equal names"));
    l.add(new Part("copies", 40000, 1_000_000, C16::copies).rule(
        "copies and copies of copies of events of the library's and the user's type, payloads set in "
            + "random order; names and payloads compared with a model; non-trivial: a payload was "
            + "changed after a copy was made"));
    l.add(new Part("machine", 25000, 800_000, C16::machine).rule(
        "a machine configured, fired and resumed with different equal instances throughout, trace "
            + "compared with the model; non-trivial: at least 3 transitions"));
    return l;
  }

  private static String name(Ctx c, List<String> pool) {
    if (!pool.isEmpty() && c.d.chance(1, 2)) {
      String s = c.d.pick(pool);
      // equal but not identical
      return s == null ? null : new String(s.toCharArray());
    }
    if (!pool.isEmpty() && c.d.chance(1, 3)) {
      String s = Names.variant(c.d, c.d.pick(pool));
      pool.add(s);
      return s;
    }
    String s = c.d.chance(1, 12) ? null : c.d.chance(1, 3) ? c.d.pick("Aa", "BB", "AaAa", "BBBB",
        "AaBB", "BBAa") : c.d.bool() ? Names.odd(c.d) : "n" + c.d.below(4);
    pool.add(s);
    return s;
  }

  private static void laws(Ctx c) {
    int n = c.d.range(2, 8);
    List<String> pool = new ArrayList<>();
    List<String> names = new ArrayList<>();
    List<Object> objs = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      String s = name(c, pool);
      names.add(s);
      objs.add(c.d.bool() ? new NamedState<Object, Object>(s) : new NamedStateEvent<Object>(s));
    }
    c.note("names " + names);
    int[] hash = new int[n];
    int[] nameHash = new int[n];
    for (int i = 0; i < n; i++) {
      hash[i] = objs.get(i).hashCode();
      nameHash[i] = Objects.hashCode(names.get(i));
    }
    boolean equal = false;
    boolean near = false;
    for (int round = 0; round < 2; round++) {
      for (int i = 0; i < n; i++) {
        Object a = objs.get(i);
        String sa = names.get(i);
        c.check(!a.equals(null), "equals null: " + a);
        c.check(!a.equals(sa), "a name equals the object");
        c.check(!a.equals(new Object()), "equals another type");
        c.check(sa == null || !a.equals(new Cfg.OwnEvent(sa)) && !a.equals(new Cfg.OwnState(sa)),
            "equals another type of state or event");
        c.eq(hash[i], a.hashCode(), "hash code of '" + sa + "' later");
        c.eq(sa, a instanceof NamedState ? ((NamedState<?, ?>) a).getName()
            : ((NamedStateEvent<?>) a).getName(), "name");
        String str = a.toString();
        c.check(str != null, "no string form");
        for (int j = 0; j < n; j++) {
          Object b = objs.get(j);
          boolean exp = a.getClass() == b.getClass() && Objects.equals(sa, names.get(j));
          c.eq(exp, a.equals(b), a.getClass().getSimpleName() + " '" + sa + "' equals "
              + b.getClass().getSimpleName() + " '" + names.get(j) + "'");
          if (exp) {
            c.eq(hash[i], hash[j], "hash codes of equal objects '" + sa + "'");
            equal |= i != j;
          } else if (a.getClass() == b.getClass()) {
            near |= nameHash[i] == nameHash[j] || sa != null && sa.equalsIgnoreCase(names.get(j))
                || sa == null;
          }
        }
      }
      // as members and keys
      Set<Object> set = new HashSet<>();
      Map<Object, Integer> map = new HashMap<>();
      Set<String> model = new HashSet<>();
      for (int i = 0; i < n; i++) {
        String key = objs.get(i).getClass().getSimpleName() + names.get(i) + (names.get(i) == null);
        c.eq(model.add(key), set.add(objs.get(i)), "new in a set: " + key);
        map.put(objs.get(i), i);
      }
      for (int i = 0; i < n; i++) {
        int last = -1;
        for (int j = 0; j < n; j++) {
          if (objs.get(i).getClass() == objs.get(j).getClass() && Objects.equals(names.get(i),
              names.get(j))) {
            last = j;
          }
        }
        c.eq(last, map.get(objs.get(i)), "value under '" + names.get(i) + "'");
      }
      // use them and ask again
      for (int i = 0; i < n; i++) {
        mutate(c, objs.get(i));
      }
    }
    c.labelIf(equal, "equal pair");
    c.labelIf(near, "near pair");
    if (equal && near) {
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < n; i++) {
        b.append(objs.get(i).getClass().getSimpleName()).append(names.get(i)).append(';');
      }
      c.nontrivial(b.toString());
    }
  }

  @SuppressWarnings("unchecked")
  private static void mutate(Ctx c, Object o) {
    int k = c.d.chance(1, 16) ? c.d.range(4, 80) : c.d.below(4);
    if (o instanceof NamedState) {
      NamedState<Object, Object> s = (NamedState<Object, Object>) o;
      for (int i = 0; i < k; i++) {
        if (c.d.bool()) {
          s.appendEntryActions((e, m) -> { });
        } else {
          s.appendExitActions((e, m) -> { }, null, (e, m) -> { });
        }
      }
      if (c.d.bool()) {
        s.onEntry(new NamedStateEvent<>("x"), null);
        s.onExit(null, null);
      }
    } else {
      NamedStateEvent<Object> e = (NamedStateEvent<Object>) o;
      for (int i = 0; i < k; i++) {
        e.setPayload(c.d.pick(new Tok("p" + i, 0), new Tok.Same("p", 0), new Tok.Touchy("p", 0),
            null, "s", 7, 1L << 40, true, 2.5, 'c', new int[]{1}, List.of("x"), Thread.State.NEW, e));
      }
    }
  }

  private static void copies(Ctx c) {
    List<StateEvent<Object>> evs = new ArrayList<>();
    List<String> names = new ArrayList<>();
    List<Object> pay = new ArrayList<>();
    List<String> pool = new ArrayList<>();
    int n = c.d.size(2, 16, 60);
    boolean changed = false;
    int copies = 0;
    StringBuilder hist = new StringBuilder();
    for (int i = 0; i < n; i++) {
      int op = evs.isEmpty() ? 0 : c.d.weighted(1, 3, 4);
      if (op == 0) {
        String s = name(c, pool);
        boolean own = s != null && c.d.chance(1, 3);
        evs.add(own ? new Cfg.OwnEvent(s) : new NamedStateEvent<>(s));
        names.add(s);
        pay.add(null);
        hist.append(own ? " O" : " N").append(s);
        c.note("event " + (evs.size() - 1) + " '" + s + "'" + (own ? " of own type" : ""));
      } else if (op == 1) {
        int x = c.d.below(evs.size());
        evs.add(new NamedStateEvent<>(evs.get(x)));
        names.add(names.get(x));
        pay.add(pay.get(x));
        copies++;
        hist.append(" c").append(x);
        c.note("event " + (evs.size() - 1) + " is a copy of " + x);
      } else {
        int x = c.d.below(evs.size());
        Object p = c.d.pick(new Tok("t" + i, 0), new Tok.Same("t" + i, 0),
            new Tok.Touchy("t" + i, 0), null, i + 1000, "s" + i, new int[]{i}, evs.get(x),
            Thread.State.NEW, new ArrayList<>(), new HashMap<>());
        evs.get(x).setPayload(p);
        changed |= copies > 0 && pay.get(x) != p;
        pay.set(x, p);
        hist.append(" p").append(x);
        c.note("payload of event " + x + " = " + p);
      }
      for (int j = 0; j < evs.size(); j++) {
        c.eq(names.get(j), evs.get(j).getName(), "name of event " + j);
        c.same(pay.get(j), evs.get(j).getPayload(), "payload of event " + j);
        if (j > 0 && evs.get(j).getClass() == evs.get(0).getClass()) {
          c.eq(Objects.equals(names.get(j), names.get(0)), evs.get(j).equals(evs.get(0)),
              "equality of events 0 and " + j);
        }
      }
    }
    if (changed) {
      c.nontrivial(hist.toString());
    }
  }

  private static void machine(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 4;
    o.customEvents = true;
    Cfg cfg = Cfg.gen(c.d, o);
    ManualExec ex = new ManualExec();
    boolean dup = c.d.chance(1, 4);
    World w = new World(cfg, "m");
    List<State<Object, Object>> alt = w.instances();
    w.sm = new GenericStateMachine.Builder<Object, Object>().setContext(w.ctx)
        .setStateMachineListener(w.listener)
        .setEventProcessingStrategy(World.strategy(dup, w.config(ex))).build();
    cfg.apply(w.sm, w.inst, alt, c.d);
    Model m = new Model(cfg);
    m.dropDup = dup;
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : ""));
    List<String> exp = new ArrayList<>();
    StringBuilder hist = new StringBuilder();
    List<Integer> can = new ArrayList<>();
    for (int i = 0; i < cfg.states(); i++) {
      if (cfg.configured.get(i) && !cfg.imm.get(i)) {
        can.add(i);
      }
    }
    if (c.d.bool() && !can.isEmpty()) {
      int in = c.d.pick(can);
      w.sm.startInState(w.instances().get(in));
      m.started = true;
      m.cur = in;
      hist.append("in").append(in);
      c.note("started in '" + cfg.st.get(in) + "'");
    } else {
      w.sm.start();
      exp.addAll(m.start());
    }
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
    int n = c.d.size(1, 16, 60);
    for (int i = 0; i < n; i++) {
      int e = c.d.below(cfg.ev.size());
      Tok t = c.d.chance(1, 3) ? null : new Tok("t" + i, c.d.below(2));
      hist.append(' ').append(e);
      c.note("fire '" + cfg.ev.get(e) + "' " + t);
      exp.addAll(m.fire(e, t));
      w.fire(e, t);
      if (c.d.chance(2, 3)) {
        ex.drain();
        exp.addAll(m.drain());
      }
    }
    ex.drain();
    exp.addAll(m.drain());
    Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "trace");
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
    if (m.realTransitions >= 3) {
      c.nontrivial(cfg + hist.toString());
    }
  }
}
