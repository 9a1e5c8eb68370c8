package vp.props;

import java.util.ArrayList;
import java.util.List;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;

/** Sequential transition semantics against the reference model. */
final class C01 {

  private C01() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("model", 60000, 2_000_000, C01::model).rule(
        "random configuration (states, mappings, actions, immediate ends, odd names, own state/event"
            + " types) and random history of fires and executor pumps, exact callback trace and "
            + "state compared with the reference model; non-trivial: at least 3 events processed, "
            + "one real transition and one action run; distinct by configuration and history"));
    l.add(Own.part(false));
    l.add(Marathon.part(Marathon.PLAIN));
    l.add(new Part("own-event-payload", 1, 1, C01::ownEventPayload).known("own-event-payload").rule(
        "probe of a known finding: a user-defined event with a payload"));
    return l;
  }

  /** known finding: an event of the user's type that carries a payload misses its mapping */
  private static void ownEventPayload(Ctx c) {
    ManualExec ex = new ManualExec();
    Cfg cfg = new Cfg();
    World w = new World(cfg, "m");
    com.webotech.statemachine.NamedState<Object, Object> a =
        new com.webotech.statemachine.NamedState<>("A");
    com.webotech.statemachine.NamedState<Object, Object> b =
        new com.webotech.statemachine.NamedState<>("B");
    w.sm = new com.webotech.statemachine.GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(World.strategy(false, w.config(ex))).build();
    w.sm.initialSate(a).receives(new Cfg.OwnEvent("e")).itTransitionsTo(b).when(b).receives(
        new Cfg.OwnEvent("e")).itTransitionsTo(a);
    w.sm.start();
    Cfg.OwnEvent e = new Cfg.OwnEvent("e");
    w.sm.fire(e);
    ex.drain();
    c.eq("B", World.stName(w.sm.getCurrentState()), "state after the event without payload");
    e.setPayload("p");
    w.sm.fire(e);
    ex.drain();
    c.eq("A", World.stName(w.sm.getCurrentState()),
        "[own-event-payload] state after an event of a user-defined type that carries a payload");
  }

  private static void model(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.big = true;
    o.customEvents = true;
    Cfg cfg = Cfg.gen(c.d, o);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    w.build(World.strategy(false, w.config(ex)), c.d);
    Model m = new Model(cfg);
    c.note("machine: " + cfg);
    StringBuilder hist = new StringBuilder();
    c.check(!w.sm.isStarted() && !w.sm.isEnded(), "a new machine is neither started nor ended");
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    check(c, w, m, exp, "start()");
    c.check(w.sm.isStarted(), "not started after start()");
    int processed = 0;
    int n = c.d.size(0, 25, 400);
    int tok = 0;
    boolean dirty = true;
    for (int i = 0; i < n; i++) {
      int k = c.d.weighted(10, 5, 1);
      if (k == 0) {
        int e = c.d.below(cfg.ev.size());
        boolean nul = c.d.chance(1, 4);
        Tok t = nul ? null : new Tok("t" + tok++, c.d.weighted(4, 2, 1));
        hist.append(" fire(").append(e).append(nul ? ",null" : "," + t.fuel).append(")");
        c.note("fire '" + cfg.ev.get(e) + "' " + (nul ? "no payload" : t + " fuel " + t.fuel));
        exp.addAll(m.fire(e, t));
        w.fire(e, t);
        processed++;
        dirty = true;
      } else if (k == 1) {
        hist.append(" pump");
        c.note("pump");
        ex.drain();
        exp.addAll(m.drain());
        check(c, w, m, exp, "after pump");
        dirty = false;
      } else {
        // actions appended between events take part from then on
        if (!dirty && !m.ended) {
          int s = c.d.below(cfg.states());
          boolean entry = c.d.bool();
          Act a = new Act(cfg.nextAct++);
          (entry ? cfg.entry : cfg.exit).get(s).add(a);
          w.append(w.inst.get(s), a, entry);
          hist.append(" append(").append(s).append(entry).append(")");
          c.note("append " + a + " to " + (entry ? "entry" : "exit") + " of '" + cfg.st.get(s)
              + "'");
        }
      }
    }
    ex.drain();
    exp.addAll(m.drain());
    check(c, w, m, exp, "at the end");
    c.check(ex.escaped.isEmpty(), "escaped to the executor: " + ex.escaped);
    c.eq(0, w.sm.getEventQueueSize(), "event queue size after all is processed");
    c.labelIf(m.ended, "ended");
    c.labelIf(cfg.states() > 10, "big");
    c.labelIf(m.realTransitions > 0, "transitions");
    c.labelIf(exp.size() > 60, "long trace");
    if (processed >= 3 && m.realTransitions > 0 && m.actionsRun > 0) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void check(Ctx c, World w, Model m, List<String> exp, String when) {
    Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, when);
    c.eq(m.curName(), World.stName(w.sm.getCurrentState()), when + ": current state");
    c.eq(m.ended, w.sm.isEnded(), when + ": isEnded");
    c.same(w.ctx, w.sm.getContext(), when + ": context");
  }
}
