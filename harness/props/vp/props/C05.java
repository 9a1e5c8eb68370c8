package vp.props;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import java.util.ArrayList;
import java.util.List;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;

/** Starting in a state equals having reached it. */
final class C05 {

  private C05() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("meta", 40000, 1_500_000, C05::meta).rule(
        "random configuration, a machine driven to a state by random events and an identical one "
            + "started in that state, then the same random events for both; traces equal to each "
            + "other and to the model; non-trivial: the prefix left the initial state or the suffix "
            + "made a real transition"));
    return l;
  }

  private static void meta(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.big = true;
    o.customEvents = true;
    o.unmappedW = 1;
    Cfg cfg = Cfg.gen(c.d, o);
    boolean dup = c.d.chance(1, 3);
    c.note("machine: " + cfg);
    ManualExec exA = new ManualExec();
    World a = new World(cfg, "a");
    a.build(World.strategy(dup, a.config(exA)), c.d);
    a.sm.start();
    exA.drain();
    Model m = new Model(cfg);
    m.dropDup = dup;
    m.start();
    m.drain();
    int n = c.d.size(0, 6, 40);
    StringBuilder hist = new StringBuilder();
    for (int i = 0; i < n && !m.ended; i++) {
      int e = c.d.below(cfg.ev.size());
      // stay away from ends so that there is something to resume
      Model x = m.copy();
      x.fire(e, null);
      x.drain();
      if (x.ended) {
        continue;
      }
      a.fire(e, null);
      exA.drain();
      m.fire(e, null);
      m.drain();
      hist.append(" ").append(e);
      c.note("first machine: fire '" + cfg.ev.get(e) + "'");
    }
    boolean reached = !m.ended;
    int s = reached ? m.cur : c.d.below(cfg.states());
    ManualExec exB = new ManualExec();
    World b = new World(cfg, "b");
    b.build(World.strategy(dup, b.config(exB)), c.d);
    // refused: never configured
    int tries = c.d.below(3);
    for (int i = 0; i < tries; i++) {
      int q = c.d.below(cfg.states() + 2);
      if (q < cfg.states() && cfg.configured.get(q)) {
        continue;
      }
      State<Object, Object> never = q < cfg.states() ? b.inst.get(q) : new NamedState<>(
          q == cfg.states() ? fresh(cfg) : c.d.pick(Names.END, Names.NOOP, Names.UNINIT));
      boolean ok = true;
      try {
        b.sm.startInState(never);
      } catch (IllegalStateException x) {
        ok = false;
      }
      c.check(!ok, "started in '" + never.getName()
          + "' that was never configured");
      c.check(!b.sm.isStarted() && !b.sm.isEnded(), "a refused start had an effect");
      c.label("refused");
    }
    if (!reached && !cfg.configured.get(s)) {
      s = 0;
    }
    c.note("second machine: start in '" + cfg.st.get(s) + "'");
    b.sm.startInState(b.inst.get(s));
    c.check(b.sm.isStarted(), "not started");
    c.check(!b.sm.isEnded(), "ended");
    c.eq(cfg.st.get(s), World.stName(b.sm.getCurrentState()), "current state after the start");
    exB.drain();
    c.eq(List.of(), Util.callbacks(b.logCopy()), "callbacks by starting in a state");
    c.check(!b.sm.isEnded(), "ended");
    Model mb = new Model(cfg);
    mb.dropDup = dup;
    mb.started = true;
    mb.cur = s;
    int atA = Util.callbacks(a.logCopy()).size();
    List<String> exp = new ArrayList<>();
    int k = c.d.size(1, 15, 120);
    int tok = 0;
    for (int i = 0; i < k; i++) {
      if (c.d.chance(2, 3)) {
        int e = c.d.below(cfg.ev.size());
        int fuel = c.d.weighted(3, 2, 1);
        boolean nul = c.d.chance(1, 4);
        String id = "t" + tok++;
        hist.append(" f").append(e).append(nul ? "" : "." + fuel);
        c.note("fire '" + cfg.ev.get(e) + "' " + (nul ? "no payload" : id + " fuel " + fuel));
        if (reached) {
          a.fire(e, nul ? null : new Tok(id, fuel));
        }
        b.fire(e, nul ? null : new Tok(id, fuel));
        exp.addAll(mb.fire(e, nul ? null : new Tok(id, fuel)));
      } else {
        hist.append(" p");
        c.note("pump");
        exA.drain();
        exB.drain();
        exp.addAll(mb.drain());
        Util.expectAll(c, Util.callbacks(b.logCopy()), 0, exp, "resumed machine");
      }
    }
    exA.drain();
    exB.drain();
    exp.addAll(mb.drain());
    List<String> la = Util.callbacks(a.logCopy());
    List<String> lb = Util.callbacks(b.logCopy());
    if (reached) {
      Util.expectAll(c, lb, 0, la.subList(atA, la.size()), "resumed versus reached");
      c.eq(World.stName(a.sm.getCurrentState()), World.stName(b.sm.getCurrentState()),
          "final states");
      c.eq(a.sm.isEnded(), b.sm.isEnded(), "isEnded");
    }
    Util.expectAll(c, lb, 0, exp, "resumed machine");
    c.eq(mb.curName(), World.stName(b.sm.getCurrentState()), "state of the resumed machine");
    c.eq(mb.ended, b.sm.isEnded(), "isEnded of the resumed machine");
    c.check(exB.escaped.isEmpty(), "escaped: " + exB.escaped);
    c.labelIf(reached, "compared with a machine that reached the state");
    c.labelIf(mb.ended, "ended");
    if (s != 0 || mb.realTransitions > 0) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static String fresh(Cfg cfg) {
    String n = "other";
    while (cfg.st.contains(n)) {
      n += "'";
    }
    return n;
  }
}
