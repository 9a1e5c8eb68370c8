package vp.props;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.List;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Violation;

/** A machine starts exactly once and only when completely configured. */
final class C04 {

  private C04() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 30000, 1_000_000, C04::seq).rule(
        "random configuration with the configuration calls cut off or left with pending events at a "
            + "random place, start attempts and fires in between, then completed and run; "
            + "non-trivial: at least one refused start or early event, and events processed later"));
    l.add(new Part("coop", 9000, 300_000, C04::coop).inst().rule(
        "2-4 threads starting (normally or in a state), firing threads, observers, random schedule; "
            + "non-trivial: two start calls overlap, or an event was fired while starting"));
    return l;
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.open = false;
    o.big = true;
    Cfg cfg = Cfg.gen(c.d, o);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    boolean dup = c.d.chance(1, 4);
    w.sm = new com.webotech.statemachine.GenericStateMachine.Builder<Object, Object>().setContext(
        w.ctx).setStateMachineListener(w.listener).setEventProcessingStrategy(
        World.strategy(dup, w.config(ex))).build();
    c.note("machine: " + cfg);
    Model m = new Model(cfg);
    m.dropDup = dup;
    int[] tok = {0};
    int[] refused = {0};
    int[] early = {0};
    StringBuilder hist = new StringBuilder();
    Runnable poke = () -> {
      int n = c.d.weighted(3, 2, 1);
      for (int i = 0; i < n; i++) {
        int at = w.logCopy().size();
        if (c.d.chance(2, 3)) {
          boolean ok = true;
          c.note("start() attempt");
          hist.append(" start");
          try {
            w.sm.start();
          } catch (IllegalStateException x) {
            ok = false;
          }
          c.check(!ok, "an incompletely configured machine was started");
          c.eq(List.of(), Util.callbacks(w.logCopy().subList(at, w.logCopy().size())),
              "callbacks by a refused start");
          refused[0]++;
        } else {
          int e = c.d.below(cfg.ev.size());
          Tok t = c.d.bool() ? null : new Tok("b" + tok[0]++, 1);
          c.note("early fire " + e + " " + t);
          hist.append(" fire").append(e);
          w.fire(e, t);
          c.eq(List.of("BEFORE '" + cfg.ev.get(e) + "'" + (t == null ? "" : t) + "  cur='null'"),
              Util.callbacks(w.logCopy().subList(at, w.logCopy().size())), "an early fire");
          early[0]++;
        }
        c.check(!w.sm.isStarted(), "started although refused");
        c.check(!w.sm.isEnded(), "ended although never started");
        c.eq(0, w.sm.getEventQueueSize(), "queue size of a machine not started");
      }
    };
    if (c.d.bool()) {
      poke.run();
    }
    // all calls, with pokes at places where the configuration is incomplete
    StateMachine<Object, Object> sm = w.sm;
    sm.initialSate(w.inst.get(0));
    List<int[]> pend = new ArrayList<>();
    boolean open = true;
    for (int s = 0; s < cfg.states(); s++) {
      if (cfg.imm.get(s)) {
        if (s > 0 || !open) {
          sm.when(w.inst.get(s));
        }
        sm.itEnds();
        open = false;
        continue;
      }
      List<Integer> es = new ArrayList<>();
      for (int e = 0; e < cfg.ev.size(); e++) {
        if (cfg.to(s, e) != Cfg.UNMAPPED) {
          es.add(e);
        }
      }
      for (int i = 0; i < es.size(); i++) {
        int e = es.get(i);
        if (!open) {
          sm.when(w.inst.get(s));
          open = true;
        }
        sm.receives(cfg.event(e));
        hist.append(" r").append(s).append('.').append(e);
        if (c.d.chance(1, 4)) {
          poke.run();
        }
        if (i + 1 < es.size() && c.d.chance(1, 3)) {
          // go on with another event, this one is completed at the end
          c.note("state " + s + " event " + e + " left for later");
          pend.add(new int[]{s, e});
          hist.append("?");
          continue;
        }
        outcome(sm, w, cfg, s, e);
        open = false;
      }
    }
    while (!pend.isEmpty()) {
      if (c.d.chance(1, 2)) {
        poke.run();
      }
      int[] p = pend.remove(c.d.below(pend.size()));
      sm.when(w.inst.get(p[0]));
      sm.receives(cfg.event(p[1]));
      outcome(sm, w, cfg, p[0], p[1]);
    }
    List<Rec> log = w.logCopy();
    int at = log.size();
    boolean direct = c.d.chance(1, 4);
    List<String> exp = new ArrayList<>();
    if (direct) {
      int s = c.d.below(cfg.states());
      if (!cfg.configured.get(s) || cfg.imm.get(s)) {
        s = 0;
      }
      c.note("start in '" + cfg.st.get(s) + "'");
      w.sm.startInState(w.inst.get(s));
      m.started = true;
      m.cur = s;
      hist.append(" in").append(s);
    } else {
      c.note("start()");
      w.sm.start();
      exp.addAll(m.start());
    }
    c.check(w.sm.isStarted(), "not started");
    int n = c.d.size(0, 10, 40);
    for (int i = 0; i < n; i++) {
      int k = c.d.weighted(6, 3, 2);
      if (k == 0) {
        int e = c.d.below(cfg.ev.size());
        Tok t = c.d.chance(1, 4) ? null : new Tok("t" + tok[0]++, c.d.weighted(4, 2, 1));
        w.fire(e, t);
        exp.addAll(m.fire(e, t));
        c.note("fire " + e + " " + t);
        hist.append(" f").append(e);
      } else if (k == 1) {
        ex.drain();
        exp.addAll(m.drain());
        c.note("pump");
      } else {
        boolean in = c.d.bool();
        c.note("start again " + in);
        boolean ok = true;
        try {
          if (in) {
            w.sm.startInState(w.inst.get(0));
          } else {
            w.sm.start();
          }
        } catch (IllegalStateException x) {
          ok = false;
        }
        c.check(!ok, "a second start was accepted");
        refused[0]++;
      }
      Util.expectAll(c, Util.callbacks(w.logCopy().subList(at, w.logCopy().size())), 0, exp,
          "after the start");
      c.eq(m.curName(), World.stName(w.sm.getCurrentState()), "current state");
      c.eq(m.ended, w.sm.isEnded(), "isEnded");
      c.check(w.sm.isStarted(), "no longer started");
    }
    ex.drain();
    exp.addAll(m.drain());
    Util.expectAll(c, Util.callbacks(w.logCopy().subList(at, w.logCopy().size())), 0, exp, "finally");
    c.check(ex.escaped.isEmpty(), "escaped to the executor: " + ex.escaped);
    c.labelIf(refused[0] > 0, "refused");
    c.labelIf(early[0] > 0, "early events");
    c.labelIf(direct, "in a state");
    if (refused[0] + early[0] > 0 && m.processed > 0) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void outcome(StateMachine<Object, Object> sm, World w, Cfg cfg, int s, int e) {
    int t = cfg.to(s, e);
    if (t == Cfg.NOOP) {
      sm.itDoesNotTransition();
    } else if (t == Cfg.END) {
      sm.itEnds();
    } else {
      sm.itTransitionsTo(w.inst.get(t));
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 4;
    o.odd = false;
    o.maxActs = 2;
    o.fires = c.d.bool();
    o.bare = false;
    o.ends = o.imm = c.d.chance(1, 4);
    o.immInit = false;
    Cfg cfg = Cfg.gen(c.d, o);
    int starters = c.d.range(2, 4);
    int clients = c.d.range(0, 2);
    boolean own = c.d.chance(2, 3);
    int threads = own && c.d.chance(1, 4) ? 2 : 1;
    int[] in = new int[starters];
    StringBuilder how = new StringBuilder();
    for (int i = 0; i < starters; i++) {
      in[i] = c.d.chance(1, 3) ? c.d.below(cfg.states()) : -1;
      if (in[i] >= 0 && cfg.imm.get(in[i])) {
        in[i] = 0;
      }
      how.append(in[i] < 0 ? " start" : " in:" + cfg.st.get(in[i]));
    }
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        ops.add(new Object[]{c.d.below(cfg.baseEvents()), new Tok("c" + i + "." + j, c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note("starters:" + how + (own ? "; own executor " + threads : "; default executor"));
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    int[] won = {-1};
    int[] wins = {0};
    int[] startCalls = {0};
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(World.strategy(false, w.config(ex[0])), c.d);
      });
      for (int i = 0; i < starters; i++) {
        int me = i;
        co.client("starter" + i, () -> {
          w.mark("START", null, null, "by " + me);
          startCalls[0]++;
          try {
            if (in[me] < 0) {
              w.sm.start();
            } else {
              State<Object, Object> s = w.inst.get(in[me]);
              w.sm.startInState(s);
            }
          } catch (IllegalStateException x) {
            w.mark("REFUSED", null, null, "by " + me);
            if (!w.sm.isStarted()) {
              throw new Violation("start refused by a machine that is not started");
            }
            return;
          }
          w.mark("STARTED", null, null, "by " + me);
          wins[0]++;
          won[0] = me;
          if (!w.sm.isStarted()) {
            throw new Violation("start returned but the machine is not started");
          }
        });
      }
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      List<Rec> log = w.logCopy();
      for (Rec r : log) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0) + " at "
            + Coop.top(ex[0].escaped.get(0).error));
      }
      c.eq(1, wins[0], "number of start calls that took effect");
      int init = 0;
      int firstStart = Integer.MAX_VALUE;
      int overlapping = 0;
      int open = 0;
      boolean fireWhileOpen = false;
      for (int i = 0; i < log.size(); i++) {
        Rec r = log.get(i);
        if (r.is("BEGIN") && r.ev.equals(Names.IMM)) {
          init++;
          if (!r.thread.getName().equals("starter" + won[0])) {
            throw new Violation("the initial transition ran on another thread than that of the "
                + "start call that took effect");
          }
        }
        if (r.is("START")) {
          firstStart = Math.min(firstStart, i);
          open++;
          overlapping = Math.max(overlapping, open);
        } else if (r.is("STARTED") || r.is("REFUSED")) {
          open--;
        } else if (r.is("FIRE")) {
          fireWhileOpen |= open > 0;
        }
      }
      c.eq(in[won[0]] < 0 ? 1 : 0, init, "number of initial transitions");
      History h = new History(w);
      h.fifo = threads == 1;
      if (in[won[0]] >= 0) {
        h.expectInit = false;
        h.m.started = true;
        h.m.cur = in[won[0]];
      }
      h.check(null);
      for (History.Fire f : h.fires.values()) {
        if (f.ret < firstStart && f.before != 1) {
          throw new Violation("event " + f + " fired before any start was not reported so");
        }
      }
      c.eq(h.m.curName(), World.stName(w.sm.getCurrentState()), "final state");
      c.eq(h.m.ended, w.sm.isEnded(), "final isEnded");
      c.labelIf(overlapping > 1, "starts overlap");
      c.labelIf(fireWhileOpen, "fired while starting");
      c.labelIf(in[won[0]] >= 0, "started in a state");
      if (overlapping > 1 || fireWhileOpen) {
        c.nontrivial(cfg + how.toString() + plan + Util.callbacks(log) + co.s.steps());
      }
    }
  }
}
