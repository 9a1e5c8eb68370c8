package vp.props;

import com.webotech.statemachine.api.State;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** An ended machine stays ended. */
final class C03 {

  private C03() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 30000, 1_000_000, C03::seq).rule(
        "random configuration and history of fire, pump, stop (also from inside a callback), start "
            + "attempts; exact traces up to the end, then nothing but after-end reports; "
            + "non-trivial: the machine ended and something was fired or attempted afterwards"));
    l.add(new Part("coop", 9000, 300_000, C03::coop).inst().rule(
        "random configuration, 1-3 firing threads, 1-2 stopping threads, an observer, start racing "
            + "or not, random schedule; non-trivial: a stop() overlapped the processing of an event "
            + "or the initial transition, or events were waiting when it was called"));
    return l;
  }

  // ------------------------------------------------------------------ sequential

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.endW = 2;
    Cfg cfg = Cfg.gen(c.d, o);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    boolean dup = c.d.chance(1, 4);
    w.build(World.strategy(dup, w.config(ex)), c.d);
    Model m = new Model(cfg);
    m.dropDup = dup;
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : ""));
    // stop at the n-th callback, from inside it
    int at = c.d.chance(1, 3) ? c.d.below(12) : -1;
    int[] seen = {0};
    boolean[] stoppedInside = {false};
    int[] stopPos = {-1};
    String[] stopEv = {null};
    w.hook = r -> {
      if (at >= 0 && !stoppedInside[0] && w.sm.isStarted() && seen[0]++ == at) {
        stoppedInside[0] = true;
        w.sm.stop();
        ended(c, w, "right after stop() inside " + r);
        stopPos[0] = w.logCopy().size();
        stopEv[0] = World.payStr(r.pay) + "/" + r.ev;
      }
    };
    StringBuilder hist = new StringBuilder("stopAt" + at);
    w.sm.start();
    List<String> exp = new ArrayList<>(m.start());
    int n = c.d.size(1, 20, 60);
    int tok = 0;
    int later = 0;
    boolean stopped = false;
    int mark = -1;
    for (int i = 0; i < n; i++) {
      boolean over = stopped || stoppedInside[0] || m.ended;
      if (stoppedInside[0] && mark < 0) {
        // the in-flight event may finish in any way, nothing else may
        inside(c, w, stopPos[0], stopEv[0]);
        ended(c, w, "after the event in flight");
        mark = w.logCopy().size();
      } else if (!stoppedInside[0] && mark < 0) {
        Util.expectAll(c, Util.callbacks(w.logCopy()), 0, exp, "step " + i);
        c.eq(m.ended, w.sm.isEnded(), "step " + i + ": isEnded");
        if (m.ended) {
          mark = w.logCopy().size();
        }
      }
      int k = c.d.weighted(8, 4, over ? 2 : 1, 1);
      if (k == 0) {
        int e = c.d.below(cfg.ev.size());
        Tok t = c.d.chance(1, 4) ? null : new Tok("t" + tok++, c.d.weighted(4, 2, 1));
        c.note("fire '" + cfg.ev.get(e) + "' " + t);
        hist.append(" f").append(e);
        if (over) {
          int before = w.logCopy().size();
          w.fire(e, t);
          List<String> cb = Util.callbacks(w.logCopy().subList(before, w.logCopy().size()));
          c.eq(List.of("AFTER '" + cfg.ev.get(e) + "'" + (t == null ? "" : t) + "  cur='_END_'"), cb,
              "fire after the end");
          later++;
        } else {
          w.fire(e, t);
          exp.addAll(m.fire(e, t));
        }
      } else if (k == 1) {
        c.note("pump");
        hist.append(" p");
        int before = w.logCopy().size();
        ex.drain();
        if (over) {
          c.eq(List.of(), Util.callbacks(w.logCopy().subList(before, w.logCopy().size())),
              "callbacks from events processed after the end");
        } else {
          exp.addAll(m.drain());
        }
      } else if (k == 2) {
        c.note("stop()");
        hist.append(" s");
        int before = w.logCopy().size();
        w.sm.stop();
        stopped = true;
        later += over ? 1 : 0;
        mark = Math.max(mark, 0);
        ended(c, w, "right after stop()");
        c.eq(List.of(), Util.callbacks(w.logCopy().subList(before, w.logCopy().size())),
            "callbacks by stop() itself");
      } else {
        int before = w.logCopy().size();
        boolean direct = c.d.bool();
        State<Object, Object> to = w.inst.get(0);
        c.note("attempt to start again" + (direct ? "in a state" : ""));
        hist.append(" a");
        boolean ok = true;
        try {
          if (direct) {
            w.sm.startInState(to);
          } else {
            w.sm.start();
          }
        } catch (IllegalStateException x) {
          ok = false;
        }
        c.check(!ok, "a second start was accepted");
        c.eq(List.of(), Util.callbacks(w.logCopy().subList(before, w.logCopy().size())),
            "callbacks by a refused start");
        later += over ? 1 : 0;
      }
      if (over) {
        ended(c, w, "step " + i);
      }
    }
    ex.drain();
    boolean over = stopped || stoppedInside[0] || m.ended;
    if (over && !(m.ended && !stopped && !stoppedInside[0])) {
      ended(c, w, "finally");
    }
    c.check(ex.escaped.isEmpty(), "escaped to the executor: " + ex.escaped);
    c.labelIf(stopped, "stopped outside");
    c.labelIf(stoppedInside[0], "stopped inside a callback");
    c.labelIf(m.ended, "ended by configuration");
    if (over && later > 0) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  private static void ended(Ctx c, World w, String when) {
    c.check(w.sm.isEnded(), when + ": not ended");
    c.eq(Names.END, World.stName(w.sm.getCurrentState()), when + ": current state");
  }

  /** after a stop inside a callback of one event, only callbacks of that event and reports */
  private static void inside(Ctx c, World w, int pos, String ev) {
    List<Rec> log = w.logCopy();
    for (int i = pos; i < log.size(); i++) {
      Rec r = log.get(i);
      if (History.isCallback(r) && !(World.payStr(r.pay) + "/" + r.ev).equals(ev)) {
        throw new Violation("callback of another event after stop(): " + r);
      }
    }
  }

  // ------------------------------------------------------------------ scheduled

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 4;
    o.odd = false;
    o.maxActs = 2;
    o.fires = c.d.chance(1, 3);
    o.ends = o.bare = o.imm = c.d.chance(1, 3);
    Cfg cfg = Cfg.gen(c.d, o);
    int clients = c.d.range(1, 3);
    int stoppers = c.d.chance(1, 5) ? 2 : 1;
    boolean race = c.d.chance(1, 2);
    int threads = c.d.weighted(5, 2) == 0 ? 1 : c.d.range(2, 3);
    boolean own = threads > 1 || c.d.chance(2, 3);
    boolean gate = c.d.chance(1, 3);
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        ops.add(new Object[]{c.d.below(cfg.baseEvents()), new Tok("c" + i + "." + j, c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg);
    c.note((own ? "own executor with " + threads + " threads" : "default executor")
        + (race ? ", start races" : "") + ", " + stoppers + " stop threads");
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    boolean[] begun = {!race};
    boolean[] live = {false};
    w.hook = r -> {
      if (r.is("BEGIN")) {
        begun[0] = true;
      } else if (r.is("EXIT") || r.is("ENTRY")) {
        live[0] = true;
      }
      r.endedSeen = w.sm.isEnded();
    };
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(World.strategy(false, w.config(ex[0])), c.d);
        if (!race) {
          C02.start(w);
        }
      });
      live[0] = false;
      if (race) {
        co.client("starter", () -> C02.start(w));
      }
      for (int i = 0; i < stoppers; i++) {
        co.client("stopper" + i, () -> {
          Sched.block(() -> begun[0] && (!gate || live[0]), "running");
          w.mark("STOP", null, null, "");
          w.sm.stop();
          w.mark("STOPPED", null, null, "");
          if (!w.sm.isEnded() || !World.stName(w.sm.getCurrentState()).equals(Names.END)) {
            throw new Violation("not ended right after stop() returned: ended=" + w.sm.isEnded()
                + " state=" + World.stName(w.sm.getCurrentState()));
          }
        });
      }
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
        });
      }
      int reads = c.d.below(4);
      co.client("observer", () -> {
        boolean e = false;
        for (int i = 0; i < reads; i++) {
          Sched.point();
          boolean x = w.sm.isEnded();
          if (e && !x) {
            throw new Violation("isEnded() went back to false");
          }
          e = x;
          String s = World.stName(w.sm.getCurrentState());
          if (e && !s.equals(Names.END)) {
            throw new Violation("ended, but the current state reads " + s);
          }
        }
      });
      // a stopper waiting for an action that never comes is no problem
      Sched.End end = co.run();
      List<Rec> log = w.logCopy();
      boolean stopped = log.stream().anyMatch(r -> r.is("STOPPED"));
      if (end != Sched.End.IDLE && !(gate && !live[0] && end == Sched.End.DEADLOCK)) {
        throw new vp.core.HangViolation("does not come to rest: " + end + " " + co.s.endDetail());
      }
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      for (Rec r : log) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0) + " at "
            + Coop.top(ex[0].escaped.get(0).error));
      }
      if (stopped) {
        ended(c, w, "finally");
        c.eq(true, check(c, log, o.ends || o.bare || o.imm), "");
      } else {
        History h = new History(w);
        h.fifo = threads == 1;
        h.check(null);
        c.eq(h.m.ended, w.sm.isEnded(), "finally isEnded");
      }
      // now everything is quiet: later fires are only reported
      if (w.sm.isEnded()) {
        int before = w.logCopy().size();
        co.client("late", () -> w.fire(0, new Tok("late", 1))).run();
        List<String> cb = Util.callbacks(w.logCopy().subList(before, w.logCopy().size()));
        c.eq(List.of("AFTER '" + cfg.ev.get(0) + "'" + (cfg.ownEvent.get(0) ? "" : "#late")
            + "  cur='_END_'"), cb, "a fire long after the end");
        c.check(w.sm.isEnded() && World.stName(w.sm.getCurrentState()).equals(Names.END),
            "no longer ended");
      }
      boolean over = overlap(log);
      c.labelIf(over, "stop overlapped processing");
      c.labelIf(race, "start races");
      c.labelIf(threads > 1, "pool");
      if (over) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(log) + co.s.steps());
      }
    }
  }

  private static boolean check(Ctx c, List<Rec> log, boolean configuredEnds) {
    int firstStop = Integer.MAX_VALUE;
    int stopRet = Integer.MAX_VALUE;
    Map<Object, Integer> call = new HashMap<>();
    Map<Object, Integer> after = new HashMap<>();
    Map<Object, Boolean> processed = new HashMap<>();
    Object straggler = null;
    Object last = null;
    for (int i = 0; i < log.size(); i++) {
      Rec r = log.get(i);
      Object key = r.pay != null ? r.pay : String.valueOf(r.ev);
      if (r.is("STOP")) {
        firstStop = Math.min(firstStop, i);
      } else if (r.is("STOPPED")) {
        stopRet = Math.min(stopRet, i);
      } else if (r.is("FIRE")) {
        call.put(key, i);
      } else if (r.is("AFTER")) {
        if (after.merge(key, 1, Integer::sum) > 1) {
          throw new Violation("event reported twice after the end: " + r);
        }
        if (firstStop > i && !configuredEnds) {
          throw new Violation("event reported as after the end before the machine ended: " + r);
        }
        if (processed.containsKey(key)) {
          throw new Violation("event both processed and reported after the end: " + r);
        }
      } else if (History.isCallback(r)) {
        if (after.containsKey(key)) {
          throw new Violation("event reported after the end has another effect: " + r);
        }
        if (!key.equals(Names.IMM) && !call.containsKey(key)) {
          throw new Violation("callback of an event that was not fired: " + r);
        }
        if (call.getOrDefault(key, -1) > stopRet) {
          throw new Violation("event fired after stop() had returned is processed: " + r);
        }
        if (!key.equals(last) && processed.containsKey(key)) {
          throw new Violation("callbacks of an event are not contiguous, or it ran twice: " + r);
        }
        processed.put(key, true);
        last = key;
        if (i > stopRet) {
          if (straggler != null && !straggler.equals(key)) {
            throw new Violation("more than one event runs callbacks after stop() has returned: "
                + straggler + " and " + r);
          }
          straggler = key;
        }
        if (i > stopRet && !r.endedSeen) {
          throw new Violation("not ended in a callback after stop() has returned: " + r);
        }
        if (r.pre > stopRet && !r.text.endsWith("cur='_END_'") && !r.is("EXC")) {
          throw new Violation("current state is not _END_ after stop() has returned: " + r);
        }
      }
    }
    for (Map.Entry<Object, Integer> e : call.entrySet()) {
      if (e.getValue() > stopRet && after.getOrDefault(e.getKey(), 0) != 1) {
        throw new Violation("event fired after stop() had returned is not reported: "
            + e.getKey());
      }
    }
    return true;
  }

  /** a stop was called between callbacks of one event */
  private static boolean overlap(List<Rec> log) {
    for (int i = 0; i < log.size(); i++) {
      if (log.get(i).is("STOP")) {
        Rec b = null;
        Rec a = null;
        for (int j = 0; j < i; j++) {
          b = History.isCallback(log.get(j)) ? log.get(j) : b;
        }
        for (int j = log.size() - 1; j > i; j--) {
          a = History.isCallback(log.get(j)) ? log.get(j) : a;
        }
        if (a != null || b != null && !b.is("END")) {
          return true;
        }
      }
    }
    return false;
  }
}
