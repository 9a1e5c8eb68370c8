package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import java.util.concurrent.ExecutorService;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Several machines at once. */
final class C11 {

  private C11() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 25000, 1_000_000, C11::seq).rule(
        "2-4 machines whose strategies come from one Config (shared executor, handlers, bound), "
            + "random interleaved history; each machine's trace, queue size and state compared with "
            + "its own model; non-trivial: events were waiting in two machines at once"));
    l.add(new Part("coop", 6000, 150_000, C11::coop).inst().fresh().rule(
        "2-4 machines from one Builder, with default strategies, or from one Config, fired and "
            + "stopped by 1-3 threads and by each other's actions, random schedule, fresh static "
            + "state; every machine's history checked alone; non-trivial: two machines processed "
            + "events and there was a preemption or more than one firing thread"));
    l.add(new Part("apps", 1500, 60_000, C14::several).inst().fresh().rule(
        "two applications in one process driven at the same time, random schedule; each one's "
            + "lifecycle, subsystem calls and start calls checked alone"));
    return l;
  }

  /** hands what concerns a machine to that machine's recorder */
  private static final class Router implements UnexpectedFlowListener<Object, Object> {

    final List<World> ws = new ArrayList<>();
    final List<String> lost = new ArrayList<>();

    private World of(StateMachine<Object, Object> m, String what) {
      for (World w : ws) {
        if (w.sm == m) {
          return w;
        }
      }
      synchronized (lost) {
        lost.add(what + " with unknown machine " + m);
      }
      return null;
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> e,
        StateMachine<Object, Object> m, Thread t, Exception x) {
      World w = of(m, "exception " + x);
      if (w != null) {
        w.flow.onExceptionDuringEventProcessing(e, m, t, x);
      }
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
      World w = of(m, "after end");
      if (w != null) {
        w.flow.onEventAfterMachineEnd(e, m);
      }
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
      World w = of(m, "before start");
      if (w != null) {
        w.flow.onEventBeforeMachineStart(e, m);
      }
    }

    void unmapped(StateEvent<Object> e, StateMachine<Object, Object> m) {
      World w = of(m, "unmapped");
      if (w != null) {
        w.unmapped.accept(e, m);
      }
    }

    EventProcessingStrategyFactory.Config<Object, Object> config(ExecutorService ex, int bound) {
      EventProcessingStrategyFactory.Config<Object, Object> k =
          new EventProcessingStrategyFactory.Config<Object, Object>().withUnmappedEventHandler(
              this::unmapped).withUnexpectedFlowListener(this).withMaxQueueSize(bound);
      if (ex != null) {
        k.withExecutor(ex);
      }
      return k;
    }
  }

  private static void seq(Ctx c) {
    int k = c.d.weighted(4, 2, 1) + 2;
    boolean same = c.d.bool();
    int bound = c.d.chance(1, 3) ? c.d.range(1, 4) : -1;
    boolean fail = c.d.chance(1, 3);
    Cfg.Opts o = new Cfg.Opts();
    o.odd = false;
    o.ends = !fail && c.d.bool();
    o.bare = o.imm = o.ends;
    ManualExec ex = new ManualExec();
    Router r = new Router();
    EventProcessingStrategyFactory.Config<Object, Object> conf = r.config(ex, bound);
    List<Model> ms = new ArrayList<>();
    List<List<String>> exp = new ArrayList<>();
    List<Cfg> cfgs = new ArrayList<>();
    // the Config is changed after a strategy has been created with it
    boolean changes = c.d.chance(1, 3);
    for (int i = 0; i < k; i++) {
      if (changes && i > 0) {
        bound = c.d.chance(1, 2) ? c.d.range(1, 4) : -1;
        conf.withMaxQueueSize(bound).withThreadName("other" + i);
      }
      Cfg cfg = same && i > 0 ? cfgs.get(0) : Cfg.gen(c.d, o);
      cfgs.add(cfg);
      World w = new World(cfg, "m" + i);
      w.ctx = context(c);
      boolean dup = c.d.chance(1, 3);
      r.ws.add(w);
      w.build(World.strategy(dup, conf), c.d);
      Model m = new Model(cfg);
      m.dropDup = dup;
      m.bound = bound;
      ms.add(m);
      exp.add(new ArrayList<>());
      c.note("machine " + i + (dup ? " drop-duplicate" : "") + " bound " + bound + ": " + cfg);
    }
    if (changes) {
      Decoy.into(conf);
    }
    StringBuilder hist = new StringBuilder();
    boolean both = false;
    int n = c.d.size(2, 30, 100);
    for (int i = 0; i < n; i++) {
      int q = c.d.below(k);
      World w = r.ws.get(q);
      Model m = ms.get(q);
      int op = c.d.weighted(9, 2, 1);
      if (op == 0 && !m.started) {
        c.note("start machine " + q);
        hist.append(" s").append(q);
        exp.get(q).addAll(m.start());
        w.sm.start();
      } else if (op == 0) {
        int e = c.d.below(w.c.ev.size());
        Tok t = c.d.chance(1, 6) ? null : fail && c.d.chance(1, 3) ? new Tok("t" + i,
            c.d.weighted(4, 2), c.d.below(5), c.d.below(World.KINDS))
            : new Tok("t" + i, c.d.weighted(4, 2));
        c.note("machine " + q + ": fire '" + w.c.ev.get(e) + "' " + t);
        hist.append(" f").append(q).append('.').append(e);
        exp.get(q).addAll(m.fire(e, t));
        w.fire(e, t);
      } else if (op == 1) {
        c.note("pump");
        hist.append(" p");
        ex.drain();
        for (int j = 0; j < k; j++) {
          exp.get(j).addAll(ms.get(j).drain());
        }
      } else if (m.started && !m.ended) {
        c.note("stop machine " + q);
        hist.append(" x").append(q);
        w.sm.stop();
        m.ended = true;
        m.cur = Model.AT_END;
      }
      int busy = 0;
      for (int j = 0; j < k; j++) {
        Util.expectAll(c, Util.callbacks(r.ws.get(j).logCopy()), 0, exp.get(j), "machine " + j
            + " at step " + i);
        if (!ms.get(j).ended) {
          c.eq(ms.get(j).queue.size(), r.ws.get(j).sm.getEventQueueSize(), "events waiting in "
              + "machine " + j + " at step " + i);
        }
        c.eq(ms.get(j).curName(), World.stName(r.ws.get(j).sm.getCurrentState()),
            "state of machine " + j + " at step " + i);
        c.eq(ms.get(j).started, r.ws.get(j).sm.isStarted(), "started");
        c.eq(ms.get(j).ended, r.ws.get(j).sm.isEnded(), "ended");
        busy += ms.get(j).queue.isEmpty() ? 0 : 1;
      }
      both |= busy > 1;
    }
    ex.drain();
    for (int j = 0; j < k; j++) {
      exp.get(j).addAll(ms.get(j).drain());
      Util.expectAll(c, Util.callbacks(r.ws.get(j).logCopy()), 0, exp.get(j), "machine " + j
          + " finally");
      c.same(r.ws.get(j).ctx, r.ws.get(j).sm.getContext(), "context of machine " + j);
    }
    c.check(r.lost.isEmpty(), "reports with another machine: " + r.lost);
    c.labelIf(both, "waiting in two machines");
    c.labelIf(bound > 0, "bound");
    c.labelIf(fail, "failures");
    if (both) {
      c.nontrivial(cfgs + hist.toString() + bound);
    }
  }

  private static void coop(Ctx c) {
    int mode = c.d.below(4);
    int k = c.d.weighted(4, 2, 1) + 2;
    boolean shared = mode >= 2;
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.odd = false;
    o.maxActs = 2;
    o.endW = c.d.chance(1, 3) ? 1 : 0;
    o.imm = o.endW > 0;
    o.bare = o.endW > 0;
    if (!shared) {
      // what the default handlers are told cannot be seen here
      o.unmappedW = 0;
    }
    int threads = shared && c.d.chance(1, 4) ? 2 : 1;
    boolean own = threads > 1 || c.d.bool();
    int bound = shared && c.d.chance(1, 3) ? c.d.range(1, 3) : -1;
    boolean fail = shared && bound < 0 && c.d.chance(1, 3);
    if (fail) {
      o.imm = o.bare = false;
    }
    Router r = new Router();
    boolean[] dup = new boolean[k];
    boolean[] inClient = new boolean[k];
    // thread names of the machines that have a Config of their own
    String[] name = new String[k];
    List<List<Object[]>> plan = new ArrayList<>();
    StringBuilder desc = new StringBuilder("mode " + mode + (own ? " own executor " + threads : "")
        + " bound " + bound);
    for (int i = 0; i < k; i++) {
      dup[i] = mode >= 1 && c.d.chance(1, 3);
      o.fires = !dup[i];
      r.ws.add(new World(Cfg.gen(c.d, o), "m" + i));
      r.ws.get(i).ctx = context(c);
      inClient[i] = mode == 1 && c.d.bool();
      name[i] = mode == 1 && c.d.bool() ? "n" + c.d.below(k) : null;
    }
    int id = 0;
    for (int i = 0; i < k; i++) {
      World w = r.ws.get(i);
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      desc.append(dup[i] ? " | drop-dup" : " |").append(inClient[i] ? " built there" : "")
          .append(name[i] == null ? "" : " thread name " + name[i]);
      for (int j = 0; j < n; j++) {
        if (c.d.chance(1, 12)) {
          ops.add(new Object[]{-1, null});
          desc.append(" stop");
          continue;
        }
        int e = c.d.below(w.c.baseEvents());
        Tok t = fail && c.d.chance(1, 3) ? new Tok("t" + id++, 0, c.d.below(4),
            c.d.below(World.KINDS)) : new Tok("t" + id++, dup[i] ? 0 : c.d.below(2));
        if (dup[i]) {
          e = w.c.alias(e, j);
        }
        ops.add(new Object[]{e, t});
        desc.append(' ').append(w.c.ev.get(e)).append(t);
      }
      plan.add(ops);
      c.note("machine " + i + ": " + w.c);
    }
    // one machine's callback fires at another machine
    int from = c.d.chance(1, 2) ? c.d.below(k) : -1;
    if (from >= 0) {
      int at = c.d.below(8);
      int to = (from + 1 + c.d.below(k - 1)) % k;
      World w = r.ws.get(to);
      int e = c.d.below(w.c.baseEvents());
      int ev = dup[to] ? w.c.alias(e, 77) : e;
      int[] seen = {0};
      desc.append(" callback ").append(at).append(" of machine ").append(from)
          .append(" fires at machine ").append(to);
      r.ws.get(from).hook = x -> {
        if (History.isCallback(x) && seen[0]++ == at && w.sm != null && w.sm.isStarted()) {
          w.fire(ev, new Tok("cross", 0));
        }
      };
    }
    c.note(desc.toString());
    CoopExec[] ex = {null};
    try (Coop co = new Coop(c)) {
      Runnable[] build = new Runnable[k];
      co.alone("setup", () -> {
        ex[0] = shared && own ? new CoopExec(threads, null) : null;
        EventProcessingStrategyFactory.Config<Object, Object> conf =
            shared ? r.config(ex[0], bound) : null;
        GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
        for (int i = 0; i < k; i++) {
          World w = r.ws.get(i);
          boolean d = dup[i];
          String named = name[i];
          GenericStateMachine.Builder<Object, Object> bi =
              mode == 0 || c.d.bool() && !inClient[i] ? b : new GenericStateMachine.Builder<>();
          build[i] = () -> {
            if (mode > 0) {
              EventProcessingStrategy<Object, Object> s = conf != null ? World.strategy(d, conf)
                  : named != null ? World.strategy(d, new EventProcessingStrategyFactory
                      .Config<Object, Object>().withThreadName(named))
                  : d ? EventProcessingStrategyFactory.createDropDuplicateStrategy()
                      : EventProcessingStrategyFactory.createDefaultStrategy();
              bi.setEventProcessingStrategy(s);
            }
            w.build(bi.setContext(w.ctx).setStateMachineListener(w.listener).build(), c.d);
            C02.start(w);
          };
          if (!inClient[i]) {
            build[i].run();
          }
        }
      });
      for (int i = 0; i < k; i++) {
        World w = r.ws.get(i);
        List<Object[]> ops = plan.get(i);
        Runnable b = inClient[i] ? build[i] : null;
        co.client("client" + i, () -> {
          if (b != null) {
            b.run();
          }
          for (Object[] op : ops) {
            if ((int) op[0] < 0) {
              w.mark("STOP", null, null, "");
              w.sm.stop();
            } else {
              w.fire((int) op[0], (Tok) op[1]);
            }
          }
        });
      }
      co.go();
      c.note("schedule: " + co.s.steps() + " steps, " + co.s.preemptions() + " preemptions");
      for (World w : r.ws) {
        for (Rec x : w.logCopy()) {
          c.note(w.tag + ": " + x + " @" + x.thread.getName());
        }
      }
      List<Sched.Uncaught> out = new ArrayList<>(co.s.uncaught);
      if (ex[0] != null) {
        out.addAll(ex[0].escaped);
      }
      for (Sched.Uncaught u : out) {
        boolean known = false;
        for (World w : r.ws) {
          known |= w.threw(u.error) && u.error instanceof Error;
        }
        c.check(known, "escaped: " + u + " at " + Coop.top(u.error));
      }
      c.check(r.lost.isEmpty(), "reports with another machine: " + r.lost);
      int active = 0;
      for (int i = 0; i < k; i++) {
        World w = r.ws.get(i);
        for (Rec x : w.logCopy()) {
          if (!own && (x.is("BEGIN") || x.is("END") || x.is("ENTRY") || x.is("EXIT"))
              && !Names.IMM.equals(x.ev)) {
            try {
              C17.named(x.thread, name[i] == null ? "state-machine" : name[i]);
            } catch (Violation v) {
              throw new Violation("machine " + i + ": callback on " + v.getMessage(), v);
            }
          }
        }
        try {
          active += check(c, w, plan.get(i), threads == 1, bound) > 0 ? 1 : 0;
        } catch (Violation v) {
          throw new Violation("machine " + i + ": " + v.getMessage(), v);
        }
      }
      c.label(mode == 0 ? "one builder" : mode == 1 ? "default strategies" : "one config");
      c.labelIf(from >= 0, "fires across");
      if (active > 1) {
        c.nontrivial(desc + r.ws.get(0).c.toString() + co.s.steps());
      }
    }
  }

  /** contexts may be equal */
  private static Object context(Ctx c) {
    return c.d.pick(new Object(), new ArrayList<>(), new ArrayList<>());
  }

  private static int check(Ctx c, World w, List<Object[]> plan, boolean fifo, int bound) {
    Set<Rec> rej = new HashSet<>();
    for (Rec x : w.logCopy()) {
      if (x.is("EXC") && !w.threw(x.obj)) {
        if (bound < 0 || !(x.obj instanceof IllegalStateException)) {
          throw new Violation("reported " + x.obj + " at " + Coop.top((Throwable) x.obj));
        }
        rej.add(x);
      }
    }
    boolean stops = plan.stream().anyMatch(p -> (int) p[0] < 0);
    History h = new History(w);
    h.fifo = fifo;
    h.stopped = stops;
    if (stops) {
      // the traces of stopped machines are the business of C03; here only that nothing is foreign
      h.index(rej);
      for (Rec x : h.log) {
        Object key = x.pay instanceof Tok ? x.pay : x.ev;
        if (History.isCallback(x) && !Names.IMM.equals(x.ev) && !h.fires.containsKey(key)) {
          throw new Violation("callback of an event that was never fired: " + x);
        }
      }
      c.eq(true, w.sm.isEnded(), "ended");
      return h.fires.size();
    }
    h.check(rej);
    if (bound > 0) {
      Waits ws = new Waits(h);
      for (History.Fire f : h.fires.values()) {
        if (f.rejected > 0 && !ws.possible(f, f.call, Math.min(f.ret, h.log.size() - 1), bound,
            g -> true)) {
          Waits.fail("event " + f + " was rejected although never " + bound
              + " events of its machine waited", h);
        }
      }
    }
    c.eq(h.m.curName(), World.stName(w.sm.getCurrentState()), "final state");
    c.eq(h.m.ended, w.sm.isEnded(), "final isEnded");
    c.eq(0, w.sm.getEventQueueSize(), "final queue size");
    c.same(w.ctx, w.sm.getContext(), "context");
    return h.processed.size();
  }
}
