package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.List;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.HangViolation;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Machine status seen from any thread. */
final class C15 {

  private C15() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("coop", 30000, 600_000, C15::coop).inst().rule(
        "1-2 threads polling isStarted, isEnded and getCurrentState in random order while a machine "
            + "is started (or started in a state), fired at, ended or stopped by others, random "
            + "schedule; every read must suit the machine's history and the reads before it; "
            + "non-trivial: a poller saw at least two different states"));
    l.add(new Part("visible", 2, 12, C15::visible).racy().workers(1).rule(
        "real threads spinning on one status method each must see the change another thread makes"));
    return l;
  }

  /** one read */
  private static final class Poll {

    final int poller;
    /** s(tarted) e(nded) c(urrent state) */
    final char kind;
    final int pre;
    final int post;
    final Object value;

    Poll(int poller, char kind, int pre, int post, Object value) {
      this.poller = poller;
      this.kind = kind;
      this.pre = pre;
      this.post = post;
      this.value = value;
    }

    @Override
    public String toString() {
      return "p" + poller + (kind == 's' ? ".isStarted=" : kind == 'e' ? ".isEnded="
          : ".currentState=") + value + "[" + pre + "," + post + "]";
    }
  }

  /** a stretch of the machine's life */
  private static final class Stage {

    final String name;
    /** the state is not taken before log position lo, and is taken by position hi */
    final int lo;
    final int hi;

    Stage(String name, int lo, int hi) {
      this.name = name;
      this.lo = lo;
      this.hi = hi;
    }
  }

  private static int size(World w) {
    synchronized (w.log) {
      return w.log.size();
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.minStates = 2;
    o.maxStates = 4;
    o.maxEvents = 3;
    o.odd = false;
    o.maxActs = 2;
    o.unmappedW = 1;
    o.endW = c.d.chance(1, 2) ? 2 : 0;
    o.imm = o.bare = o.endW > 0;
    Cfg cfg = Cfg.gen(c.d, o);
    boolean race = c.d.bool();
    boolean own = c.d.chance(2, 3);
    boolean stop = c.d.chance(1, 5);
    int threads = own && c.d.chance(1, 5) ? 2 : 1;
    List<Integer> startable = new ArrayList<>();
    for (int i = 0; i < cfg.states(); i++) {
      if (cfg.configured.get(i) && !cfg.imm.get(i)) {
        startable.add(i);
      }
    }
    int in = c.d.chance(1, 4) && !startable.isEmpty() ? c.d.pick(startable) : -1;
    int pollers = c.d.range(1, 2);
    int reads = c.d.range(3, 24);
    StringBuilder kinds = new StringBuilder();
    for (int i = 0; i < pollers * reads; i++) {
      kinds.append(c.d.pick('c', 'c', 's', 'e'));
    }
    int[] waits = new int[pollers * reads];
    for (int i = 0; i < waits.length; i++) {
      waits[i] = c.d.chance(1, 3) ? 0 : c.d.pick(1, 1, 2, 3, 5, 9);
    }
    int clients = c.d.range(1, 2);
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        int e = c.d.below(cfg.baseEvents());
        ops.add(c.d.chance(1, 4) ? new Object[]{cfg.alias(e, i * 10 + j), null}
            : new Object[]{e, new Tok("c" + i + "." + j, c.d.below(2))});
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg + (in >= 0 ? " started in " + cfg.st.get(in) : "") + (race
        ? " start races" : "") + (stop ? " stopped" : ""));
    c.note(plan.size() + " firing threads, polls " + kinds);
    World w = new World(cfg, "m");
    List<Poll> polls = new ArrayList<>();
    w.hook = r -> {
      if (r.is("AFTER") || r.is("BEFORE")) {
        return;
      }
      if (!w.sm.isStarted()) {
        throw new Violation("isStarted is false in callback " + r);
      }
      r.endedSeen = w.sm.isEnded();
    };
    CoopExec[] ex = {null};
    int[] left = {clients};
    try (Coop co = new Coop(c)) {
      Runnable start = () -> {
        if (in >= 0) {
          w.mark("START", null, null, "");
          w.sm.startInState(w.inst.get(in));
          w.mark("STARTED", null, null, "");
        } else {
          C02.start(w);
        }
      };
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(threads, null) : null;
        w.build(World.strategy(false, w.config(ex[0])), c.d);
        if (!race) {
          start.run();
        }
      });
      if (race) {
        co.client("starter", start);
      }
      for (int i = 0; i < clients; i++) {
        List<Object[]> ops = plan.get(i);
        co.client("client" + i, () -> {
          for (Object[] op : ops) {
            w.fire((int) op[0], (Tok) op[1]);
          }
          left[0]--;
        });
      }
      if (stop) {
        co.client("stopper", () -> {
          Sched.block(() -> {
            for (Rec r : w.log) {
              if (r.is("STARTED") || r.is("BEGIN")) {
                return true;
              }
            }
            return false;
          }, "waits for start");
          w.mark("STOP", null, null, "");
          w.sm.stop();
          w.mark("STOPPED", null, null, "");
        });
      }
      for (int i = 0; i < pollers; i++) {
        int me = i;
        co.client("poller" + i, () -> {
          for (int j = 0; j < reads; j++) {
            char k = kinds.charAt(me * reads + j);
            int target = size(w) + waits[me * reads + j];
            Sched.block(() -> w.log.size() >= target || left[0] == 0, "waits");
            int pre = size(w);
            Object v;
            if (k == 'c') {
              State<Object, Object> s = w.sm.getCurrentState();
              v = s == null ? null : s.getName();
            } else {
              v = k == 's' ? w.sm.isStarted() : w.sm.isEnded();
            }
            polls.add(new Poll(me, k, pre, size(w), v));
          }
        });
      }
      co.go();
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      c.note(polls.toString());
      co.nothingUncaught();
      boolean two = order(w, polls, pollers);
      if (!stop) {
        History h = new History(w);
        h.fifo = threads == 1;
        if (in >= 0) {
          h.expectInit = false;
          h.m.started = true;
          h.m.cur = in;
        }
        h.check(null);
        timeline(h, polls, in);
        c.eq(h.m.curName(), World.stName(w.sm.getCurrentState()), "final state");
        c.eq(h.m.ended, w.sm.isEnded(), "final isEnded");
      } else {
        c.eq(Names.END, World.stName(w.sm.getCurrentState()), "final state");
        c.eq(true, w.sm.isEnded(), "final isEnded");
      }
      c.eq(true, w.sm.isStarted(), "final isStarted");
      c.labelIf(stop, "stopped");
      c.labelIf(race, "start races");
      c.labelIf(w.sm.isEnded(), "ended");
      if (two) {
        c.nontrivial(cfg + plan.toString() + polls + co.s.steps());
      }
    }
  }

  private static Violation bad(String msg, World w, List<Poll> polls, Poll at) {
    StringBuilder b = new StringBuilder(msg).append(" at ").append(at).append("; polls ");
    for (Poll p : polls) {
      if (p.poller == at.poller) {
        b.append(p).append(' ');
      }
      if (p == at) {
        break;
      }
    }
    List<Rec> l = w.logCopy();
    return new Violation(b + (l.size() < 60 ? " in " + l : ""));
  }

  /** what each poller saw makes sense by itself; did one see two states */
  private static boolean order(World w, List<Poll> polls, int pollers) {
    boolean two = false;
    for (int i = 0; i < pollers; i++) {
      boolean started = false;
      boolean ended = false;
      Object state = null;
      for (Poll p : polls) {
        if (p.poller != i) {
          continue;
        }
        if (p.kind == 's') {
          if (started && !(boolean) p.value) {
            throw bad("isStarted went back to false", w, polls, p);
          }
          if (state != null && !(boolean) p.value && Names.END.equals(state)) {
            throw bad("state _END_ was seen of a machine that is not started", w, polls, p);
          }
          started |= (boolean) p.value;
        } else if (p.kind == 'e') {
          if (ended && !(boolean) p.value) {
            throw bad("isEnded went back to false", w, polls, p);
          }
          ended |= (boolean) p.value;
        } else {
          if (started && p.value == null) {
            throw bad("a started machine has no current state", w, polls, p);
          }
          if (state != null && p.value == null) {
            throw bad("the current state is gone", w, polls, p);
          }
          if (ended && !Names.END.equals(p.value)) {
            throw bad("an ended machine is not in state _END_", w, polls, p);
          }
          if (Names.END.equals(state) && !Names.END.equals(p.value)) {
            throw bad("the state _END_ was left", w, polls, p);
          }
          two |= state != null && !state.equals(p.value);
          state = p.value;
        }
      }
    }
    return two;
  }

  private static void timeline(History h, List<Poll> polls, int in) {
    World w = h.w;
    int start = -1;
    int far = Integer.MAX_VALUE;
    List<Stage> st = new ArrayList<>();
    List<Rec> log = h.log;
    int firstCb = far;
    for (int i = 0; i < log.size(); i++) {
      if (log.get(i).is("START")) {
        start = i;
      }
      if ((log.get(i).is("STARTED") || History.isCallback(log.get(i))) && firstCb == far) {
        firstCb = i;
      }
    }
    st.add(new Stage(null, -1, -1));
    Model m = new Model(w.c);
    if (in >= 0) {
      m.started = true;
      m.cur = in;
    } else {
      m.init();
    }
    st.add(new Stage(w.c.st.get(in >= 0 ? in : 0), start, firstCb));
    if (m.ended) {
      st.add(new Stage(Names.END, h.initEnd, h.startRet));
    }
    int endLo = m.ended ? h.initEnd : far;
    int endHi = m.ended ? h.startRet : far;
    for (History.Fire f : h.processed) {
      int old = m.cur;
      m.process(f.ev, f.tok);
      if (old == Model.AT_END || w.c.to(old, f.ev) == Cfg.UNMAPPED
          || w.c.to(old, f.ev) == Cfg.NOOP) {
        continue;
      }
      int lo = -1;
      int hi = far;
      for (int i = f.first; i <= f.last; i++) {
        Rec r = log.get(i);
        Object key = r.pay instanceof Tok ? r.pay : r.ev;
        if (!History.isCallback(r) || !f.key.equals(key)) {
          continue;
        }
        if (r.is("BEGIN") || r.is("EXIT")) {
          lo = i;
        } else if (hi == far) {
          hi = i;
        }
      }
      int to = w.c.to(old, f.ev);
      if (to == Cfg.END) {
        st.add(new Stage(Names.END, lo, hi));
        endLo = lo;
        endHi = hi;
      } else {
        st.add(new Stage(w.c.st.get(to), lo, hi));
        if (m.ended) {
          st.add(new Stage(Names.END, f.last, far));
          endLo = f.last;
        }
      }
    }
    List<Poll> sorted = new ArrayList<>(polls);
    sorted.sort(Comparator.comparingInt(p -> p.pre));
    List<int[]> done = new ArrayList<>();
    for (Poll p : sorted) {
      // a record at position q was made before the read if q < pre, after it if q >= post
      if (p.kind == 's') {
        if ((boolean) p.value ? p.post <= start : p.pre > firstCb) {
          throw bad("isStarted is " + p.value, w, polls, p);
        }
        continue;
      }
      if (p.kind == 'e') {
        if ((boolean) p.value ? endLo == far || p.post <= endLo : endHi != far && p.pre > endHi) {
          throw bad("isEnded is " + p.value, w, polls, p);
        }
        continue;
      }
      int min = 0;
      for (int[] d : done) {
        if (d[0] == p.poller || d[1] < p.pre) {
          min = Math.max(min, d[2]);
        }
      }
      int k = -1;
      for (int i = min; i < st.size() && k < 0; i++) {
        Stage s = st.get(i);
        boolean begun = p.post > s.lo;
        boolean over = i + 1 < st.size() && p.pre > st.get(i + 1).hi;
        if (java.util.Objects.equals(s.name, p.value) && begun && !over) {
          k = i;
        }
      }
      if (k < 0) {
        throw bad("the machine was not in state " + p.value + " then", w, polls, p);
      }
      done.add(new int[]{p.poller, p.post, k});
    }
  }

  // ------------------------------------------------------------------ real threads

  private interface Spin {

    void until(GenericStateMachine<Object, Object> sm, State<Object, Object> s);
  }

  private static void visible(Ctx c) throws Exception {
    Spin[] spins = {
        (sm, s) -> {
          while (sm.getCurrentState() != s) {
            // nothing
          }
        },
        (sm, s) -> {
          long n = 0;
          while (!s.equals(sm.getCurrentState())) {
            n++;
          }
        },
        (sm, s) -> {
          while (!sm.isEnded()) {
            // nothing
          }
        },
        (sm, s) -> {
          while (!sm.isStarted()) {
            // nothing
          }
        },
        (sm, s) -> {
          while (sm.getCurrentState() == null || !sm.getCurrentState().getName().equals("_END_")) {
            // nothing
          }
        }};
    ExecutorService ex = Executors.newSingleThreadExecutor(r -> {
      Thread t = new Thread(r);
      t.setDaemon(true);
      return t;
    });
    for (int i = 0; i < spins.length; i++) {
      Spin spin = spins[i];
      NamedState<Object, Object> a = new NamedState<>("A");
      NamedState<Object, Object> b = new NamedState<>("B");
      NamedStateEvent<Object> e = new NamedStateEvent<>("e");
      NamedStateEvent<Object> x = new NamedStateEvent<>("x");
      GenericStateMachine<Object, Object> sm =
          new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
              World.strategy(false, new com.webotech.statemachine.strategy
                  .EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)))
              .build();
      sm.initialSate(a).receives(e).itTransitionsTo(b);
      sm.when(b).receives(x).itEnds();
      if (i != 3) {
        sm.start();
      }
      if (i == 4 || i == 2) {
        sm.fire(e);
      }
      AtomicInteger done = new AtomicInteger();
      List<Thread> ts = new ArrayList<>();
      for (int j = 0; j < 3; j++) {
        Thread t = new Thread(() -> {
          spin.until(sm, b);
          done.incrementAndGet();
        });
        t.setDaemon(true);
        t.start();
        ts.add(t);
      }
      Thread.sleep(250 + c.d.below(200));
      c.eq(0, done.get(), "threads that saw a change that was not made, trial " + i);
      if (i < 2) {
        sm.fire(e);
      } else if (i == 3) {
        sm.start();
      } else {
        sm.fire(x);
      }
      long limit = System.nanoTime() + TimeUnit.SECONDS.toNanos(20);
      for (Thread t : ts) {
        t.join(Math.max(1, (limit - System.nanoTime()) / 1_000_000));
        if (t.isAlive()) {
          throw new HangViolation("a thread polling the machine's status never sees the change, "
              + "trial " + i);
        }
      }
    }
    ex.shutdown();
    c.nontrivial("run" + c.d.below(1 << 20));
  }
}
