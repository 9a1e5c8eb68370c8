package vp.props;

import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.StateEvent;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.TimeUnit;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Violation;

/** Callbacks see the payload an event had when it was fired. */
final class C06 {

  private C06() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 40000, 1_500_000, C06::seq).rule(
        "1-3 machines (default or drop-duplicate), shared event instances whose payload is set, "
            + "fired and set again while earlier fires still wait; every callback's payload compared "
            + "by identity through the model, and again at the end on the events kept; non-trivial: a payload was changed on an instance of "
            + "which an earlier fire was still waiting"));
    l.add(new Part("kinds", 20000, 500_000, C06::kinds).rule(
        "one machine, payloads of some 30 kinds (null, strings, numbers, arrays, collections, maps, "
            + "events, states, exceptions, the machine, lambdas...) set, fired and set again on shared "
            + "instances, at times set again by the last callback of each event; every callback sees the very object of its fire, in order; non-trivial: at "
            + "least 3 events fired and a payload changed while an earlier fire waited"));
    l.add(new Part("coop", 7000, 250_000, C06::coop).inst().rule(
        "1-3 threads, each setting payloads on its own instance and firing it repeatedly, random "
            + "schedule; non-trivial: at least two fires of one instance"));
    l.add(new Part("threads", 6, 120, C06::threads).racy().workers(1).rule(
        "real threads firing one instance each with ever new payloads, real executor"));
    l.add(Marathon.part(Marathon.REUSE));
    l.add(Kept.payloads());
    return l;
  }

  private static Tok tok(Ctx c, String id, int fuel) {
    int k = c.d.weighted(5, 1, 1);
    return k == 0 ? new Tok(id, fuel) : k == 1 ? new Tok.Same(id, fuel) : new Tok.Touchy(id, fuel);
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 4;
    o.ends = c.d.chance(1, 3);
    o.bare = o.imm = o.ends;
    Cfg cfg = Cfg.gen(c.d, o);
    int k = c.d.weighted(4, 2, 1) + 1;
    List<World> ws = new ArrayList<>();
    List<Model> ms = new ArrayList<>();
    List<ManualExec> exs = new ArrayList<>();
    List<List<String>> exp = new ArrayList<>();
    c.note("machine: " + cfg);
    for (int i = 0; i < k; i++) {
      ManualExec ex = new ManualExec();
      World w = new World(cfg, "m" + i);
      boolean dup = c.d.chance(1, 3);
      w.build(World.strategy(dup, w.config(ex)), c.d);
      Model m = new Model(cfg);
      m.dropDup = dup;
      ws.add(w);
      ms.add(m);
      exs.add(ex);
      w.sm.start();
      exp.add(new ArrayList<>(m.start()));
      ex.drain();
      exp.get(i).addAll(m.drain());
      c.note("machine " + i + (dup ? " drop-duplicate" : ""));
    }
    int ni = c.d.range(1, 3);
    List<StateEvent<Object>> pool = new ArrayList<>();
    int[] which = new int[ni];
    Tok[] cur = new Tok[ni];
    boolean[] pending = new boolean[ni];
    for (int i = 0; i < ni; i++) {
      which[i] = c.d.below(cfg.ev.size());
      pool.add(new NamedStateEvent<>(cfg.ev.get(which[i])));
    }
    StringBuilder hist = new StringBuilder();
    boolean changed = false;
    int n = c.d.size(2, 25, 80);
    int t = 0;
    for (int i = 0; i < n; i++) {
      int op = c.d.weighted(5, 6, 2);
      if (op == 0) {
        int x = c.d.below(ni);
        Tok nt = c.d.chance(1, 4) ? null : tok(c, "t" + t++, c.d.weighted(4, 1));
        pool.get(x).setPayload(nt);
        changed |= pending[x] && nt != cur[x];
        cur[x] = nt;
        c.note("instance " + x + " payload = " + nt);
        hist.append(" s").append(x).append(nt == null ? "n" : "");
      } else if (op == 1) {
        int x = c.d.below(ni);
        int q = c.d.below(k);
        c.note("machine " + q + ": fire instance " + x + " '" + cfg.ev.get(which[x]) + "'");
        hist.append(" f").append(x).append('.').append(q);
        ws.get(q).fire(pool.get(x), ws.get(q).sm);
        exp.get(q).addAll(ms.get(q).fire(which[x], cur[x]));
        pending[x] = true;
        c.same(cur[x], pool.get(x).getPayload(), "payload of the fired instance itself");
      } else {
        int q = c.d.below(k);
        c.note("pump machine " + q);
        hist.append(" p").append(q);
        exs.get(q).drain();
        exp.get(q).addAll(ms.get(q).drain());
      }
    }
    for (int q = 0; q < k; q++) {
      exs.get(q).drain();
      exp.get(q).addAll(ms.get(q).drain());
      Util.expectAll(c, Util.callbacks(ws.get(q).logCopy()), 0, exp.get(q), "machine " + q);
      c.check(exs.get(q).escaped.isEmpty(), "escaped: " + exs.get(q).escaped);
      kept(c, ws.get(q));
    }
    c.labelIf(k > 1, "several machines");
    c.labelIf(changed, "payload changed while waiting");
    if (changed) {
      c.nontrivial(cfg + hist.toString());
    }
  }

  /** an event that a callback kept still shows the payload it was delivered with */
  private static void kept(Ctx c, World w) {
    for (Rec r : w.logCopy()) {
      if (r.event != null && (r.is("BEGIN") || r.is("END") || r.is("ENTRY") || r.is("EXIT")
          || r.is("UNMAPPED"))) {
        c.same(r.pay, r.event.getPayload(), "payload now of the event that was delivered to <" + r
            + ">");
      }
    }
  }

  /** an object of some kind; a new one each time as far as the kind allows */
  @SuppressWarnings("removal")
  private static Object any(Ctx c, Object machine) {
    switch (c.d.below(31)) {
      case 1:
        return "";
      case 2:
        return new String("text");
      case 3:
        return new Integer(c.d.below(3));
      case 4:
        return new Long(1L << 40);
      case 5:
        return Boolean.TRUE;
      case 6:
        return new int[]{1, 2};
      case 7:
        return new Object[]{"a"};
      case 8:
        return new byte[0];
      case 9:
        return new ArrayList<>(List.of(1, 2));
      case 10:
        return new ArrayList<>();
      case 11:
        return List.of();
      case 12:
        return new java.util.HashMap<>(java.util.Map.of("k", "v"));
      case 13:
        return new java.util.HashSet<>();
      case 14:
        return new NamedStateEvent<Object>("inner");
      case 15:
        return new com.webotech.statemachine.NamedState<Object, Object>("inner");
      case 16:
        return new IllegalStateException("payload");
      case 17:
        return new StackOverflowError();
      case 18:
        return machine;
      case 19:
        return (Runnable) () -> { };
      case 20:
        return (java.util.function.Supplier<Object>) () -> "supplied";
      case 21:
        return java.util.Optional.of("o");
      case 22:
        return new StringBuilder("s");
      case 23:
        return new java.util.Date(0);
      case 24:
        return new java.util.concurrent.atomic.AtomicReference<>("r");
      case 25:
        return new java.lang.ref.WeakReference<>("w");
      case 26:
        return Thread.currentThread();
      case 27:
        return new Double(Double.NaN);
      case 28:
        return new Tok.Touchy("t", 0);
      case 29:
        return new java.util.concurrent.CompletableFuture<>();
      case 30:
        return java.util.concurrent.TimeUnit.DAYS;
      default:
        return new Object();
    }
  }

  private static void kinds(Ctx c) {
    ManualExec ex = new ManualExec();
    List<String> told = new ArrayList<>();
    List<Object> seen = new ArrayList<>();
    List<StateEvent<Object>> evs = new ArrayList<>();
    boolean listener = c.d.bool();
    // whoever sees an event last gives it another payload: no later event shows that
    boolean touch = c.d.chance(1, 3);
    java.util.function.Consumer<StateEvent<Object>> last = e -> {
      if (touch) {
        e.setPayload("touched");
      }
    };
    boolean dup = c.d.chance(1, 3);
    com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config<Object, Object> k =
        new com.webotech.statemachine.strategy.EventProcessingStrategyFactory
            .Config<Object, Object>().withExecutor(ex).withUnmappedEventHandler((e, m) -> {
              told.add("UNMAPPED " + e.getName());
              seen.add(e.getPayload());
              evs.add(e);
              last.accept(e);
            });
    com.webotech.statemachine.GenericStateMachine<Object, Object> sm =
        new com.webotech.statemachine.GenericStateMachine.Builder<Object, Object>()
            .setStateMachineListener(!listener ? null
                : new com.webotech.statemachine.api.StateMachineListener<Object, Object>() {
                  @Override
                  public void onStateChangeBegin(
                      com.webotech.statemachine.api.State<Object, Object> f, StateEvent<Object> e,
                      com.webotech.statemachine.api.State<Object, Object> t) {
                    told.add("BEGIN " + e.getName());
                    seen.add(e.getPayload());
                    evs.add(e);
                  }

                  @Override
                  public void onStateChangeEnd(
                      com.webotech.statemachine.api.State<Object, Object> f, StateEvent<Object> e,
                      com.webotech.statemachine.api.State<Object, Object> t) {
                    told.add("END " + e.getName());
                    seen.add(e.getPayload());
                    evs.add(e);
                    last.accept(e);
                  }
                }).setEventProcessingStrategy(World.strategy(dup, k)).build();
    com.webotech.statemachine.NamedState<Object, Object> s =
        new com.webotech.statemachine.NamedState<>("S");
    s.appendExitActions((e, m) -> {
      told.add("EXIT " + e.getName());
      seen.add(e.getPayload());
      evs.add(e);
    });
    s.appendEntryActions((e, m) -> {
      told.add("ENTRY " + e.getName());
      seen.add(e.getPayload());
      evs.add(e);
      if (!listener) {
        last.accept(e);
      }
    });
    // a moves, b does not, d is not mapped
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.when(s).receives(new NamedStateEvent<>("b")).itDoesNotTransition();
    sm.start();
    told.clear();
    seen.clear();
    evs.clear();
    List<String> exp = new ArrayList<>();
    List<Object> want = new ArrayList<>();
    String[] names = {"a", "b", "d"};
    int ni = c.d.range(1, 3);
    List<NamedStateEvent<Object>> pool = new ArrayList<>();
    Object[] cur = new Object[ni];
    boolean[] waits = new boolean[ni];
    for (int i = 0; i < ni; i++) {
      pool.add(new NamedStateEvent<>(names[c.d.below(3)]));
    }
    java.util.Set<String> queued = new java.util.HashSet<>();
    int n = c.d.size(2, 15, 60);
    int fired = 0;
    boolean changed = false;
    StringBuilder hist = new StringBuilder();
    c.note((dup ? "drop-duplicate" : "default") + (listener ? " with listener" : "") + (touch
        ? ", touched" : ""));
    for (int i = 0; i < n; i++) {
      int x = c.d.below(ni);
      switch (c.d.weighted(3, 4, 1)) {
        case 0:
          cur[x] = c.d.chance(1, 4) ? null : any(c, sm);
          pool.get(x).setPayload(cur[x]);
          changed |= waits[x];
          c.note("payload of instance " + x + ": " + (cur[x] == null ? "null"
              : cur[x].getClass().getName()));
          hist.append(" p").append(x).append(cur[x] == null ? "null"
              : cur[x].getClass().getSimpleName());
          break;
        case 1:
          String e = pool.get(x).getName();
          c.note("fire instance " + x + " " + e);
          hist.append(" f").append(x);
          sm.fire(pool.get(x));
          c.same(cur[x], pool.get(x).getPayload(), "payload of the fired instance itself");
          fired++;
          waits[x] = true;
          if (queued.add(e) || !dup) {
            for (String b : e.equals("d") ? new String[]{"UNMAPPED"} : e.equals("b")
                ? listener ? new String[]{"BEGIN", "END"} : new String[0]
                : listener ? new String[]{"BEGIN", "EXIT", "ENTRY", "END"}
                    : new String[]{"EXIT", "ENTRY"}) {
              exp.add(b + " " + e);
              want.add(cur[x]);
            }
          }
          break;
        default:
          c.note("pump");
          hist.append(" .");
          ex.drain();
          queued.clear();
          java.util.Arrays.fill(waits, false);
      }
    }
    ex.drain();
    c.check(ex.escaped.isEmpty(), "escaped: " + ex.escaped);
    c.eq(exp, told, "callbacks");
    for (int i = 0; i < want.size(); i++) {
      c.check(want.get(i) == seen.get(i), told.get(i) + " (number " + i
          + ") has not the very payload of its fire");
      c.check(touch || want.get(i) == evs.get(i).getPayload(), "the event kept by " + told.get(i)
          + " (number " + i + ") has another payload now");
    }
    if (fired > 2 && changed) {
      c.nontrivial(names.length + hist.toString() + dup + listener);
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.odd = false;
    o.maxActs = 2;
    o.fires = false;
    o.ends = o.bare = o.imm = false;
    Cfg cfg = Cfg.gen(c.d, o);
    boolean dup = c.d.chance(1, 3);
    int clients = c.d.range(1, 3);
    List<List<Tok>> plan = new ArrayList<>();
    int[] ev = new int[clients];
    for (int i = 0; i < clients; i++) {
      // one fire without payload at most: it is identified by the name
      ev[i] = cfg.alias(c.d.below(cfg.baseEvents()), i);
      List<Tok> ps = new ArrayList<>();
      int n = c.d.range(1, 4);
      boolean nul = false;
      for (int j = 0; j < n; j++) {
        boolean z = !nul && c.d.chance(1, 4);
        nul |= z;
        ps.add(z ? null : new Tok("c" + i + "." + j, 0));
      }
      plan.add(ps);
    }
    boolean own = c.d.chance(2, 3);
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : ""));
    c.note("fires: " + plan);
    World w = new World(cfg, "m");
    CoopExec[] ex = {null};
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        ex[0] = own ? new CoopExec(1, null) : null;
        w.build(World.strategy(dup, w.config(ex[0])), c.d);
        C02.start(w);
      });
      for (int i = 0; i < clients; i++) {
        int me = i;
        co.client("client" + i, () -> {
          StateEvent<Object> x = new NamedStateEvent<>(cfg.ev.get(ev[me]));
          for (Tok t : plan.get(me)) {
            x.setPayload(t);
            w.fire(x, w.sm);
            x.setPayload(new Tok("set-later", 0));
          }
        });
      }
      co.go();
      for (Rec r : w.logCopy()) {
        c.note(r + " @" + r.thread.getName());
      }
      co.nothingUncaught();
      if (ex[0] != null && !ex[0].escaped.isEmpty()) {
        throw new Violation("escaped to the executor: " + ex[0].escaped.get(0) + " at "
            + Coop.top(ex[0].escaped.get(0).error));
      }
      History h = new History(w);
      h.mayDrop = f -> dup;
      h.check(null);
      kept(c, w);
      if (plan.stream().anyMatch(p -> p.size() > 1)) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(w.logCopy()) + co.s.steps());
      }
    }
  }

  /** every payload arrives once, per thread in order */
  private static void threads(Ctx c) throws Exception {
    int n = 4;
    int per = 2000;
    ExecutorService ex = Executors.newSingleThreadExecutor(r -> {
      Thread t = new Thread(r);
      t.setDaemon(true);
      return t;
    });
    Object[][] sent = new Object[n][per];
    Object[][] got = new Object[n][per + 1];
    int[] count = new int[n];
    CountDownLatch done = new CountDownLatch(n * per);
    com.webotech.statemachine.NamedState<Object, Object> s =
        new com.webotech.statemachine.NamedState<>("S");
    s.appendEntryActions((e, m) -> {
      if (e.getName().startsWith("e")) {
        int q = Integer.parseInt(e.getName().substring(1));
        got[q][Math.min(per, count[q]++)] = e.getPayload();
        done.countDown();
      }
    });
    com.webotech.statemachine.GenericStateMachine<Object, Object> sm =
        new com.webotech.statemachine.GenericStateMachine.Builder<Object, Object>()
            .setEventProcessingStrategy(World.strategy(false,
                new com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config<Object,
                    Object>().withExecutor(ex))).build();
    sm.initialSate(s);
    for (int i = 0; i < n; i++) {
      if (i > 0) {
        sm.when(s);
      }
      sm.receives(new NamedStateEvent<>("e" + i)).itTransitionsTo(s);
    }
    sm.start();
    CountDownLatch go = new CountDownLatch(1);
    List<Thread> ts = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      int me = i;
      Thread t = new Thread(() -> {
        try {
          go.await();
        } catch (InterruptedException e) {
          return;
        }
        NamedStateEvent<Object> x = new NamedStateEvent<>("e" + me);
        for (int j = 0; j < per; j++) {
          Object p = j % 7 == 6 ? null : new Object();
          sent[me][j] = p;
          x.setPayload(p);
          sm.fire(x);
        }
      });
      t.setDaemon(true);
      t.start();
      ts.add(t);
    }
    go.countDown();
    for (Thread t : ts) {
      t.join();
    }
    boolean all = done.await(60, TimeUnit.SECONDS);
    ex.shutdown();
    ex.awaitTermination(10, TimeUnit.SECONDS);
    c.check(all, "events lost: " + done.getCount() + " of " + n * per + " never arrived");
    for (int i = 0; i < n; i++) {
      c.eq(per, count[i], "events of thread " + i);
      for (int j = 0; j < per; j++) {
        c.same(sent[i][j], got[i][j], "payload of fire " + j + " of thread " + i);
      }
    }
    c.nontrivial("run" + c.d.below(1 << 20));
  }
}
