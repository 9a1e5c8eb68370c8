package vp.props;

import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Listener fan-out. */
final class C12 {

  private C12() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 40000, 1_500_000, C12::seq).rule(
        "random add/remove/notify history over listeners (some equal to each other, some throwing, "
            + "some adding or removing while being notified) against a set model; non-trivial: a "
            + "notification with at least 2 registered listeners after an add and a remove"));
    l.add(new Part("coop", 12000, 400_000, C12::coop).inst().rule(
        "2-4 threads adding, removing and notifying at random, random schedule; deliveries checked "
            + "against registration intervals, results of add and remove for linearizability; "
            + "non-trivial: a notification overlaps an add or remove"));
    l.add(Kept.listeners());
    l.add(new Part("threads", 4, 60, C12::threads).racy().workers(1).rule(
        "real threads adding and removing while others notify: stable listeners get every "
            + "notification, nothing fails"));
    return l;
  }

  /** a listener; equal to those with the same id if by id */
  private static final class L implements StateMachineListener<Object, Object> {

    final int id;
    final boolean byId;
    final List<Object[]> got = new ArrayList<>();
    Runnable during;
    Throwable fail;

    L(int id, boolean byId) {
      this.id = id;
      this.byId = byId;
    }

    private void told(boolean end, State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      synchronized (got) {
        got.add(new Object[]{end, f, e, t});
      }
      if (during != null) {
        during.run();
      }
      if (fail != null) {
        World.<RuntimeException>sneak(fail);
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      told(false, f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      told(true, f, e, t);
    }

    @Override
    public boolean equals(Object o) {
      return byId ? o instanceof L && ((L) o).byId && ((L) o).id == id : this == o;
    }

    @Override
    public int hashCode() {
      return byId ? id % 2 : System.identityHashCode(this);
    }

    @Override
    public String toString() {
      return "L" + id;
    }
  }

  private static void seq(Ctx c) {
    int k = c.d.range(1, c.d.chance(1, 10) ? c.d.chance(1, 4) ? 300 : 40 : 6);
    boolean byId = c.d.bool();
    List<L> ls = new ArrayList<>();
    for (int i = 0; i < k; i++) {
      L l = new L(byId ? c.d.below(k) : i, byId);
      ls.add(l);
      if (c.d.chance(1, 5)) {
        l.fail = World.throwable(c.d.below(World.KINDS), "L" + i);
      }
    }
    List<L> model = new ArrayList<>();
    List<StateMachineListener<Object, Object>> initial = new ArrayList<>();
    int ni = c.d.below(k + 2);
    for (int i = 0; i < ni; i++) {
      L l = c.d.chance(1, 4) ? null : ls.get(c.d.below(k));
      initial.add(l);
      if (l != null && !model.contains(l)) {
        model.add(l);
      }
    }
    @SuppressWarnings("unchecked")
    StateMachineListener<Object, Object>[] arr = initial.toArray(new StateMachineListener[0]);
    MultiConsumerStateMachineListener<Object, Object> multi =
        new MultiConsumerStateMachineListener<>(arr);
    c.note("constructed with " + initial);
    StringBuilder hist = new StringBuilder(initial.toString() + byId);
    boolean added = false;
    boolean removed = false;
    boolean interesting = false;
    State<Object, Object> f = null;
    State<Object, Object> t = null;
    StateEvent<Object> e = null;
    int n = c.d.size(1, 20, 80);
    for (int i = 0; i < n; i++) {
      int op = c.d.weighted(3, 2, 3);
      L l = ls.get(c.d.below(k));
      if (op == 0) {
        boolean exp = !model.contains(l);
        c.note("add " + l + " -> " + exp);
        hist.append(" +").append(ls.indexOf(l));
        c.eq(exp, multi.add(l), "add " + l);
        if (exp) {
          model.add(l);
        }
        added = true;
      } else if (op == 1) {
        boolean exp = model.contains(l);
        c.note("remove " + l + " -> " + exp);
        hist.append(" -").append(ls.indexOf(l));
        c.eq(exp, multi.remove(l), "remove " + l);
        model.remove(l);
        removed = true;
      } else {
        boolean end = c.d.bool();
        // the same notification may come again
        if (e == null || c.d.chance(2, 3)) {
          f = new NamedState<>("f" + i);
          t = new NamedState<>("t" + i);
          e = new NamedStateEvent<>("e" + i);
        }
        // one listener may change the set while being told
        List<L> registered = new ArrayList<>(model);
        L[] changed = {null};
        if (c.d.chance(1, 4) && !model.isEmpty()) {
          L actor = model.get(c.d.below(model.size()));
          L other = c.d.chance(1, 3) ? actor : ls.get(c.d.below(k));
          boolean add = c.d.bool();
          actor.during = () -> {
            actor.during = null;
            changed[0] = other;
            boolean exp = add != model.contains(other);
            boolean real = add ? multi.add(other) : multi.remove(other);
            if (exp != real) {
              throw new Violation((add ? "add " : "remove ") + other
                  + " while notifying returned " + real);
            }
            if (exp && add) {
              model.add(other);
            } else if (exp) {
              model.remove(other);
            }
          };
          c.note("when told, " + actor + " does " + (add ? "add " : "remove ") + other);
          hist.append(add ? " a" : " r").append(ls.indexOf(other));
        }
        // or notify while being told
        StateEvent<Object> inner = new NamedStateEvent<>("inner" + i);
        L nester = null;
        boolean[] nested = {false};
        for (L x : registered) {
          nester = x.during == null && nester == null && c.d.chance(1, 8) ? x : nester;
        }
        if (nester != null && registered.stream().noneMatch(x -> x.during != null)) {
          L x = nester;
          StateMachineListener<Object, Object> via = c.d.bool() ? multi
              : new MultiConsumerStateMachineListener<>(multi);
          x.during = () -> {
            x.during = null;
            nested[0] = true;
            try {
              via.onStateChangeBegin(null, inner, null);
            } catch (Throwable y) {
              if (ls.stream().noneMatch(z -> z.fail == y)) {
                throw new Violation("notifying while being told failed with " + y, y);
              }
            }
          };
          c.note("when told, " + x + " notifies too");
          hist.append(" n").append(ls.indexOf(x));
        }
        c.note("notify " + (end ? "end" : "begin") + " with " + registered.size()
            + " registered");
        hist.append(end ? " E" : " B");
        boolean anyFails = false;
        for (L x : registered) {
          anyFails |= x.fail != null;
        }
        for (L x : ls) {
          x.got.clear();
        }
        Throwable thrown = null;
        boolean interrupted = c.d.chance(1, 10);
        c.labelIf(interrupted, "interrupted thread");
        try {
          if (interrupted) {
            Thread.currentThread().interrupt();
          }
          if (end) {
            multi.onStateChangeEnd(f, e, t);
          } else {
            multi.onStateChangeBegin(f, e, t);
          }
        } catch (Violation v) {
          throw v;
        } catch (Throwable x) {
          thrown = x;
        } finally {
          Thread.interrupted();
        }
        if (thrown != null) {
          Throwable th = thrown;
          c.check(anyFails && ls.stream().anyMatch(x -> x.fail == th) || changed[0] != null,
              "notifying failed with " + thrown);
        }
        for (L x : ls) {
          x.during = null;
          boolean in = same(registered, x);
          boolean maybe = changed[0] != null && changed[0].equals(x);
          int exp = in ? 1 : 0;
          int twice = 0;
          for (int g = x.got.size() - 1; g >= 0; g--) {
            if (x.got.get(g)[2] == inner) {
              x.got.remove(g);
              twice++;
            }
          }
          c.eq(nested[0] && in ? 1 : 0, twice, x + " was told of the inner notification");
          if (maybe ? x.got.size() > 1 : x.got.size() != exp) {
            throw new Violation(x + " was told " + x.got.size() + " times, expected " + exp);
          }
          for (Object[] g : x.got) {
            c.eq(end, g[0], "kind of the notification");
            c.same(f, g[1], "from state");
            c.same(e, g[2], "event");
            c.same(t, g[3], "to state");
          }
        }
        interesting |= added && removed && registered.size() >= 2;
        c.labelIf(nested[0], "nested");
        c.labelIf(anyFails, "some fail");
        c.labelIf(changed[0] != null, "changed while notifying");
      }
    }
    if (interesting) {
      c.nontrivial(hist.toString());
    }
  }

  /** the very instance */
  private static boolean same(List<L> l, L x) {
    for (L y : l) {
      if (y == x) {
        return true;
      }
    }
    return false;
  }

  // ------------------------------------------------------------------ scheduled

  private static final class Op {

    final char kind;
    final int l;
    int call;
    int ret;
    boolean res;
    final int[] told;

    Op(char kind, int l, int k) {
      this.kind = kind;
      this.l = l;
      this.told = new int[k];
    }

    @Override
    public String toString() {
      return kind == 'n' ? "notify" : (kind == '+' ? "add L" : "remove L") + l + "=" + res;
    }
  }

  private static void coop(Ctx c) {
    int k = c.d.range(1, 3);
    int threads = c.d.range(2, 4);
    List<L> ls = new ArrayList<>();
    Op[] curOp = new Op[threads];
    List<Op> all = new ArrayList<>();
    int[] clock = {0};
    for (int i = 0; i < k; i++) {
      L l = new L(i, true);
      ls.add(l);
      if (c.d.chance(1, 4)) {
        l.fail = World.throwable(c.d.below(World.KINDS), "L" + i);
      }
    }
    List<List<Op>> plan = new ArrayList<>();
    StringBuilder desc = new StringBuilder();
    boolean[] init = new boolean[k];
    for (int i = 0; i < k; i++) {
      init[i] = c.d.bool();
      desc.append(init[i] ? "+" : "-");
    }
    for (int i = 0; i < threads; i++) {
      List<Op> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      desc.append(" | ");
      for (int j = 0; j < n; j++) {
        Op o = new Op(c.d.pick('n', '+', '-'), c.d.below(k), k);
        ops.add(o);
        all.add(o);
        desc.append(o.kind).append(o.kind == 'n' ? "" : "" + o.l);
      }
      plan.add(ops);
    }
    c.note(desc.toString());
    try (Coop co = new Coop(c)) {
      MultiConsumerStateMachineListener<?, ?>[] holder = {null};
      co.alone("setup", () -> {
        MultiConsumerStateMachineListener<Object, Object> m =
            new MultiConsumerStateMachineListener<>();
        for (int i = 0; i < k; i++) {
          if (init[i]) {
            m.add(ls.get(i));
          }
        }
        holder[0] = m;
      });
      @SuppressWarnings("unchecked")
      MultiConsumerStateMachineListener<Object, Object> multi =
          (MultiConsumerStateMachineListener<Object, Object>) holder[0];
      for (L l : ls) {
        l.during = () -> {
          int me = Integer.parseInt(Thread.currentThread().getName().substring(1));
          curOp[me].told[l.id]++;
          Sched.point();
        };
      }
      for (int i = 0; i < threads; i++) {
        int me = i;
        co.client("t" + i, () -> {
          for (Op o : plan.get(me)) {
            curOp[me] = o;
            o.call = clock[0]++;
            if (o.kind == '+') {
              o.res = multi.add(ls.get(o.l));
            } else if (o.kind == '-') {
              o.res = multi.remove(ls.get(o.l));
            } else {
              try {
                multi.onStateChangeBegin(null, null, null);
              } catch (Sched.Abort a) {
                throw a;
              } catch (Throwable t) {
                if (ls.stream().noneMatch(l -> l.fail == t)) {
                  throw new Violation("notifying failed with " + t + " at " + Coop.top(t), t);
                }
              }
            }
            o.ret = clock[0]++;
          }
        });
      }
      co.go();
      boolean overlaps = false;
      // deliveries
      for (Op n : all) {
        if (n.kind != 'n') {
          continue;
        }
        for (int i = 0; i < k; i++) {
          // possible registration at the notification, from the last definite change before it
          boolean changing = false;
          int again = 0;
          for (Op o : all) {
            if (o.kind != 'n' && o.l == i && o.call < n.ret && o.ret > n.call) {
              changing = true;
              again += o.kind == '+' && o.res ? 1 : 0;
            }
          }
          overlaps |= changing;
          // removed and added again while notified: told at most once for each registration
          if (n.told[i] > 1 + again) {
            throw new Violation("L" + i + " was told " + n.told[i] + " times of one notification: "
                + all);
          }
          if (!changing) {
            Boolean in = before(all, i, n.call, init[i]);
            if (in != null && n.told[i] != (in ? 1 : 0)) {
              throw new Violation("L" + i + (in ? " was registered but not told"
                  : " was not registered but told") + ": " + all);
            }
          }
        }
      }
      // results
      for (int i = 0; i < k; i++) {
        List<Op> ops = new ArrayList<>();
        for (Op o : all) {
          if (o.kind != 'n' && o.l == i) {
            ops.add(o);
          }
        }
        if (!linear(ops, new boolean[ops.size()], init[i])) {
          throw new Violation("results of add and remove of L" + i + " fit no order: " + ops
              + ", first registered: " + init[i]);
        }
      }
      c.labelIf(overlaps, "change during notification");
      if (overlaps) {
        c.nontrivial(desc.toString() + co.s.steps() + all);
      }
    }
  }

  /** membership after the ops that had returned before time t, null if it depends on their order */
  private static Boolean before(List<Op> all, int l, int t, boolean init) {
    List<Op> ops = new ArrayList<>();
    for (Op o : all) {
      if (o.kind != 'n' && o.l == l && o.ret < t) {
        ops.add(o);
      }
    }
    int net = init ? 1 : 0;
    for (Op o : ops) {
      if (o.res) {
        net += o.kind == '+' ? 1 : -1;
      }
    }
    return net == 1 ? Boolean.TRUE : net == 0 ? Boolean.FALSE : null;
  }

  private static boolean linear(List<Op> ops, boolean[] used, boolean in) {
    boolean all = true;
    for (int i = 0; i < used.length; i++) {
      if (used[i]) {
        continue;
      }
      all = false;
      Op o = ops.get(i);
      boolean first = true;
      for (int j = 0; j < used.length; j++) {
        if (!used[j] && j != i && ops.get(j).ret < o.call) {
          first = false;
        }
      }
      if (!first || o.res != (o.kind == '+' ? !in : in)) {
        continue;
      }
      used[i] = true;
      boolean ok = linear(ops, used, o.kind == '+');
      used[i] = false;
      if (ok) {
        return true;
      }
    }
    return all;
  }

  private static void threads(Ctx c) throws Exception {
    int stable = 5;
    MultiConsumerStateMachineListener<Object, Object> multi =
        new MultiConsumerStateMachineListener<>();
    AtomicInteger[] counts = new AtomicInteger[stable];
    for (int i = 0; i < stable; i++) {
      AtomicInteger n = counts[i] = new AtomicInteger();
      multi.add(new StateMachineListener<Object, Object>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
            State<Object, Object> t) {
          n.incrementAndGet();
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
            State<Object, Object> t) {
          n.incrementAndGet();
        }
      });
    }
    AtomicBoolean over = new AtomicBoolean();
    List<Throwable> bad = new ArrayList<>();
    List<Thread> churn = new ArrayList<>();
    for (int i = 0; i < 3; i++) {
      Thread t = new Thread(() -> {
        try {
          int j = 0;
          while (!over.get()) {
            StateMachineListener<Object, Object> l = new Quiet();
            if (!multi.add(l)) {
              throw new Violation("adding a new listener returned false");
            }
            if (j++ % 3 != 0 && multi.add(l)) {
              throw new Violation("adding a listener twice returned true");
            }
            if (!multi.remove(l)) {
              throw new Violation("removing a registered listener returned false");
            }
            if (multi.remove(l)) {
              throw new Violation("removing a listener twice returned true");
            }
          }
        } catch (Throwable x) {
          synchronized (bad) {
            bad.add(x);
          }
        }
      });
      t.setDaemon(true);
      t.start();
      churn.add(t);
    }
    int per = 20000;
    List<Thread> ts = new ArrayList<>();
    for (int i = 0; i < 3; i++) {
      boolean end = i % 2 == 0;
      Thread t = new Thread(() -> {
        try {
          for (int j = 0; j < per; j++) {
            if (end) {
              multi.onStateChangeEnd(null, null, null);
            } else {
              multi.onStateChangeBegin(null, null, null);
            }
          }
        } catch (Throwable x) {
          synchronized (bad) {
            bad.add(x);
          }
        }
      });
      t.setDaemon(true);
      t.start();
      ts.add(t);
    }
    for (Thread t : ts) {
      t.join();
    }
    over.set(true);
    for (Thread t : churn) {
      t.join();
    }
    if (!bad.isEmpty()) {
      throw new Violation("failed: " + bad.get(0) + " at " + Coop.top(bad.get(0)));
    }
    for (int i = 0; i < stable; i++) {
      c.eq(3 * per, counts[i].get(), "notifications to a listener that stayed registered");
    }
    c.nontrivial("run" + c.d.below(1 << 20));
  }

  private static final class Quiet implements StateMachineListener<Object, Object> {

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      // only there
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      // only there
    }
  }
}
