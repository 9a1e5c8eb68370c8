package vp.props;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.LinkedList;
import java.util.List;
import vp.core.Ctx;
import vp.core.Sched;
import vp.core.Violation;

/** An application under test with everything about it recorded, and its reference model. */
final class App {

  static final String UNINIT = LifecycleStateMachineUtil.STATE_UNINITIALISED;
  static final String STARTING = LifecycleStateMachineUtil.STATE_STARTING;
  static final String STARTED = LifecycleStateMachineUtil.STATE_STARTED;
  static final String STOPPING = LifecycleStateMachineUtil.STATE_STOPPING;
  static final String STOPPED = LifecycleStateMachineUtil.STATE_STOPPED;
  static final String START = LifecycleStateMachineUtil.evtStart.getName();
  static final String COMPLETE = LifecycleStateMachineUtil.evtComplete.getName();
  static final String STOP = LifecycleStateMachineUtil.evtStop.getName();
  static final String ERROR = LifecycleStateMachineUtil.evtError.getName();

  /** the documented table; null if the state does not expect the event */
  static String next(String st, String ev) {
    if (UNINIT.equals(st)) {
      return START.equals(ev) ? STARTING : null;
    }
    if (STARTING.equals(st)) {
      return COMPLETE.equals(ev) ? STARTED : ERROR.equals(ev) ? STOPPED : null;
    }
    if (STARTED.equals(st)) {
      return STOP.equals(ev) ? STOPPING : ERROR.equals(ev) ? STOPPED : null;
    }
    if (STOPPING.equals(st)) {
      return COMPLETE.equals(ev) || ERROR.equals(ev) ? STOPPED : null;
    }
    if (STOPPED.equals(st)) {
      return START.equals(ev) ? STARTING : STOP.equals(ev) ? Names.END : null;
    }
    return null;
  }

  static final class TCtx extends AbstractAppContext<TCtx> {

    TCtx(String name) {
      super(name);
    }

    TCtx(String name, String[] args) {
      super(name, args);
    }

    /** the thread name of one that does not keep it in its super class */
    private String own;

    @Override
    public String getAppThreadName() {
      return own == null ? super.getAppThreadName() : own;
    }
  }

  static final class TApp extends AbstractAppService<TCtx> {

    TApp(TCtx c) {
      super(c);
    }

    TApp(TCtx c, boolean exit) {
      super(c, exit);
    }
  }

  /** what a subsystem does when it is called */
  static final class Outcome {

    static final Outcome FINE = new Outcome(' ', false, -1);
    /** calls on the application: s(tart) x(stop) e(rror) or blank */
    final char inner;
    final boolean gate;
    final int fail;

    Outcome(char inner, boolean gate, int fail) {
      this.inner = inner;
      this.gate = gate;
      this.fail = fail;
    }

    @Override
    public String toString() {
      return (inner == ' ' ? "" : String.valueOf(inner)) + (gate ? "g" : "") + (fail < 0 ? "."
          : "!" + fail);
    }
  }

  final String tag;
  final boolean exit;
  final int subs;
  /** outcome of the k-th call of any subsystem */
  final List<Outcome> outcomes;
  static final String UNSET = new String("unset");
  /** subsystems leave the thread that starts or stops them interrupted */
  private boolean interrupts;
  /** null: at random; UNSET: not set */
  String threadName;
  /** leave the listener the application has by default */
  boolean keepListener;
  TCtx ctx;
  TApp app;
  final List<Rec> log = new ArrayList<>();
  int calls;
  private boolean twins;
  /** gates passed */
  volatile int released;
  int gated;
  volatile boolean atGate;

  App(String tag, boolean exit, int subs, List<Outcome> outcomes) {
    this.tag = tag;
    this.exit = exit;
    this.subs = subs;
    this.outcomes = outcomes;
  }

  static App gen(Ctx c, String tag, boolean gates, boolean inner) {
    boolean exit = c.d.bool();
    int n = c.d.chance(1, 40) ? c.d.range(10, c.d.chance(1, 4) ? 160 : 40) : c.d.below(4);
    List<Outcome> os = new ArrayList<>();
    int k = c.d.range(0, Math.min(24, 8 * n));
    for (int i = 0; i < k; i++) {
      char in = inner && c.d.chance(1, 10) ? c.d.pick('x', 'e', 's') : ' ';
      boolean g = gates && c.d.chance(1, 6);
      int f = c.d.chance(1, 8) ? c.d.below(World.EXC) : -1;
      os.add(in == ' ' && !g && f < 0 ? Outcome.FINE : new Outcome(in, g, f));
    }
    return new App(tag, exit, n, os);
  }

  Outcome outcome(int k) {
    return k < outcomes.size() ? outcomes.get(k) : Outcome.FINE;
  }

  final class Sub implements Subsystem<TCtx> {

    final int i;

    Sub(int i) {
      this.i = i;
    }

    /** subsystems of an application may be equal, they are still several */
    @Override
    public boolean equals(Object o) {
      return this == o || o instanceof Sub && twins && ((Sub) o).twins();
    }

    private boolean twins() {
      return twins;
    }

    @Override
    public int hashCode() {
      return twins ? 1 : System.identityHashCode(this);
    }

    @Override
    public void start(TCtx c) {
      called("start", c);
    }

    @Override
    public void stop(TCtx c) {
      called("stop", c);
    }

    private void called(String what, TCtx c) {
      add("SUB", what + " " + i + " " + state() + (c == ctx ? "" : " WRONG-CONTEXT"));
      Outcome o;
      synchronized (log) {
        o = outcome(calls++);
      }
      if (o.inner != ' ') {
        add("INNER", "in " + o.inner + " " + call(o.inner));
      }
      if (o.gate) {
        int me = gated++;
        atGate = true;
        Sched.block(() -> released > me, "held up");
        atGate = false;
      }
      if (interrupts) {
        Thread.currentThread().interrupt();
      }
      if (o.fail >= 0) {
        World.<RuntimeException>sneak(World.throwable(o.fail, tag + i));
      }
    }
  }

  String state() {
    State<TCtx, Void> s = app.getLifecycleState();
    return s == null ? "null" : s.getName();
  }

  private final java.util.concurrent.atomic.AtomicInteger errors =
      new java.util.concurrent.atomic.AtomicInteger();

  /** makes a call; "ok" or what it threw */
  String call(char op) {
    try {
      if (op == 's') {
        app.start();
      } else if (op == 'x') {
        app.stop();
      } else {
        app.error(op == 'e' ? (Exception) World.throwable(Math.floorMod(
            outcomes.size() * 31 + 5 * errors.getAndIncrement(), World.EXC), "by hand") : null);
      }
      return "ok";
    } catch (Sched.Abort a) {
      throw a;
    } catch (IllegalStateException e) {
      return "ISE";
    } catch (Throwable t) {
      return t + " at " + Coop.top(t);
    }
  }

  /** as call, logged; the result in Rec.obj */
  String logged(char op) {
    Rec a = add("CALL", "call " + op);
    String r = call(op);
    Rec b = add("RET", "ret " + op + " " + r);
    a.obj = b;
    b.obj = r;
    return r;
  }

  Rec add(String kind, String text) {
    Rec r = new Rec(kind, null, null, text);
    synchronized (log) {
      log.add(r);
    }
    return r;
  }

  List<Rec> logCopy() {
    synchronized (log) {
      return new ArrayList<>(log);
    }
  }

  private static List<Subsystem<TCtx>> given(Ctx c, List<Subsystem<TCtx>> l) {
    switch (c.d.below(6)) {
      case 0:
      case 1:
        return l;
      case 2:
        return new java.util.concurrent.CopyOnWriteArrayList<>(l);
      case 3:
        return new java.util.AbstractList<>() {
          @Override
          public Subsystem<TCtx> get(int i) {
            return l.get(i);
          }

          @Override
          public int size() {
            return l.size();
          }
        };
      default:
        return List.copyOf(l);
    }
  }

  App build(Ctx c) {
    String name = c.d.chance(1, 4) ? Names.odd(c.d) : c.d.chance(1, 3) ? "app" : "app " + tag;
    twins = c.d.chance(1, 4);
    interrupts = c.d.chance(1, 12);
    String[] args = c.d.bool() ? null : new String[]{"a", "{}"};
    ctx = args == null ? new TCtx(name) : new TCtx(name, args);
    List<Subsystem<TCtx>> l = c.d.bool() ? new ArrayList<>() : new LinkedList<>();
    for (int i = 0; i < subs; i++) {
      l.add(new Sub(i));
    }
    List<Subsystem<TCtx>> given = given(c, l);
    if (subs > 0 || c.d.bool()) {
      c.same(ctx, ctx.withSubsystems(given), "result of withSubsystems");
    }
    if (threadName == null ? c.d.chance(1, 4) : threadName != UNSET) {
      String tn = threadName == null ? Names.odd(c.d) : threadName;
      if (c.d.chance(1, 4)) {
        ctx.own = tn;
      } else {
        c.same(ctx, ctx.withAppThreadName(tn), "result of withAppThreadName");
      }
    }
    app = exit && c.d.bool() ? new TApp(ctx) : new TApp(ctx, exit);
    c.same(ctx, app.getAppContext(), "application context");
    c.same(name, ctx.getAppName(), "application name");
    c.check(args == null ? ctx.getInitArgs().length == 0 : ctx.getInitArgs() == args,
        "init arguments");
    c.check(ctx.getSubsystems().equals(l), "subsystems");
    for (int i = 0; i < subs; i++) {
      c.same(l.get(i), ctx.getSubsystems().get(i), "subsystem " + i);
    }
    c.check(app.getLifecycleState() == null, "has a state before it is started");
    if (keepListener) {
      return this;
    }
    app.setStateMachineListener(new StateMachineListener<TCtx, Void>() {
      @Override
      public void onStateChangeBegin(State<TCtx, Void> f, StateEvent<Void> e, State<TCtx, Void> t) {
        move("BEGIN", f, e, t);
      }

      @Override
      public void onStateChangeEnd(State<TCtx, Void> f, StateEvent<Void> e, State<TCtx, Void> t) {
        move("END", f, e, t);
      }
    });
    return this;
  }

  private void move(String k, State<TCtx, Void> f, StateEvent<Void> e, State<TCtx, Void> t) {
    add(k, k + " " + f.getName() + " + " + e.getName() + " = " + t.getName());
  }

  @Override
  public String toString() {
    return tag + (exit ? " exits on stop, " : " does not exit on stop, ") + subs
        + " subsystems, outcomes " + outcomes;
  }

  // ------------------------------------------------------------------ model

  /** one thing at a time, up to a quiet moment */
  static final class Model {

    final App a;
    String st = "null";
    boolean started;
    boolean ended;
    boolean over;
    final Deque<String> q = new ArrayDeque<>();
    final List<String> out = new ArrayList<>();
    int calls;
    int phase;
    int idx;
    int gates;
    int released;
    boolean inGate;
    private String closing;
    int cycles;
    int failures;

    Model(App a) {
      this.a = a;
    }

    /** the outcome of a call in the present state; blocks: the first start */
    String call(char op) {
      if (op == 'e') {
        fire(ERROR);
        return "ok";
      }
      if (op == 'x') {
        if (STARTED.equals(st) || !a.exit && STOPPED.equals(st)) {
          fire(STOP);
          return "ok";
        }
        return a.exit && STOPPED.equals(st) ? "ok" : "ISE";
      }
      if (!started) {
        started = true;
        st = UNINIT;
        out.add("BEGIN " + Names.UNINIT + " + " + Names.IMM + " = " + UNINIT);
        out.add("END " + Names.UNINIT + " + " + Names.IMM + " = " + UNINIT);
        fire(START);
        return "blocks";
      }
      if (!a.exit && STOPPED.equals(st)) {
        fire(START);
        return "ok";
      }
      return "ISE";
    }

    private void fire(String ev) {
      if (started && !ended) {
        q.add(ev);
      }
    }

    /** runs until nothing can move */
    void pump() {
      while (true) {
        if (phase != 0) {
          if (!subsystems()) {
            return;
          }
          continue;
        }
        String ev = q.poll();
        if (ev == null) {
          return;
        }
        if (ended) {
          continue;
        }
        String to = next(st, ev);
        if (to == null) {
          continue;
        }
        String move = st + " + " + ev + " = " + to;
        out.add("BEGIN " + move);
        if (to.equals(Names.END)) {
          over = true;
          ended = true;
          st = to;
          out.add("END " + move);
          continue;
        }
        st = to;
        closing = "END " + move;
        if (to.equals(STARTING)) {
          phase = 1;
          idx = 0;
          cycles++;
        } else if (to.equals(STOPPING)) {
          phase = -1;
          idx = a.subs - 1;
        } else {
          if (to.equals(STOPPED) && a.exit) {
            fire(STOP);
            over = true;
          }
          out.add(closing);
        }
      }
    }

    /** false when held up */
    private boolean subsystems() {
      while (true) {
        if (idx < 0 || idx >= a.subs) {
          fire(COMPLETE);
          phase = 0;
          out.add(closing);
          return true;
        }
        Outcome o;
        if (!inGate) {
          out.add((phase > 0 ? "start " : "stop ") + idx + " " + st);
          o = a.outcome(calls++);
          if (o.inner != ' ') {
            out.add("in " + o.inner + " " + call(o.inner));
          }
          if (o.gate) {
            inGate = true;
            gates++;
          }
        } else {
          o = a.outcome(calls - 1);
        }
        if (inGate && released < gates) {
          return false;
        }
        inGate = false;
        if (o.fail >= 0) {
          failures++;
          fire(ERROR);
          phase = 0;
          out.add(closing);
          return true;
        }
        idx += phase;
      }
    }
  }

  List<String> trace() {
    List<String> l = new ArrayList<>();
    for (Rec r : logCopy()) {
      if (r.is("BEGIN") || r.is("END") || r.is("SUB") || r.is("INNER")) {
        l.add(r.text);
      }
    }
    return l;
  }

  // ------------------------------------------------------------------ concurrent histories

  private static Violation bad(String msg, List<Rec> log, int at) {
    StringBuilder b = new StringBuilder(msg).append("; log around:");
    for (int i = Math.max(0, at - 14); i < Math.min(log.size(), at + 6); i++) {
      b.append(i == at ? " >>[" : " [").append(log.get(i)).append(" @")
          .append(log.get(i).thread.getName()).append(']');
    }
    return new Violation(b.toString());
  }

  /** result of checking a concurrent history */
  static final class Seen {

    String last = "null";
    int transitions;
    int cycles;
    /** log position of the first arrival in STOPPED, and of the end */
    int stopped = -1;
    int ended = -1;
    /** log position of the record with which the first start call returned, and its call */
    int firstCall = -1;
    int firstRet = -1;
    String firstRes;
    boolean over;
    Thread first;
  }

  /** where the lifecycle has got to and what became of the first start call, nothing checked */
  Seen lifecycle() {
    List<Rec> l = logCopy();
    Seen s = new Seen();
    int from = -1;
    for (int i = 0; i < l.size(); i++) {
      Rec r = l.get(i);
      if (r.is("BEGIN")) {
        from = i;
        if (s.transitions++ == 0) {
          s.first = r.thread;
          for (int j = i; j >= 0 && s.firstCall < 0; j--) {
            if (l.get(j).is("CALL") && l.get(j).thread == r.thread) {
              s.firstCall = j;
              Rec ret = (Rec) l.get(j).obj;
              s.firstRet = ret == null ? -1 : l.indexOf(ret);
              s.firstRes = ret == null ? null : (String) ret.obj;
            }
          }
        }
        s.cycles += r.text.endsWith("= " + STARTING) ? 1 : 0;
      } else if (r.is("END")) {
        s.last = r.text.substring(r.text.indexOf(" = ") + 3);
        if (s.last.equals(STOPPED) && s.stopped < 0) {
          s.stopped = from;
        } else if (s.last.equals(Names.END)) {
          s.ended = from;
        }
      }
    }
    s.over = exit ? s.stopped >= 0 : s.ended >= 0;
    return s;
  }

  /** the lifecycle as logged follows the table, with its subsystem calls */
  Seen checkHistory(Ctx c) {
    List<Rec> l = logCopy();
    Seen s = new Seen();
    String in = null;
    int from = -1;
    String st = "null";
    // by the order of the log: the states possible at a position, lo and hi being equal when certain
    List<String> before = new ArrayList<>();
    List<String> during = new ArrayList<>();
    int idx = 0;
    boolean failed = false;
    int k = 0;
    for (int i = 0; i < l.size(); i++) {
      Rec r = l.get(i);
      if (r.is("BEGIN")) {
        if (in != null) {
          throw bad("a transition begins inside another", l, i);
        }
        in = r.text.substring(6);
        from = i;
        String exp;
        if (s.transitions == 0) {
          exp = Names.UNINIT + " + " + Names.IMM + " = " + UNINIT;
          if (!in.equals(exp)) {
            throw bad("the first transition is not the initial one", l, i);
          }
          s.first = r.thread;
          in = exp;
        } else {
          String[] p = in.split(" [+=] ");
          if (p.length != 3 || !p[0].equals(st) || !p[2].equals(next(p[0], p[1]))) {
            throw bad("not a transition of the lifecycle from " + st + ": " + in, l, i);
          }
        }
        s.transitions++;
        idx = in.endsWith("= " + STOPPING) ? subs - 1 : 0;
        failed = false;
        if (in.endsWith("= " + STARTING)) {
          s.cycles++;
        }
      } else if (r.is("SUB")) {
        boolean up = in != null && in.endsWith("= " + STARTING);
        boolean down = in != null && in.endsWith("= " + STOPPING);
        String exp = up ? "start " + idx + " " + STARTING : down ? "stop " + idx + " " + STOPPING
            : null;
        if (exp == null || failed || idx < 0 || idx >= subs || !r.text.equals(exp)) {
          throw bad("unexpected subsystem call, expected " + (failed || idx < 0 || idx >= subs
              ? "none" : exp), l, i);
        }
        failed = outcome(k++).fail >= 0;
        idx += up ? 1 : -1;
      } else if (r.is("INNER")) {
        if (!r.text.equals(r.text.startsWith("in e") ? "in e ok" : r.text.substring(0, 4)
            + " ISE")) {
          throw bad("a call by a subsystem ended unexpectedly", l, i);
        }
      } else if (r.is("END")) {
        if (in == null || !r.text.substring(4).equals(in)) {
          throw bad("an end without its begin", l, i);
        }
        st = in.substring(in.indexOf(" = ") + 3);
        if ((st.equals(STARTING) || st.equals(STOPPING)) && !failed && idx >= 0 && idx < subs) {
          throw bad("subsystem " + idx + " was left out", l, i);
        }
        if (st.equals(STOPPED) && s.stopped < 0) {
          s.stopped = from;
        }
        if (st.equals(Names.END)) {
          s.ended = from;
        }
        in = null;
      }
      before.add(st);
      during.add(in == null ? st : in.substring(in.indexOf(" = ") + 3));
    }
    if (in != null) {
      throw bad("a transition is never completed", l, l.size() - 1);
    }
    s.last = st;
    s.over = exit ? s.stopped >= 0 : s.ended >= 0;
    c.eq(st, state(), tag + ": lifecycle state at the end");
    // the calls
    for (int i = 0; i < l.size(); i++) {
      Rec r = l.get(i);
      if (!r.is("CALL")) {
        continue;
      }
      char op = r.text.charAt(5);
      Rec ret = (Rec) r.obj;
      int to = ret == null ? l.size() : l.indexOf(ret);
      String res = ret == null ? "blocks" : (String) ret.obj;
      if (op == 's' && s.first == r.thread && s.firstCall < 0) {
        boolean mine = false;
        for (int j = i; j < to; j++) {
          mine |= l.get(j).text.startsWith("BEGIN " + Names.UNINIT) && l.get(j).thread == r.thread;
        }
        if (mine) {
          s.firstCall = i;
          s.firstRet = ret == null ? -1 : to;
          if (ret != null && !res.equals("ok")) {
            throw bad("the first start call threw " + res, l, to);
          }
          continue;
        }
      }
      if (ret == null) {
        throw bad("a call never returns", l, i);
      }
      if (op == 'e') {
        if (!res.equals("ok")) {
          throw bad("error call threw " + res, l, to);
        }
        continue;
      }
      boolean accept = false;
      boolean refuse = false;
      for (int j = Math.max(0, i - 1); j < to; j++) {
        for (String x : new String[]{before.get(j), during.get(j)}) {
          boolean ok = op == 'x' ? STARTED.equals(x) || STOPPED.equals(x)
              : !exit && STOPPED.equals(x);
          accept |= ok;
          refuse |= !ok;
        }
      }
      if (res.equals("ok") ? !accept : !res.equals("ISE") || !refuse) {
        throw bad((op == 'x' ? "stop" : "start") + " call ended with " + res
            + " which no state during the call permits", l, to);
      }
    }
    return s;
  }
}
