package vp.props;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ExecutorService;
import org.apache.logging.log4j.Level;
import vp.core.CapLog;
import vp.core.CoopExec;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Part;
import vp.core.Sched;
import vp.core.Violation;

/** Logged lines say truthfully what happened. */
final class C18 {

  private C18() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("listener", 40000, 800_000, C18::listener).serial().rule(
        "1-3 logging listeners with odd, empty or no names notified at random with odd state and "
            + "event names and payloads; exact lines; non-trivial: at least 2 notifications"));
    l.add(new Part("seq", 25000, 700_000, C18::seq).serial().rule(
        "a machine with the library's default handlers, either strategy, bound or not, odd names, "
            + "callbacks that throw, fires before, during and after its life: exactly the lines "
            + "predicted by the model, in order, nothing else; non-trivial: three kinds of line"));
    l.add(new Part("coop", 3000, 100_000, C18::coop).inst().serial().rule(
        "as seq with 1-3 firing threads, default or own executor, random schedule: the lines of "
            + "listener and handlers match the recorded callbacks; non-trivial: at least 2 firing "
            + "threads or a drop, rejection or exception"));
    l.add(new Part("app", 1200, 40_000, C18::app).inst().serial().rule(
        "an application with its default listener driven by a random history: the transition lines "
            + "carry its name; non-trivial: at least 4 transitions"));
    return l;
  }

  // ------------------------------------------------------------------ the texts

  private static final String EV = "qEVENTq";
  private static final String ST = "qSTATEq";
  private static final String TH = "qTHREADq";

  /** the text of each kind of line for marker names; learned once per class loader */
  private static Map<String, String> templates;

  private static final Level[] LEVELS = {Level.INFO, Level.WARN, Level.WARN, Level.ERROR,
      Level.INFO};
  private static final String[] KINDS = {"UNMAPPED", "BEFORE", "AFTER", "EXC", "DROP"};

  private static Level level(String kind) {
    for (int i = 0; i < KINDS.length; i++) {
      if (KINDS[i].equals(kind)) {
        return LEVELS[i];
      }
    }
    return Level.INFO;
  }

  private static CapLog.Line only(List<CapLog.Line> l, String what) {
    if (l.size() != 1) {
      throw new Violation(what + " logs " + l.size() + " lines: " + l);
    }
    return l.get(0);
  }

  private static String template(String kind, CapLog.Line line, String... marks) {
    int at = -1;
    for (String m : marks) {
      int i = line.text.indexOf(m, at + 1);
      if (i < 0 || line.text.indexOf(m, i + 1) >= 0) {
        throw new Violation("the line logged for " + kind + " does not name the event, state and "
            + "thread as promised: " + line);
      }
      at = i;
    }
    for (String m : new String[]{EV, ST, TH}) {
      if (!List.of(marks).contains(m) && line.text.contains(m)) {
        throw new Violation("the line logged for " + kind + " names something else: " + line);
      }
    }
    return line.text;
  }

  private static synchronized Map<String, String> templates() {
    if (templates != null) {
      return templates;
    }
    Map<String, String> t = new HashMap<>();
    ManualExec ex = new ManualExec();
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex))).build();
    NamedState<Object, Object> s = new NamedState<>(ST);
    s.appendEntryActions((e, m) -> {
      if (e.getName().equals(EV)) {
        throw new World.Boom("template");
      }
    });
    NamedStateEvent<Object> e = new NamedStateEvent<>(EV);
    sm.initialSate(s).receives(new NamedStateEvent<>("other")).itTransitionsTo(s);
    CapLog.start();
    sm.fire(e);
    t.put("BEFORE", template("BEFORE", only(CapLog.stop(), "an event before the start"), EV));
    sm.start();
    CapLog.start();
    sm.fire(e);
    sm.fire(e);
    t.put("DROP", template("DROP", only(CapLog.stop(), "a dropped event"), EV));
    CapLog.start();
    ex.drain();
    t.put("UNMAPPED", template("UNMAPPED", only(CapLog.stop(), "an unmapped event"), EV, ST));
    sm.stop();
    CapLog.start();
    sm.fire(e);
    t.put("AFTER", template("AFTER", only(CapLog.stop(), "an event after the end"), EV));
    sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex))).build();
    sm.initialSate(s).receives(e).itTransitionsTo(s);
    sm.start();
    sm.fire(e);
    Thread me = Thread.currentThread();
    String name = me.getName();
    me.setName(TH);
    CapLog.start();
    try {
      ex.drain();
    } finally {
      me.setName(name);
    }
    t.put("EXC", template("EXC", only(CapLog.stop(), "an exception"), EV, ST, TH));
    templates = t;
    return t;
  }

  private static String text(String kind, String ev, String st, String th) {
    String t = templates().get(kind);
    StringBuilder b = new StringBuilder();
    int i = 0;
    while (i < t.length()) {
      if (t.startsWith(EV, i)) {
        b.append(ev);
        i += EV.length();
      } else if (t.startsWith(ST, i)) {
        b.append(st);
        i += ST.length();
      } else if (t.startsWith(TH, i)) {
        b.append(th);
        i += TH.length();
      } else {
        b.append(t.charAt(i++));
      }
    }
    return b.toString();
  }

  private static String move(String name, boolean end, String from, String ev, String to) {
    boolean named = name != null && !name.isEmpty();
    return end ? named ? name + " transitioned to " + to : "Transitioned to " + to
        : (named ? "Begin " + name + " transition: " : "Begin transition: ") + from + " + " + ev
            + " = " + to;
  }

  private static void same(Level level, String text, Throwable thrown, CapLog.Line line,
      String when) {
    if (!line.text.equals(text)) {
      throw new Violation(when + ": logged <" + line.text + "> instead of <" + text + ">");
    }
    if (line.level != level) {
      throw new Violation(when + ": logged at level " + line.level + " instead of " + level + ": "
          + line);
    }
    if (line.thrown != thrown) {
      throw new Violation(when + ": logged with " + line.thrown + " instead of " + thrown + ": "
          + line);
    }
  }

  private static String listenerName(Ctx c) {
    return c.d.chance(1, 5) ? null : c.d.chance(1, 6) ? "" : Names.odd(c.d);
  }

  // ------------------------------------------------------------------ parts

  private static void listener(Ctx c) {
    int k = c.d.range(1, 3);
    List<String> names = new ArrayList<>();
    List<LoggingStateMachineListener<Object, Object>> ls = new ArrayList<>();
    for (int i = 0; i < k; i++) {
      String n = listenerName(c);
      names.add(n);
      ls.add(n == null && c.d.bool() ? new LoggingStateMachineListener<>()
          : new LoggingStateMachineListener<>(n));
    }
    c.note("listeners " + names);
    int n = c.d.size(1, 8, 60);
    StringBuilder key = new StringBuilder(names.toString());
    for (int i = 0; i < n; i++) {
      int x = c.d.below(k);
      boolean end = c.d.bool();
      String f = Names.odd(c.d);
      String e = Names.odd(c.d);
      String t = c.d.chance(1, 4) ? f : Names.odd(c.d);
      boolean own = c.d.chance(1, 5);
      State<Object, Object> from = own ? new Cfg.OwnState(f) : new NamedState<>(f);
      State<Object, Object> to = own ? new Cfg.OwnState(t) : new NamedState<>(t);
      StateEvent<Object> ev = own ? new Cfg.OwnEvent(e) : new NamedStateEvent<>(e);
      if (c.d.chance(1, 4)) {
        ev.setPayload(c.d.bool() ? "payload" : new World.Boom("payload"));
      }
      CapLog.start();
      try {
        if (end) {
          ls.get(x).onStateChangeEnd(from, ev, to);
        } else {
          ls.get(x).onStateChangeBegin(from, ev, to);
        }
      } finally {
        List<CapLog.Line> lines = CapLog.stop();
        same(Level.INFO, move(names.get(x), end, f, e, t), null, only(lines, "a notification"),
            end ? "end" : "begin");
      }
      key.append(end).append(f).append(e).append(t);
    }
    if (n > 1) {
      c.nontrivial(key.toString());
    }
  }

  /** the logging listener, and one that records what it is told */
  private static StateMachineListener<Object, Object> both(World w, String name) {
    LoggingStateMachineListener<Object, Object> l = new LoggingStateMachineListener<>(name);
    return new StateMachineListener<Object, Object>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        l.onStateChangeBegin(f, e, t);
        w.listener.onStateChangeBegin(f, e, t);
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        l.onStateChangeEnd(f, e, t);
        w.listener.onStateChangeEnd(f, e, t);
      }
    };
  }

  private static EventProcessingStrategyFactory.Config<Object, Object> config(ExecutorService ex) {
    EventProcessingStrategyFactory.Config<Object, Object> k =
        new EventProcessingStrategyFactory.Config<>();
    return ex == null ? k : k.withExecutor(ex);
  }

  private static void seq(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.customStates = false;
    boolean plain = c.d.chance(1, 5);
    // without the recording listener nothing counts the callbacks of an event: no exceptions
    boolean faults = !plain && c.d.chance(1, 2);
    // an exception in the entry of a state that ends the machine leaves it undefined
    o.bare &= !faults;
    o.imm &= !faults;
    Cfg cfg = Cfg.gen(c.d, o);
    boolean dup = c.d.chance(1, 3);
    int bound = c.d.chance(1, 4) ? c.d.range(1, 3) : -1;
    boolean logging = c.d.chance(4, 5);
    String name = listenerName(c);
    ManualExec ex = new ManualExec();
    World w = new World(cfg, "m");
    EventProcessingStrategyFactory.Config<Object, Object> kf = config(ex).withMaxQueueSize(bound);
    w.build(new GenericStateMachine.Builder<Object, Object>().setContext(w.ctx)
        .setStateMachineListener(logging ? plain ? new LoggingStateMachineListener<>(name)
            : both(w, name) : plain ? null : w.listener)
        .setEventProcessingStrategy(World.strategy(dup, kf)).build(), c.d);
    if (c.d.chance(1, 3)) {
      w.sameEvents();
    }
    Model m = new Model(cfg);
    m.dropDup = dup;
    m.bound = bound;
    m.defaultUnmapped = true;
    m.notes = new ArrayList<>();
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + " bound " + bound + " listener "
        + (logging ? "'" + name + "'" : "none"));
    templates();
    CapLog.start();
    List<CapLog.Line> lines;
    StringBuilder hist = new StringBuilder();
    int n = c.d.size(2, 20, 120);
    int startAt = c.d.below(3);
    Thread me = Thread.currentThread();
    String tn = me.getName();
    String th = c.d.chance(1, 3) ? Names.odd(c.d) : "th";
    me.setName(th);
    try {
      for (int i = 0; i < n; i++) {
        if (i == startAt) {
          w.sm.start();
          m.start();
          hist.append(" start");
        }
        int k = c.d.weighted(8, 4, 1);
        if (k == 0) {
          int e = c.d.below(cfg.ev.size());
          Tok t = c.d.chance(1, 5) ? null
              : faults && c.d.chance(1, 3) ? new Tok("t" + i, c.d.below(2), c.d.below(4),
                  c.d.below(World.KINDS)) : new Tok("t" + i, c.d.weighted(4, 2, 1));
          c.note("fire '" + cfg.ev.get(e) + "' " + t);
          hist.append(" f").append(e);
          w.fire(e, t);
          m.fire(e, t);
        } else if (k == 1) {
          hist.append(" p");
          ex.drain();
          m.drain();
        } else if (i > startAt && c.d.chance(1, 6)) {
          hist.append(" stop");
          w.sm.stop();
          m.ended = true;
          m.cur = Model.AT_END;
        }
      }
      ex.drain();
      m.drain();
    } finally {
      me.setName(tn);
      lines = CapLog.stop();
    }
    int at = 0;
    int thrown = 0;
    java.util.Set<String> kinds = new java.util.TreeSet<>();
    for (Object[] x : m.notes) {
      String kind = (String) x[0];
      String ev = (String) x[1];
      String text;
      Throwable t = null;
      boolean isRej = false;
      switch (kind) {
        case "BEGIN":
        case "END":
          if (!logging) {
            continue;
          }
          text = move(name, kind.equals("END"), (String) x[2], ev, (String) x[3]);
          break;
        case "UNMAPPED":
        case "BEFORE":
        case "AFTER":
        case "DROP":
          text = text(kind, ev, (String) x[4], th);
          break;
        case "REJ":
          isRej = true;
          text = text("EXC", ev, (String) x[4], th);
          break;
        case "EXC":
          while (w.thrown.get(thrown) instanceof Error) {
            thrown++;
          }
          t = w.thrown.get(thrown++);
          text = text("EXC", ev, (String) x[4], th);
          break;
        default:
          continue;
      }
      kinds.add(kind);
      if (at >= lines.size()) {
        throw new Violation("no line is logged for " + kind + " of '" + ev + "', expected <" + text
            + ">");
      }
      CapLog.Line line = lines.get(at++);
      if (isRej && line.thrown instanceof IllegalStateException) {
        t = line.thrown;
      }
      same(level(isRej ? "EXC" : kind), text, t, line, kind + " of '" + ev + "'");
    }
    if (at < lines.size()) {
      throw new Violation("unexpected line: " + lines.get(at));
    }
    for (String k : kinds) {
      c.label(k);
    }
    if (kinds.size() >= 3) {
      c.nontrivial(cfg + hist.toString() + name + th);
    }
  }

  private static void coop(Ctx c) {
    Cfg.Opts o = new Cfg.Opts();
    o.maxStates = 3;
    o.maxActs = 2;
    o.customStates = false;
    o.endW = c.d.chance(1, 3) ? 1 : 0;
    o.bare = o.imm = false;
    boolean dup = c.d.chance(1, 3);
    o.fires = !dup;
    Cfg cfg = Cfg.gen(c.d, o);
    int bound = c.d.chance(1, 4) ? c.d.range(1, 2) : -1;
    String name = listenerName(c);
    boolean own = c.d.chance(1, 3);
    int clients = c.d.range(1, 3);
    int k = 0;
    List<List<Object[]>> plan = new ArrayList<>();
    for (int i = 0; i < clients; i++) {
      List<Object[]> ops = new ArrayList<>();
      int n = c.d.range(1, 4);
      for (int j = 0; j < n; j++) {
        ops.add(new Object[]{c.d.below(cfg.baseEvents()), c.d.chance(1, 4)
            ? new Tok("t" + k, 0, c.d.below(4), c.d.below(World.EXC)) : new Tok("t" + k,
            dup ? 0 : c.d.below(2))});
        k++;
      }
      plan.add(ops);
    }
    c.note("machine: " + cfg + (dup ? " drop-duplicate" : "") + " bound " + bound + " listener '"
        + name + "'" + (own ? " own executor" : ""));
    templates();
    World w = new World(cfg, "m");
    try (Coop co = new Coop(c)) {
      CapLog.start();
      List<CapLog.Line> lines;
      try {
        co.alone("setup", () -> {
          w.build(new GenericStateMachine.Builder<Object, Object>().setContext(w.ctx)
              .setStateMachineListener(both(w, name)).setEventProcessingStrategy(
                  World.strategy(dup, config(own ? new CoopExec(1, null) : null).withMaxQueueSize(
                      bound))).build(), c.d);
          C02.start(w);
        });
        for (int i = 0; i < clients; i++) {
          List<Object[]> ops = plan.get(i);
          co.client("client" + i, () -> {
            for (Object[] op : ops) {
              w.fire((int) op[0], (Tok) op[1]);
            }
          });
        }
        co.go();
      } finally {
        lines = CapLog.stop();
      }
      co.nothingUncaught();
      List<Rec> log = w.logCopy();
      for (Rec r : log) {
        c.note(r + " @" + r.thread.getName());
      }
      for (CapLog.Line line : lines) {
        c.note("logged " + line);
      }
      // the listener's lines are those of the notifications, in their order
      List<CapLog.Line> rest = new ArrayList<>(lines);
      List<CapLog.Line> moves = new ArrayList<>();
      for (CapLog.Line line : lines) {
        if (line.logger.equals(LoggingStateMachineListener.class.getName())) {
          moves.add(line);
          rest.remove(line);
        }
      }
      int at = 0;
      for (Rec r : log) {
        if (r.is("BEGIN") || r.is("END")) {
          String ft = r.text;
          if (at >= moves.size()) {
            throw new Violation("nothing is logged for " + ft);
          }
          CapLog.Line line = moves.get(at++);
          c.check(matches(line.text, r, name, cfg), "logged " + line + " for " + ft);
          c.check(line.level == Level.INFO && line.thrown == null, "logged " + line);
        }
      }
      c.eq(at, moves.size(), "lines of the listener");
      // every exception thrown by a callback is in exactly one error line
      for (Throwable t : w.thrown) {
        int n = 0;
        for (CapLog.Line line : lines) {
          n += line.thrown == t ? 1 : 0;
          if (line.thrown == t) {
            c.check(line.level == Level.ERROR, "not an error: " + line);
            String th = line.text;
            boolean ok = false;
            for (String st : names(cfg)) {
              for (Rec r : log) {
                ok |= th.equals(text("EXC", w.thrower(t).ev, st, r.thread.getName()));
              }
            }
            c.check(ok, "logged <" + th + "> for an exception of '" + w.thrower(t).ev + "'");
          }
        }
        c.eq(1, n, "lines with " + t);
      }
      // what else is logged is about an event that was fired, by its kind
      int[] count = new int[4];
      for (CapLog.Line line : rest) {
        boolean known = w.threw(line.thrown);
        for (String ev : cfg.ev) {
          if (line.thrown == null) {
            boolean drop = line.level == Level.INFO && line.text.equals(text("DROP", ev, "", ""));
            boolean after = line.level == Level.WARN && line.text.equals(text("AFTER", ev, "", ""));
            boolean unm = false;
            for (String st : names(cfg)) {
              unm |= line.level == Level.INFO && line.text.equals(text("UNMAPPED", ev, st, ""));
            }
            if (!known) {
              count[0] += drop && dup ? 1 : 0;
              count[1] += after ? 1 : 0;
              count[2] += unm ? 1 : 0;
            }
            known |= drop && dup || after || unm;
          } else if (line.thrown instanceof IllegalStateException && bound > 0
              && line.level == Level.ERROR) {
            for (String st : names(cfg)) {
              for (Rec r : log) {
                if (!known && line.text.equals(text("EXC", ev, st, r.thread.getName()))) {
                  known = true;
                  count[3]++;
                }
              }
            }
          }
        }
        c.check(known, "unexpected line: " + line);
      }
      // every fired event was processed with callbacks or is in one of those lines, or the end came
      int fired = 0;
      int seen = 0;
      java.util.Set<Object> procs = new java.util.HashSet<>();
      for (Rec r : log) {
        fired += r.is("FIRE") ? 1 : 0;
        if (History.isCallback(r) && r.pay instanceof Tok && procs.add(r.pay)) {
          seen++;
        }
      }
      if (!w.sm.isEnded()) {
        c.eq(fired, seen + count[0] + count[2] + count[3], "events with callbacks (" + seen
            + ") or a line saying they were dropped, unmapped or rejected");
        c.eq(0, count[1], "lines about events after the end");
      }
      c.labelIf(count[0] > 0, "dropped");
      c.labelIf(count[1] > 0, "after end");
      c.labelIf(count[2] > 0, "unmapped");
      c.labelIf(count[3] > 0, "rejected");
      if (clients > 1 || count[0] + count[3] + w.thrown.size() > 0) {
        c.nontrivial(cfg + plan.toString() + Util.callbacks(log) + co.s.steps());
      }
    }
  }

  private static List<String> names(Cfg cfg) {
    List<String> l = new ArrayList<>(cfg.st);
    l.add(Names.END);
    return l;
  }

  private static boolean matches(String line, Rec r, String name, Cfg cfg) {
    List<String> ns = names(cfg);
    ns.add(Names.UNINIT);
    ns.add(Names.NOOP);
    for (String f : ns) {
      for (String t : ns) {
        if (r.text.contains(" '" + f + "'->'" + t + "' ") && line.equals(move(name, r.is("END"), f,
            r.ev, t))) {
          return true;
        }
      }
    }
    return false;
  }

  private static void app(Ctx c) {
    App a = App.gen(c, "A", false, false);
    a.keepListener = true;
    App.Model m = new App.Model(a);
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> a.build(c));
      int n = c.d.range(1, 10);
      CapLog.start();
      List<CapLog.Line> lines;
      StringBuilder hist = new StringBuilder(a.toString());
      try {
        for (int i = 0; i < n; i++) {
          char op = i == 0 ? 's' : c.d.pick('s', 'x', 'x', 'e', 's', 'x');
          hist.append(op);
          m.call(op);
          co.task("op" + i, () -> a.call(op));
          co.settle();
          m.pump();
        }
      } finally {
        lines = CapLog.stop();
      }
      c.note(hist.toString());
      String name = a.ctx.getAppName();
      List<String> exp = new ArrayList<>();
      for (String s : m.out) {
        boolean end = s.startsWith("END ");
        if (end || s.startsWith("BEGIN ")) {
          String b = s.substring(end ? 4 : 6);
          String[] p = b.split(" \\+ | = ");
          exp.add(move(name, end, p[0], p[1], p[2]));
        }
      }
      int at = 0;
      for (CapLog.Line line : lines) {
        if (line.logger.equals(LoggingStateMachineListener.class.getName())) {
          if (at >= exp.size()) {
            throw new Violation("unexpected line: " + line);
          }
          same(Level.INFO, exp.get(at++), null, line, "application");
        }
      }
      c.eq(exp.size(), at, "transition lines of the application");
      for (Sched.Uncaught u : co.s.uncaught) {
        throw new Violation("uncaught: " + u + " at " + Coop.top(u.error));
      }
      if (at >= 8) {
        c.nontrivial(hist + name);
      }
    }
  }
}
