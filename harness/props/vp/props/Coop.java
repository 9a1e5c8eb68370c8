package vp.props;

import java.util.ArrayList;
import java.util.List;
import vp.core.Ctx;
import vp.core.HangViolation;
import vp.core.Sched;
import vp.core.Violation;

/** A scheduled scenario. */
final class Coop implements AutoCloseable {

  final Ctx c;
  final Sched s;
  private final List<Sched.Task> tasks = new ArrayList<>();

  Coop(Ctx c) {
    this(c, 300_000);
  }

  Coop(Ctx c, long steps) {
    this.c = c;
    this.s = new Sched(c.s, steps);
  }

  Coop client(String name, Runnable r) {
    tasks.add(s.client(name, r));
    return this;
  }

  Sched.Task task(String name, Runnable r) {
    Sched.Task t = s.client(name, r);
    tasks.add(t);
    return t;
  }

  /** runs to where nothing can move; some may be blocked */
  Coop settle() {
    int limit = s.pollLimit;
    s.pollLimit = 60;
    Sched.End e = run();
    s.pollLimit = limit;
    if (e == Sched.End.STEP_LIMIT) {
      throw new HangViolation("does not come to rest: " + s.endDetail());
    }
    return this;
  }

  /** runs what was added to quiescence */
  Sched.End run() {
    Sched.End e = s.run();
    for (Sched.Task t : tasks) {
      if (t.failure instanceof Violation) {
        throw (Violation) t.failure;
      }
      if (t.failure instanceof LinkageError || t.failure instanceof OutOfMemoryError) {
        throw (Error) t.failure;
      }
      if (t.failure != null) {
        throw new Violation("unexpected " + t.failure + " in " + t + " at " + top(t.failure),
            t.failure);
      }
    }
    return e;
  }

  /** as run, and nothing may be stuck */
  Coop go() {
    Sched.End e = run();
    if (e == Sched.End.DEADLOCK) {
      throw new HangViolation("nothing can move any more: " + s.endDetail());
    }
    if (e == Sched.End.STEP_LIMIT) {
      throw new HangViolation("does not come to rest: " + s.endDetail());
    }
    return this;
  }

  Coop alone(String name, Runnable r) {
    return client(name, r).go();
  }

  void nothingUncaught() {
    if (!s.uncaught.isEmpty()) {
      throw new Violation("uncaught: " + s.uncaught.get(0) + " at "
          + top(s.uncaught.get(0).error));
    }
  }

  static String top(Throwable t) {
    StringBuilder b = new StringBuilder();
    StackTraceElement[] st = t.getStackTrace();
    for (int i = 0; i < Math.min(5, st.length); i++) {
      b.append(st[i]).append(" < ");
    }
    return b.toString();
  }

  @Override
  public void close() {
    s.close();
  }
}
