package vp.props;

import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;
import vp.core.Ctx;
import vp.core.HangViolation;
import vp.core.Part;
import vp.core.Violation;

/** When an application's start call returns. */
final class C14 {

  private C14() {
  }

  static List<Part> parts() {
    List<Part> l = new ArrayList<>();
    l.add(new Part("seq", 9000, 300_000, c -> C13.seq(c, false)).inst().rule(
        "as C13 seq; after each call the first start call has returned exactly if the application "
            + "is over; finally the application is brought to its end; non-trivial: at least two "
            + "cycles or a failing subsystem"));
    l.add(new Part("coop", 6000, 200_000, c -> C13.coop(c, false)).inst().rule(
        "as C13 coop, the first start call racing with stop, error, restart and another start; "
            + "non-trivial: at least 4 transitions and a preemption"));
    l.add(new Part("threads", 3, 40, C14::threads).racy().workers(1).rule(
        "real threads: applications started, restarted and stopped at random moments, each start "
            + "call returns"));
    return l;
  }

  /** two applications at once, for C11 */
  static void several(Ctx c) {
    App a = App.gen(c, "A", false, true);
    App b = App.gen(c, "B", false, true);
    try (Coop co = new Coop(c)) {
      co.alone("setup", () -> {
        a.build(c);
        b.build(c);
      });
      String desc = C13.drive(c, co, a) + C13.drive(c, co, b);
      c.note(desc);
      co.settle();
      int n = 0;
      for (App x : new App[]{a, b}) {
        try {
          n += C13.settled(c, co, x).transitions >= 4 ? 1 : 0;
          C13.finish(c, co, x);
        } catch (Violation v) {
          throw new Violation("application " + x.tag + ": " + v.getMessage(), v);
        }
      }
      if (n == 2) {
        c.nontrivial(desc + a.trace() + b.trace() + co.s.steps());
      }
    }
  }

  private static void threads(Ctx c) throws Exception {
    for (int round = 0; round < 40; round++) {
      App a = App.gen(c, "A", false, false).build(c);
      CountDownLatch back = new CountDownLatch(1);
      Thread t = new Thread(() -> {
        a.logged('s');
        back.countDown();
      });
      t.setDaemon(true);
      t.start();
      int n = c.d.range(1, 6);
      for (int i = 0; i < n; i++) {
        if (c.d.bool()) {
          Thread.sleep(c.d.below(3));
        }
        char op = c.d.pick('x', 's', 'e');
        if (op == 's' && i == 0) {
          continue;
        }
        if (op == 's' && a.app.getLifecycleState() == null) {
          continue;
        }
        a.logged(op);
      }
      long limit = System.nanoTime() + TimeUnit.SECONDS.toNanos(60);
      while (!back.await(1, TimeUnit.MILLISECONDS)) {
        if (a.app.getLifecycleState() != null) {
          a.logged('x');
        }
        if (System.nanoTime() > limit) {
          throw new HangViolation("the first start call does not return, the application is in "
              + a.state());
        }
      }
      t.join();
      while (!a.state().equals(Names.END)) {
        Thread.sleep(1);
        if (System.nanoTime() > limit) {
          throw new HangViolation("the application does not end, it is in " + a.state());
        }
      }
      Thread.sleep(1);
      App.Seen s = a.lifecycle();
      c.eq("ok", s.firstRes, "outcome of the first start call");
      if (s.firstRet < (a.exit ? s.stopped : s.ended)) {
        throw new Violation("the first start call returned before the application was over");
      }
    }
    c.nontrivial("run" + c.d.below(1 << 20));
  }
}
