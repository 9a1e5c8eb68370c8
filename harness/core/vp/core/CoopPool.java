package vp.core;

import java.util.List;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.Executors;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.RejectedExecutionHandler;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.ThreadPoolExecutor;
import java.util.concurrent.TimeUnit;

/** A ThreadPoolExecutor of the code under test: in a session its workers are tasks of it. */
public class CoopPool extends ThreadPoolExecutor {

  private CoopExec coop;

  public CoopPool(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q) {
    this(core, max, keep, unit, q, Executors.defaultThreadFactory());
  }

  public CoopPool(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q,
      ThreadFactory f) {
    this(core, max, keep, unit, q, f, new AbortPolicy());
  }

  public CoopPool(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q,
      RejectedExecutionHandler h) {
    this(core, max, keep, unit, q, Executors.defaultThreadFactory(), h);
  }

  public CoopPool(int core, int max, long keep, TimeUnit unit, BlockingQueue<Runnable> q,
      ThreadFactory f, RejectedExecutionHandler h) {
    super(core, max, keep, unit, q, f, h);
    if (Sched.current() != null) {
      coop = new CoopExec(q.remainingCapacity() == 0 ? Math.min(max, 64) : Math.max(core, 1), f);
    }
  }

  @Override
  public void execute(Runnable r) {
    if (coop == null) {
      super.execute(r);
      return;
    }
    try {
      coop.execute(r);
    } catch (RejectedExecutionException e) {
      getRejectedExecutionHandler().rejectedExecution(r, this);
    }
  }

  @Override
  public void shutdown() {
    if (coop != null) {
      coop.shutdown();
    }
    super.shutdown();
  }

  @Override
  public List<Runnable> shutdownNow() {
    List<Runnable> l = super.shutdownNow();
    return coop == null ? l : coop.shutdownNow();
  }

  @Override
  public boolean isTerminated() {
    return coop == null ? super.isTerminated() : coop.isTerminated();
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) throws InterruptedException {
    return coop == null ? super.awaitTermination(timeout, unit)
        : coop.awaitTermination(timeout, unit);
  }
}
