package vp.core;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.TimeUnit;

/** An executor whose tasks run when, and on the thread where, the harness pumps it. */
public final class ManualExec extends AbstractExecutorService {

  private final Deque<Runnable> tasks = new ArrayDeque<>();
  public final List<Throwable> escaped = new ArrayList<>();
  private boolean shutdown;
  private boolean pumping;
  public int submitted;

  @Override
  public void execute(Runnable r) {
    if (shutdown) {
      throw new RejectedExecutionException("shut down");
    }
    submitted++;
    tasks.add(r);
  }

  public boolean isPumping() {
    return pumping;
  }

  public int pending() {
    return tasks.size();
  }

  /** runs one task; false when there is none */
  public boolean step() {
    Runnable r = tasks.poll();
    if (r == null) {
      return false;
    }
    pumping = true;
    try {
      r.run();
    } catch (Throwable t) {
      escaped.add(t);
    } finally {
      pumping = false;
      // as thread pools do between tasks
      Thread.interrupted();
    }
    return true;
  }

  public void drain() {
    int guard = 0;
    while (step()) {
      if (++guard > 3_000_000) {
        throw new HangViolation("executor tasks never run out");
      }
    }
  }

  @Override
  public void shutdown() {
    shutdown = true;
  }

  @Override
  public List<Runnable> shutdownNow() {
    shutdown = true;
    List<Runnable> l = new ArrayList<>(tasks);
    tasks.clear();
    return l;
  }

  @Override
  public boolean isShutdown() {
    return shutdown;
  }

  @Override
  public boolean isTerminated() {
    return shutdown && tasks.isEmpty();
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) {
    return isTerminated();
  }
}
