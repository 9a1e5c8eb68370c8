package vp.core;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;

/** A thread pool whose workers are tasks of the scheduler's session. */
public final class CoopExec extends AbstractExecutorService {

  private final int size;
  private final ThreadFactory factory;
  private final Deque<Runnable> tasks = new ArrayDeque<>();
  private Sched session;
  private int workers;
  private int busy;
  private int named;
  private volatile boolean shutdown;
  public int executed;
  /** what escaped from tasks to the worker threads */
  public final List<Sched.Uncaught> escaped = new ArrayList<>();
  public final List<Thread> threads = new ArrayList<>();

  public CoopExec(int size, ThreadFactory factory) {
    this.size = size;
    this.factory = factory;
  }

  @Override
  public void execute(Runnable r) {
    if (r == null) {
      throw new NullPointerException();
    }
    Sched.point();
    Sched s = Sched.current();
    if (s == null) {
      throw new IllegalStateException("CoopExec used outside a session");
    }
    boolean spawn = false;
    synchronized (this) {
      if (s != session) {
        session = s;
        workers = 0;
        busy = 0;
        tasks.clear();
      }
      if (shutdown) {
        throw new RejectedExecutionException("executor has been shut down");
      }
      tasks.add(r);
      if (workers < size && tasks.size() + busy > workers) {
        workers++;
        spawn = true;
      }
    }
    if (spawn) {
      spawn(s);
    }
    Sched.point();
  }

  private void spawn(Sched s) {
    String n;
    synchronized (this) {
      n = "worker-" + named++;
    }
    s.worker(n, factory, () -> loop(s));
  }

  private void loop(Sched s) {
    synchronized (this) {
      threads.add(Thread.currentThread());
    }
    while (true) {
      s.idleUntil(() -> !tasks.isEmpty() || shutdown);
      Runnable r;
      synchronized (this) {
        r = tasks.poll();
        if (r == null) {
          if (shutdown) {
            workers--;
            return;
          }
          continue;
        }
        busy++;
        executed++;
      }
      boolean died = true;
      try {
        r.run();
        died = false;
      } catch (Sched.Abort a) {
        throw a;
      } catch (Throwable t) {
        synchronized (this) {
          escaped.add(new Sched.Uncaught(Thread.currentThread(), t));
        }
        Thread.UncaughtExceptionHandler h = Thread.currentThread().getUncaughtExceptionHandler();
        if (h != null && h != Thread.currentThread().getThreadGroup()) {
          h.uncaughtException(Thread.currentThread(), t);
        }
      } finally {
        synchronized (this) {
          busy--;
        }
      }
      if (died) {
        // like a ThreadPoolExecutor: this thread is gone, another replaces it
        boolean more;
        synchronized (this) {
          more = !tasks.isEmpty();
          if (!more) {
            workers--;
          }
        }
        if (more) {
          spawn(s);
        }
        return;
      }
    }
  }

  @Override
  public void shutdown() {
    shutdown = true;
  }

  @Override
  public List<Runnable> shutdownNow() {
    synchronized (this) {
      shutdown = true;
      List<Runnable> l = new ArrayList<>(tasks);
      tasks.clear();
      return l;
    }
  }

  @Override
  public boolean isShutdown() {
    return shutdown;
  }

  @Override
  public boolean isTerminated() {
    return shutdown && workers == 0;
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) {
    return isTerminated();
  }
}
