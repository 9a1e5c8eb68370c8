package vp.core;

import java.util.ArrayList;
import java.util.Date;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.Callable;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.CompletableFuture;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.Future;
import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.TimeoutException;
import java.util.concurrent.locks.Condition;
import java.util.concurrent.locks.Lock;
import java.util.concurrent.locks.LockSupport;
import java.util.concurrent.locks.ReentrantLock;
import java.util.concurrent.locks.ReentrantReadWriteLock;
import java.util.function.BooleanSupplier;

/**
 * A deterministic cooperative scheduler for real threads: of the threads of a session only the one
 * holding the baton runs, and it hands the baton over at scheduling points, as a choice sequence
 * says. Instrumented code calls {@link #point()} before shared accesses and uses virtual monitors.
 * A thread that blocks in a way the scheduler does not know is noticed by a watchdog and treated as
 * running outside until it comes back to a scheduling point.
 */
public final class Sched {

  /** unwinds a thread when its session is over */
  public static final class Abort extends Error {

    private static final long serialVersionUID = 1L;

    Abort() {
      super("session over", null, false, false);
    }
  }

  public enum End {IDLE, DEADLOCK, STEP_LIMIT}

  private static final int RUNNABLE = 0;
  private static final int BLOCKED = 1;
  private static final int EXTERNAL = 2;
  private static final int DONE = 3;

  public final class Task {

    final String name;
    final int id;
    final boolean daemon;
    volatile Thread thread;
    int state = RUNNABLE;
    BooleanSupplier cond;
    long deadline = -1;
    /** it goes on because its time was up, or has gone on since then */
    boolean expired;
    boolean idleWait;
    String why = "";
    volatile boolean baton;
    volatile boolean parked;
    volatile boolean pendingInterrupt;
    long prio;
    int burst;
    public Throwable failure;

    Task(String name, boolean daemon) {
      this.name = name;
      this.daemon = daemon;
      this.id = tasks.size();
    }

    Sched session() {
      return Sched.this;
    }

    boolean interrupted() {
      return pendingInterrupt || thread.isInterrupted();
    }

    @Override
    public String toString() {
      return name;
    }
  }

  private final class Group extends ThreadGroup {

    Group() {
      super("vp-session");
    }

    Sched session() {
      return Sched.this;
    }

    @Override
    public void uncaughtException(Thread t, Throwable e) {
      if (!(e instanceof Abort)) {
        synchronized (uncaught) {
          uncaught.add(new Uncaught(t, e));
        }
      }
    }
  }

  public static final class Uncaught {

    public final Thread thread;
    public final Throwable error;

    Uncaught(Thread thread, Throwable error) {
      this.thread = thread;
      this.error = error;
    }

    @Override
    public String toString() {
      return error + " on " + thread.getName();
    }
  }

  private static final ThreadLocal<Task> CUR = new ThreadLocal<>();
  private static final ThreadLocal<Sched> OWNER = new ThreadLocal<>();
  private static final int FAIR = 3000;

  private final Object lock = new Object();
  private final List<Task> tasks = new ArrayList<>();
  private final Group group = new Group();
  private final Src src;
  private final int mode;
  private final int scale;
  private final long stepLimit;
  private int gap;
  private long minPrio;
  private Task current;
  private long vtime;
  private volatile long steps;
  /** so many waits in a row may expire before those that wait again count as blocked */
  public int pollLimit = 3000;
  private int expiries;
  private volatile boolean aborting;
  private boolean running;
  private End end;
  private int noYield;
  private int preemptions;
  private int switches;
  private boolean externals;
  private String endDetail = "";
  private final Map<Object, VLock> vlocks = new IdentityHashMap<>();
  /** exceptions that left an executor task or a thread of the session */
  public final List<Uncaught> uncaught = new ArrayList<>();

  private static final class VLock {

    Task owner;
    int count;
    int waiters;
    long notifySeq;
    int permits;
  }

  public Sched(Src src, long stepLimit) {
    this.src = src;
    this.stepLimit = stepLimit;
    int m = src.below(8);
    if (m == 0) {
      mode = 0;
      scale = 0;
    } else if (m <= 5) {
      mode = 1;
      scale = new int[]{2, 4, 8, 32, 128}[m - 1];
    } else {
      mode = 2;
      scale = m == 6 ? 60 : 300;
    }
    gap = newGap();
    OWNER.set(this);
  }

  private int newGap() {
    if (mode == 0) {
      return Integer.MAX_VALUE;
    }
    int v = src.belowNz(2 * scale + 1);
    return v == 0 ? Integer.MAX_VALUE : v;
  }

  // ---------------------------------------------------------------- harness API

  /** the session of this thread, or null */
  public static Sched current() {
    Task t = CUR.get();
    return t == null ? null : t.session();
  }

  /** adds a client thread that runs body when the session runs */
  public Task client(String name, Runnable body) {
    synchronized (lock) {
      Task t = new Task(name, false);
      newPrio(t);
      tasks.add(t);
      Thread th = new Thread(group, () -> taskMain(t, body), name);
      th.setDaemon(true);
      t.thread = th;
      th.start();
      return t;
    }
  }

  private void newPrio(Task t) {
    t.prio = mode == 2 ? 1 + src.below(1000) : 0;
  }

  /** registers a worker whose thread is made by a factory; start() must follow */
  Task worker(String name, ThreadFactory factory, Runnable body) {
    Task t;
    synchronized (lock) {
      t = new Task(name, true);
      newPrio(t);
      tasks.add(t);
    }
    Thread th = factory == null ? new Thread(group, () -> taskMain(t, body), name)
        : factory.newThread(() -> taskMain(t, body));
    if (factory == null) {
      th.setDaemon(true);
    }
    t.thread = th;
    th.start();
    return t;
  }

  /** what a thread started by the code under test runs, or null outside of a session */
  static Runnable threadMain(Thread th, Runnable body) {
    Task c = CUR.get();
    if (c == null) {
      return null;
    }
    Sched s = c.session();
    Task t;
    synchronized (s.lock) {
      t = s.new Task(th.getName(), true);
      s.newPrio(t);
      s.tasks.add(t);
      t.thread = th;
    }
    return () -> s.taskMain(t, body);
  }

  private void taskMain(Task t, Runnable body) {
    t.thread = Thread.currentThread();
    CUR.set(t);
    try {
      awaitBaton(t);
      body.run();
    } catch (Abort a) {
      // over
    } catch (Throwable e) {
      t.failure = e;
      if (!aborting) {
        synchronized (uncaught) {
          uncaught.add(new Uncaught(Thread.currentThread(), e));
        }
      }
    } finally {
      synchronized (lock) {
        t.state = DONE;
        for (VLock v : vlocks.values()) {
          if (v.owner == t) {
            v.owner = null;
            v.count = 0;
          }
        }
        if (current == t) {
          current = null;
          dispatch(null);
        }
      }
      CUR.remove();
    }
  }

  /** runs until every client is done and every worker idle, or nothing can move */
  public End run() {
    synchronized (lock) {
      end = null;
      running = true;
      expiries = 0;
      if (current == null) {
        dispatch(null);
      }
      long lastSteps = -1;
      Task lastTask = null;
      int same = 0;
      int quiet = 0;
      while (end == null) {
        try {
          lock.wait(2);
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
        if (end != null) {
          break;
        }
        Task c = current;
        if (c != null) {
          quiet = 0;
          if (c == lastTask && steps == lastSteps && !c.parked && c.thread != null) {
            Thread.State st = c.thread.getState();
            if (st == Thread.State.BLOCKED || st == Thread.State.WAITING
                || st == Thread.State.TIMED_WAITING || st == Thread.State.TERMINATED) {
              same++;
            } else {
              same = 0;
            }
          } else {
            same = 0;
          }
          if (same >= 5) {
            externals = true;
            same = 0;
            c.state = st(c) == Thread.State.TERMINATED ? DONE : EXTERNAL;
            c.baton = false;
            current = null;
            dispatch(null);
          }
          lastTask = c;
          lastSteps = steps;
        } else {
          // nobody holds the baton: only external threads are left
          boolean allWaiting = true;
          for (Task t : tasks) {
            if (t.state == EXTERNAL) {
              Thread.State st = st(t);
              if (st == Thread.State.TERMINATED) {
                t.state = DONE;
              } else if (st == Thread.State.RUNNABLE || st == Thread.State.TIMED_WAITING) {
                allWaiting = false;
              }
            }
          }
          quiet = allWaiting ? quiet + 1 : 0;
          boolean clientsOut = false;
          for (Task t : tasks) {
            clientsOut |= !t.daemon && t.state == EXTERNAL;
          }
          if (quiet > (clientsOut ? 2500 : 60)) {
            finish(clientsOut || blockedClient() != null ? End.DEADLOCK : End.IDLE);
          } else {
            dispatch(null);
          }
        }
      }
      running = false;
      return end;
    }
  }

  private static Thread.State st(Task t) {
    return t.thread == null ? Thread.State.NEW : t.thread.getState();
  }

  private Task blockedClient() {
    for (Task t : tasks) {
      if (!t.daemon && t.state != DONE) {
        return t;
      }
    }
    return null;
  }

  private void finish(End e) {
    end = e;
    StringBuilder b = new StringBuilder();
    for (Task t : tasks) {
      if (t.state != DONE && !(t.daemon && t.idleWait)) {
        b.append(t.name).append(t.state == BLOCKED ? " blocked: " + t.why
            : t.state == EXTERNAL ? " blocked outside" : " runnable").append("; ");
      }
    }
    endDetail = b.toString();
    lock.notifyAll();
  }

  public String endDetail() {
    return endDetail;
  }

  /** ends the session: all its threads unwind */
  public void close() {
    aborting = true;
    List<Task> ts;
    synchronized (lock) {
      ts = new ArrayList<>(tasks);
    }
    for (Task t : ts) {
      if (t.thread != null) {
        LockSupport.unpark(t.thread);
      }
    }
    for (Task t : ts) {
      if (t.thread != null && t.state != EXTERNAL) {
        try {
          t.thread.join(200);
        } catch (InterruptedException e) {
          Thread.currentThread().interrupt();
        }
      }
      if (t.thread != null && t.thread.isAlive()) {
        t.thread.interrupt();
      }
    }
    OWNER.remove();
  }

  public long steps() {
    return steps;
  }

  public int preemptions() {
    return preemptions;
  }

  public int switches() {
    return switches;
  }

  public boolean hadExternals() {
    return externals;
  }

  public boolean isDone(Task t) {
    synchronized (lock) {
      return t.state == DONE;
    }
  }

  /** harness code and code under test: waits until cond holds (cond must not call tested code) */
  public static void block(BooleanSupplier cond, String why) {
    Task t = CUR.get();
    if (t == null) {
      throw new IllegalStateException("not in a session");
    }
    t.session().doBlock(t, cond, why, -1, false);
  }

  // ---------------------------------------------------------------- scheduling

  /** a scheduling point */
  public static void point() {
    Task t = CUR.get();
    if (t == null) {
      t = adopt();
      if (t == null) {
        return;
      }
    }
    t.session().onPoint(t);
  }

  private static Task adopt() {
    ThreadGroup g = Thread.currentThread().getThreadGroup();
    if (!(g instanceof Group)) {
      return null;
    }
    Sched s = ((Group) g).session();
    if (s.aborting) {
      throw new Abort();
    }
    Task t;
    synchronized (s.lock) {
      s.externals = true;
      t = s.new Task("foreign-" + Thread.currentThread().getName(), true);
      t.thread = Thread.currentThread();
      t.state = EXTERNAL;
      s.newPrio(t);
      s.tasks.add(t);
    }
    CUR.set(t);
    return t;
  }

  private void onPoint(Task t) {
    if (aborting) {
      throw new Abort();
    }
    if (noYield > 0 && current == t) {
      return;
    }
    if (t.state == EXTERNAL) {
      comeBack(t);
    }
    steps++;
    if (steps > stepLimit) {
      synchronized (lock) {
        if (end == null) {
          finish(End.STEP_LIMIT);
        }
      }
      aborting = true;
      throw new Abort();
    }
    t.burst++;
    if (--gap <= 0 || t.burst > FAIR) {
      boolean fair = t.burst > FAIR;
      synchronized (lock) {
        if (gap <= 0) {
          gap = newGap();
        }
        if (mode == 2 || fair) {
          t.prio = --minPrio;
        }
        Task next = pick(t, true);
        if (next != null && next != t) {
          preemptions++;
          t.state = RUNNABLE;
          hand(t, next);
        }
        t.burst = 0;
      }
      awaitBaton(t);
    }
  }

  private void comeBack(Task t) {
    synchronized (lock) {
      t.state = RUNNABLE;
      if (current == null && running) {
        current = t;
        t.baton = true;
      }
    }
    awaitBaton(t);
  }

  private void awaitBaton(Task t) {
    if (t.baton) {
      return;
    }
    t.parked = true;
    while (!t.baton) {
      if (aborting) {
        throw new Abort();
      }
      LockSupport.park(this);
      // an interrupt must not turn this into a spin
      if (!t.baton && Thread.interrupted()) {
        t.pendingInterrupt = true;
      }
    }
    t.parked = false;
    if (t.pendingInterrupt) {
      t.pendingInterrupt = false;
      Thread.currentThread().interrupt();
    }
    if (aborting) {
      throw new Abort();
    }
  }

  /** waits that expire again and again are no progress */
  private void goesOn(Task t) {
    if (t.state == BLOCKED) {
      t.expired = t.deadline >= 0 && t.deadline <= vtime;
    }
    if (!t.expired) {
      expiries = 0;
    }
  }

  private void hand(Task from, Task to) {
    from.baton = false;
    goesOn(to);
    current = to;
    switches++;
    to.state = RUNNABLE;
    to.cond = null;
    to.deadline = -1;
    to.idleWait = false;
    to.baton = true;
    LockSupport.unpark(to.thread);
  }

  private boolean ready(Task t) {
    if (t.state == RUNNABLE) {
      return true;
    }
    if (t.state != BLOCKED) {
      return false;
    }
    if (t.cond != null) {
      noYield++;
      try {
        if (t.cond.getAsBoolean()) {
          return true;
        }
      } finally {
        noYield--;
      }
    }
    return t.deadline >= 0 && t.deadline <= vtime;
  }

  /** chooses who goes on; other: prefer one that is not me */
  private Task pick(Task me, boolean other) {
    List<Task> r = new ArrayList<>();
    int n = tasks.size();
    int base = me == null ? 0 : me.id + 1;
    for (int i = 0; i < n; i++) {
      Task t = tasks.get((base + i) % n);
      if (other && t == me) {
        continue;
      }
      if (t != me && t.thread != null && t.state != DONE && ready(t)) {
        r.add(t);
      } else if (t == me && !other && ready(t)) {
        r.add(t);
      }
    }
    if (r.isEmpty()) {
      return null;
    }
    if (mode == 2) {
      Task best = other ? me : r.get(0);
      for (Task t : r) {
        if (t.prio > best.prio) {
          best = t;
        }
      }
      return best;
    }
    return r.get(src.below(r.size()));
  }

  /** gives the baton to somebody; called with the lock held and current == null */
  private void dispatch(Task from) {
    if (aborting || end != null) {
      return;
    }
    while (true) {
      Task next = pick(from, false);
      if (next != null) {
        goesOn(next);
        current = next;
        switches++;
        next.state = RUNNABLE;
        next.cond = null;
        next.deadline = -1;
        next.idleWait = false;
        next.baton = true;
        if (next.thread != Thread.currentThread()) {
          LockSupport.unpark(next.thread);
        }
        return;
      }
      long min = Long.MAX_VALUE;
      boolean ext = false;
      for (Task t : tasks) {
        if (t.state == BLOCKED && t.deadline >= 0) {
          min = Math.min(min, t.deadline);
        }
        ext |= t.state == EXTERNAL;
      }
      if (ext) {
        return;
      }
      if (min != Long.MAX_VALUE && (!running || expiries++ < pollLimit)) {
        vtime = Math.max(vtime, min);
        continue;
      }
      if (running) {
        finish(blockedClient() == null ? End.IDLE : End.DEADLOCK);
      }
      return;
    }
  }

  private void doBlock(Task t, BooleanSupplier cond, String why, long nanos, boolean idle) {
    onPoint(t);
    synchronized (lock) {
      noYield++;
      try {
        if (cond != null && cond.getAsBoolean()) {
          return;
        }
      } finally {
        noYield--;
      }
      t.state = BLOCKED;
      t.cond = cond;
      t.why = why;
      t.idleWait = idle;
      t.deadline = nanos < 0 ? -1 : vtime + nanos;
      t.baton = false;
      t.burst = 0;
      current = null;
      dispatch(t);
    }
    awaitBaton(t);
  }

  void idleUntil(BooleanSupplier cond) {
    doBlock(CUR.get(), cond, "idle", -1, true);
  }

  // ---------------------------------------------------------------- virtual monitors

  public static void monEnter(Object o) {
    if (o == null) {
      throw new NullPointerException();
    }
    point();
    Task t = CUR.get();
    if (t == null) {
      return;
    }
    t.session().vEnter(t, o, 1);
  }

  private void vEnter(Task t, Object o, int count) {
    while (true) {
      VLock v;
      synchronized (lock) {
        v = vlocks.computeIfAbsent(o, k -> new VLock());
        if (v.owner == null || v.owner == t) {
          v.owner = t;
          v.count += count;
          return;
        }
      }
      VLock w = v;
      doBlock(t, () -> w.owner == null, "monitor of " + o.getClass().getSimpleName() + " held by "
          + w.owner, -1, false);
    }
  }

  public static boolean holdsLock(Object o) {
    Task t = CUR.get();
    if (t == null) {
      return Thread.holdsLock(o);
    }
    Sched s = t.session();
    synchronized (s.lock) {
      VLock v = s.vlocks.get(o);
      return v != null && v.owner == t;
    }
  }

  public static void monExit(Object o) {
    Task t = CUR.get();
    if (t == null) {
      return;
    }
    Sched s = t.session();
    synchronized (s.lock) {
      VLock v = s.vlocks.get(o);
      if (v != null && v.owner == t && --v.count == 0) {
        v.owner = null;
        if (v.waiters == 0) {
          s.vlocks.remove(o);
        }
      }
    }
  }

  public static void objWait(Object o) throws InterruptedException {
    objWait(o, 0L);
  }

  public static void objWait(Object o, long ms) throws InterruptedException {
    Task t = CUR.get();
    if (t == null) {
      o.wait(ms);
      return;
    }
    Sched s = t.session();
    VLock v;
    int count;
    synchronized (s.lock) {
      v = s.vlocks.get(o);
      if (v == null || v.owner != t) {
        throw new IllegalMonitorStateException();
      }
      count = v.count;
      v.owner = null;
      v.count = 0;
      v.waiters++;
    }
    long seq = v.notifySeq;
    VLock w = v;
    boolean[] got = {false};
    try {
      s.doBlock(t, () -> {
        if (w.permits > 0 && w.notifySeq > seq) {
          return true;
        }
        return t.interrupted();
      }, "Object.wait", ms > 0 ? ms * 1_000_000L : -1, false);
      synchronized (s.lock) {
        if (v.permits > 0 && v.notifySeq > seq) {
          v.permits--;
          got[0] = true;
        }
      }
    } finally {
      synchronized (s.lock) {
        v.waiters--;
      }
      s.vEnter(t, o, count);
    }
    if (!got[0] && Thread.interrupted()) {
      throw new InterruptedException();
    }
  }

  public static void objNotify(Object o, boolean all) {
    Task t = CUR.get();
    if (t == null) {
      if (all) {
        o.notifyAll();
      } else {
        o.notify();
      }
      return;
    }
    Sched s = t.session();
    synchronized (s.lock) {
      VLock v = s.vlocks.get(o);
      if (v != null && v.waiters > 0) {
        v.notifySeq++;
        v.permits = all ? v.waiters : Math.min(v.waiters, v.permits + 1);
      }
    }
  }

  public static void objNotifyOne(Object o) {
    objNotify(o, false);
  }

  public static void objNotifyAll(Object o) {
    objNotify(o, true);
  }

  // ---------------------------------------------------------------- redirected blocking calls

  public static void lockLock(Lock l) {
    point();
    Task t = CUR.get();
    if (t == null) {
      l.lock();
      return;
    }
    while (!l.tryLock()) {
      t.session().doBlock(t, free(l), "lock", -1, false);
    }
  }

  private static BooleanSupplier free(Lock l) {
    if (l instanceof ReentrantLock) {
      return () -> !((ReentrantLock) l).isLocked();
    }
    long[] tries = {0};
    return () -> tries[0]++ > 0;
  }

  public static void lockLockInterruptibly(Lock l) throws InterruptedException {
    lockLock(l);
  }

  public static boolean lockTryLock(Lock l, long time, TimeUnit u) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return l.tryLock(time, u);
    }
    if (l.tryLock()) {
      return true;
    }
    t.session().doBlock(t, free(l), "tryLock", u.toNanos(time), false);
    return l.tryLock();
  }

  public static boolean lockTryLock(Lock l) {
    point();
    return l.tryLock();
  }

  public static void lockUnlock(Lock l) {
    l.unlock();
  }

  public static Condition newCondition(Lock l) {
    return new CoopCond(l);
  }

  /** a condition on which tasks wait cooperatively and others as usual */
  private static final class CoopCond implements Condition {

    private final Lock lock;
    private final Condition real;
    private final List<boolean[]> waiting = new ArrayList<>();

    CoopCond(Lock lock) {
      this.lock = lock;
      real = lock.newCondition();
    }

    private boolean wait(Task t, long ns, boolean interruptibly) throws InterruptedException {
      boolean[] told = {false};
      synchronized (waiting) {
        waiting.add(told);
      }
      int n = lock instanceof ReentrantLock ? ((ReentrantLock) lock).getHoldCount() : 1;
      for (int i = 0; i < n; i++) {
        lock.unlock();
      }
      boolean got;
      try {
        t.session().doBlock(t, () -> is(told) || interruptibly && t.interrupted(), "condition", ns,
            false);
      } finally {
        synchronized (waiting) {
          got = told[0];
          waiting.remove(told);
        }
        for (int i = 0; i < n; i++) {
          lockLock(lock);
        }
      }
      if (!got && interruptibly && Thread.interrupted()) {
        throw new InterruptedException();
      }
      return got;
    }

    private boolean is(boolean[] told) {
      synchronized (waiting) {
        return told[0];
      }
    }

    @Override
    public void await() throws InterruptedException {
      Task t = CUR.get();
      if (t == null) {
        real.await();
      } else {
        wait(t, -1, true);
      }
    }

    @Override
    public void awaitUninterruptibly() {
      Task t = CUR.get();
      if (t == null) {
        real.awaitUninterruptibly();
        return;
      }
      try {
        wait(t, -1, false);
      } catch (InterruptedException e) {
        throw new AssertionError(e);
      }
    }

    @Override
    public long awaitNanos(long ns) throws InterruptedException {
      Task t = CUR.get();
      return t == null ? real.awaitNanos(ns) : wait(t, ns, true) ? 1 : 0;
    }

    @Override
    public boolean await(long time, TimeUnit u) throws InterruptedException {
      Task t = CUR.get();
      return t == null ? real.await(time, u) : wait(t, u.toNanos(time), true);
    }

    @Override
    public boolean awaitUntil(Date d) throws InterruptedException {
      return real.awaitUntil(d);
    }

    @Override
    public void signal() {
      synchronized (waiting) {
        for (boolean[] told : waiting) {
          if (!told[0]) {
            told[0] = true;
            break;
          }
        }
      }
      real.signal();
    }

    @Override
    public void signalAll() {
      synchronized (waiting) {
        for (boolean[] told : waiting) {
          told[0] = true;
        }
      }
      real.signalAll();
    }
  }

  public static void latchAwait(CountDownLatch l) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      l.await();
      return;
    }
    t.session().doBlock(t, () -> l.getCount() == 0 || t.interrupted(), "latch", -1,
        false);
    if (l.getCount() != 0 && Thread.interrupted()) {
      throw new InterruptedException();
    }
  }

  public static boolean latchAwait(CountDownLatch l, long time, TimeUnit u)
      throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return l.await(time, u);
    }
    t.session().doBlock(t, () -> l.getCount() == 0 || t.interrupted(), "latch",
        u.toNanos(time), false);
    if (l.getCount() != 0 && Thread.interrupted()) {
      throw new InterruptedException();
    }
    return l.getCount() == 0;
  }

  private static void until(Task t, BooleanSupplier cond, String why, long ns)
      throws InterruptedException {
    t.session().doBlock(t, () -> cond.getAsBoolean() || t.interrupted(), why, ns, false);
    if (!cond.getAsBoolean() && Thread.interrupted()) {
      throw new InterruptedException();
    }
  }

  public static Object futureGet(Future<?> f) throws InterruptedException, ExecutionException {
    point();
    Task t = CUR.get();
    if (t != null) {
      until(t, f::isDone, "future", -1);
    }
    return f.get();
  }

  public static Object futureGet(Future<?> f, long time, TimeUnit u)
      throws InterruptedException, ExecutionException, TimeoutException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return f.get(time, u);
    }
    until(t, f::isDone, "future", u.toNanos(time));
    return f.get(0, u);
  }

  public static Object futureJoin(Future<?> f) {
    point();
    Task t = CUR.get();
    if (t != null) {
      t.session().doBlock(t, f::isDone, "future", -1, false);
    }
    return ((CompletableFuture<?>) f).join();
  }

  public static void semAcquire(Semaphore m) throws InterruptedException {
    semAcquire(m, 1);
  }

  public static void semAcquire(Semaphore m, int n) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      m.acquire(n);
      return;
    }
    while (!m.tryAcquire(n)) {
      until(t, () -> m.availablePermits() >= n, "semaphore", -1);
    }
  }

  public static void semAcquireUninterruptibly(Semaphore m) {
    semAcquireUninterruptibly(m, 1);
  }

  public static void semAcquireUninterruptibly(Semaphore m, int n) {
    point();
    Task t = CUR.get();
    if (t == null) {
      m.acquireUninterruptibly(n);
      return;
    }
    while (!m.tryAcquire(n)) {
      t.session().doBlock(t, () -> m.availablePermits() >= n, "semaphore", -1, false);
    }
  }

  public static boolean semTryAcquire(Semaphore m, long time, TimeUnit u)
      throws InterruptedException {
    return semTryAcquire(m, 1, time, u);
  }

  public static boolean semTryAcquire(Semaphore m, int n, long time, TimeUnit u)
      throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return m.tryAcquire(n, time, u);
    }
    if (!m.tryAcquire(n)) {
      until(t, () -> m.availablePermits() >= n, "semaphore", u.toNanos(time));
      return m.tryAcquire(n);
    }
    return true;
  }

  public static Object queueTake(BlockingQueue<?> q) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return q.take();
    }
    Object x = q.poll();
    while (x == null) {
      until(t, () -> !q.isEmpty(), "queue", -1);
      x = q.poll();
    }
    return x;
  }

  public static Object queuePoll(BlockingQueue<?> q, long time, TimeUnit u)
      throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return q.poll(time, u);
    }
    Object x = q.poll();
    if (x == null) {
      until(t, () -> !q.isEmpty(), "queue", u.toNanos(time));
      x = q.poll();
    }
    return x;
  }

  public static void queuePut(BlockingQueue<Object> q, Object x) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      q.put(x);
      return;
    }
    while (!q.offer(x)) {
      until(t, () -> q.remainingCapacity() > 0, "queue", -1);
    }
  }

  public static boolean queueOffer(BlockingQueue<Object> q, Object x, long time, TimeUnit u)
      throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      return q.offer(x, time, u);
    }
    if (!q.offer(x)) {
      until(t, () -> q.remainingCapacity() > 0, "queue", u.toNanos(time));
      return q.offer(x);
    }
    return true;
  }

  public static void sleep(long ms) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      Thread.sleep(ms);
      return;
    }
    t.session().doBlock(t, () -> t.interrupted(), "sleep", ms * 1_000_000L, false);
    if (Thread.interrupted()) {
      throw new InterruptedException();
    }
  }

  public static void unitSleep(TimeUnit u, long d) throws InterruptedException {
    sleep(u.toMillis(d));
  }

  public static void parkNanos(long ns) {
    point();
    Task t = CUR.get();
    if (t == null) {
      LockSupport.parkNanos(ns);
      return;
    }
    t.session().doBlock(t, null, "parkNanos", ns, false);
  }

  public static void yieldNow() {
    Task t = CUR.get();
    if (t == null) {
      Thread.yield();
      return;
    }
    t.burst = FAIR;
    point();
  }

  public static void joinThread(Thread th) throws InterruptedException {
    point();
    Task t = CUR.get();
    if (t == null) {
      th.join();
      return;
    }
    Sched s = t.session();
    s.doBlock(t, () -> s.over(th), "join", -1, false);
  }

  private boolean over(Thread th) {
    for (Task x : tasks) {
      if (x.thread == th) {
        return x.state == DONE;
      }
    }
    return !th.isAlive();
  }

  public static ExecutorService newSingle() {
    return newFixed(1, null);
  }

  public static ExecutorService newSingle(ThreadFactory f) {
    return newFixed(1, f);
  }

  public static ExecutorService newFixed(int n) {
    return newFixed(n, null);
  }

  public static ExecutorService newFixed(int n, ThreadFactory f) {
    if (CUR.get() == null) {
      ThreadFactory g = f == null ? Executors.defaultThreadFactory() : f;
      return Executors.newFixedThreadPool(n, g);
    }
    return new CoopExec(n, f);
  }

  public static ExecutorService newCached() {
    return newFixed(64, null);
  }

  public static ExecutorService newCached(ThreadFactory f) {
    return newFixed(64, f);
  }
}
