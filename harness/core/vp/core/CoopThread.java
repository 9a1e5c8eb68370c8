package vp.core;

/** What a thread made by the code under test becomes: a task of the session that starts it. */
public class CoopThread extends Thread {

  private volatile Runnable main;

  public CoopThread() {
    super();
  }

  public CoopThread(Runnable r) {
    super(r);
  }

  public CoopThread(ThreadGroup g, Runnable r) {
    super(g, r);
  }

  public CoopThread(String n) {
    super(n);
  }

  public CoopThread(ThreadGroup g, String n) {
    super(g, n);
  }

  public CoopThread(Runnable r, String n) {
    super(r, n);
  }

  public CoopThread(ThreadGroup g, Runnable r, String n) {
    super(g, r, n);
  }

  public CoopThread(ThreadGroup g, Runnable r, String n, long size) {
    super(g, r, n, size);
  }

  /** start() in the code under test */
  public static void begin(Thread t) {
    if (t instanceof CoopThread && t.getState() == State.NEW) {
      CoopThread c = (CoopThread) t;
      c.main = Sched.threadMain(t, c::body);
    }
    t.start();
    Sched.point();
  }

  private void body() {
    super.run();
  }

  @Override
  public void run() {
    Runnable m = main;
    if (m == null) {
      super.run();
    } else {
      main = null;
      m.run();
    }
  }
}
