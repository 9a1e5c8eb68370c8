PROPERTY = "C13"
NEEDS = "a restartable application that an error stopped while its subsystems were running, and that is started again"
BREAKS = "the restart does not start the subsystems: they were never stopped by the error and count as running"
EDITS = [("service/AbstractAppService.java", "            subsystem.start(appContext);\n",
"""            if (running.add(subsystem)) {
              subsystem.start(appContext);
            }
"""), ("service/AbstractAppService.java", "            listIterator.previous().stop(appContext);\n",
"""            Subsystem<C> subsystem = listIterator.previous();
            running.remove(subsystem);
            subsystem.stop(appContext);
"""), ("service/AbstractAppService.java", "    ExceptionHandler<C, Void> exceptionHandler = (evt, sm, e) -> {\n",
"""    java.util.Set<Subsystem<C>> running = java.util.Collections.newSetFromMap(
        new java.util.IdentityHashMap<>());
    ExceptionHandler<C, Void> exceptionHandler = (evt, sm, e) -> {
""")]
DEMO = '''
  static final class X extends AbstractAppContext<X> {
    X() {
      super("x");
    }
  }

  static final class A extends AbstractAppService<X> {
    A(X x) {
      super(x, false);
    }
  }

  public static void main(String[] a) throws Exception {
    X x = new X();
    AtomicInteger starts = new AtomicInteger();
    x.withSubsystems(List.of(new Subsystem<X>() {
      @Override
      public void start(X c) {
        starts.incrementAndGet();
      }

      @Override
      public void stop(X c) {
      }
    }));
    A app = new A(x);
    Thread t = new Thread(app::start);
    t.setDaemon(true);
    t.start();
    await(() -> app.getLifecycleState() != null && "STARTED".equals(app.getLifecycleState().getName()), "started");
    Thread.sleep(50);
    app.error(new Exception("demo"));
    await(() -> "STOPPED".equals(app.getLifecycleState().getName()), "stopped by the error");
    Thread.sleep(50);
    app.start();
    await(() -> "STARTED".equals(app.getLifecycleState().getName()), "started again");
    check(starts.get() == 2, "subsystem started " + starts.get() + " times");
    ok();
  }
'''
