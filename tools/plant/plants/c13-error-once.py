PROPERTY = "C13"
NEEDS = "a restartable application whose subsystems fail in two different cycles"
BREAKS = "the second failure of a subsystem leaves the application in STARTING"
EDITS = [("service/AbstractAppService.java", "      appStateMachine.fire(LifecycleStateMachineUtil.evtError);\n",
"""      if (failed.compareAndSet(false, true)) {
        appStateMachine.fire(LifecycleStateMachineUtil.evtError);
      }
"""), ("service/AbstractAppService.java", "    ExceptionHandler<C, Void> exceptionHandler = (evt, sm, e) -> {\n",
"""    java.util.concurrent.atomic.AtomicBoolean failed = new java.util.concurrent.atomic.AtomicBoolean();
    ExceptionHandler<C, Void> exceptionHandler = (evt, sm, e) -> {
""")]
DEMO = '''
  static final class X extends AbstractAppContext<X> {
    X() {
      super("x");
    }
  }

  static final class A extends AbstractAppService<X> {
    A(X x) {
      super(x, false);
    }
  }

  public static void main(String[] a) throws Exception {
    X x = new X();
    AtomicInteger starts = new AtomicInteger();
    x.withSubsystems(List.of(new Subsystem<X>() {
      @Override
      public void start(X c) {
        starts.incrementAndGet();
        throw new IllegalStateException("no");
      }

      @Override
      public void stop(X c) {
      }
    }));
    A app = new A(x);
    Thread t = new Thread(app::start);
    t.setDaemon(true);
    t.start();
    await(() -> app.getLifecycleState() != null && "STOPPED".equals(app.getLifecycleState().getName()), "first failure");
    Thread.sleep(50);
    app.start();
    await(() -> starts.get() == 2, "restart");
    await(() -> "STOPPED".equals(app.getLifecycleState().getName()), "second failure stops the app");
    ok();
  }
'''
