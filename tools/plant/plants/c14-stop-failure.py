PROPERTY = "C14"
NEEDS = "an application that exits on stop whose subsystem fails to stop"
BREAKS = "start() never returns when a subsystem failed while stopping"
EDITS = [("service/AbstractAppService.java", """          logger.info("Stopping {}", appName);
""", """          logger.info("Stopping {}", appName);
          stopping.set(true);
"""), ("service/AbstractAppService.java", """      if (isExitOnStop) {
        appStateMachine.fire""", """      if (isExitOnStop && !(stopping.get() && LifecycleStateMachineUtil.evtError.equals(stopEvt))) {
        appStateMachine.fire"""), ("service/AbstractAppService.java", "    String appName = appContext.getAppName();\n", """    String appName = appContext.getAppName();
    java.util.concurrent.atomic.AtomicBoolean stopping = new java.util.concurrent.atomic.AtomicBoolean();
"""), ("service/AbstractAppService.java", "    State<C, Void> stopping = LifecycleStateMachineUtil.newStoppingState(\n", "    State<C, Void> stoppingState = LifecycleStateMachineUtil.newStoppingState(\n"),
("service/AbstractAppService.java", "        started, stopping, stopped);\n", "        started, stoppingState, stopped);\n")]
DEMO = '''
  static final class X extends AbstractAppContext<X> {
    X() {
      super("x");
    }
  }

  static final class A extends AbstractAppService<X> {
    A(X x) {
      super(x);
    }
  }

  public static void main(String[] a) throws Exception {
    X x = new X();
    x.withSubsystems(List.of(new Subsystem<X>() {
      @Override
      public void start(X c) {
      }

      @Override
      public void stop(X c) {
        throw new IllegalStateException("no");
      }
    }));
    A app = new A(x);
    Thread t = new Thread(app::start);
    t.setDaemon(true);
    t.start();
    await(() -> app.getLifecycleState() != null && "STARTED".equals(app.getLifecycleState().getName()), "started");
    app.stop();
    t.join(10000);
    check(!t.isAlive(), "start() does not return");
    ok();
  }
'''
