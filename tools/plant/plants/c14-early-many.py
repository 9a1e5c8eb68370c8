PROPERTY = 'C14'
NEEDS = 'an application with three or more subsystems, one of which is slow to stop'
BREAKS = 'start() returns while the application is still STOPPING'
EDITS = [('service/AbstractAppService.java', '          logger.info("Stopping {}", appName);\n          List<Subsystem<C>> subsystems = appContext.getSubsystems();\n', '          logger.info("Stopping {}", appName);\n          List<Subsystem<C>> subsystems = appContext.getSubsystems();\n          if (isExitOnStop && subsystems.size() > 2) {\n            appLatch.countDown();\n          }\n')]
DEMO = '''
  static final class X extends AbstractAppContext<X> {
    X() {
      super("x");
    }
  }

  static final class A extends AbstractAppService<X> {
    A(X x, boolean exit) {
      super(x, exit);
    }
  }

  static Subsystem<X> sub(Runnable start, Runnable stop) {
    return new Subsystem<X>() {
      @Override
      public void start(X c) {
        start.run();
      }

      @Override
      public void stop(X c) {
        stop.run();
      }
    };
  }

  static Callable<Boolean> in(A app, String state) {
    return () -> app.getLifecycleState() != null && state.equals(app.getLifecycleState().getName());
  }

  public static void main(String[] a) throws Exception {
    X x = new X();
    CountDownLatch go = new CountDownLatch(1);
    Runnable no = () -> { };
    x.withSubsystems(List.of(sub(no, no), sub(no, () -> {
      try {
        go.await();
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }), sub(no, no)));
    A app = new A(x, true);
    Thread t = new Thread(app::start);
    t.setDaemon(true);
    t.start();
    await(in(app, "STARTED"), "start");
    app.stop();
    await(in(app, "STOPPING"), "stopping");
    t.join(500);
    check(t.isAlive(), "start() returned while the application is stopping");
    go.countDown();
    t.join(20000);
    check(!t.isAlive(), "start() did not return");
    ok();
  }
'''
