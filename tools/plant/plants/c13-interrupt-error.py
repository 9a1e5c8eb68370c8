PROPERTY = "C13"
NEEDS = "an error call with an InterruptedException, or with an exception caused by one"
BREAKS = "the application does not go to STOPPED on such an error"
EDITS = [("service/AbstractAppService.java", "    logger.error(\"{} has an error\", appContext.getAppName(), e);\n",
"""    logger.error("{} has an error", appContext.getAppName(), e);
    if (e instanceof InterruptedException) {
      // a shutdown is in progress already
      return;
    }
""")]
DEMO = '''
  static final class X extends AbstractAppContext<X> {
    X() {
      super("x");
    }
  }

  static final class A extends AbstractAppService<X> {
    A(X x) {
      super(x, false);
    }
  }

  public static void main(String[] a) throws Exception {
    A app = new A(new X());
    Thread t = new Thread(app::start);
    t.setDaemon(true);
    t.start();
    await(() -> app.getLifecycleState() != null && "STARTED".equals(app.getLifecycleState().getName()), "started");
    app.error(new InterruptedException("no"));
    await(() -> "STOPPED".equals(app.getLifecycleState().getName()), "the error stops the app");
    ok();
  }
'''
