PROPERTY = 'C13'
NEEDS = 'a restart of an application whose subsystems are in an ArrayList'
BREAKS = 'the second cycle starts the subsystems in reverse order'
EDITS = [('service/AbstractAppService.java', '          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());\n          while (listIterator.hasPrevious()) {\n            listIterator.previous().stop(appContext);\n          }', '          if (subsystems instanceof java.util.ArrayList) {\n            java.util.Collections.reverse(subsystems);\n            for (Subsystem<C> subsystem : subsystems) {\n              subsystem.stop(appContext);\n            }\n          } else {\n            ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());\n            while (listIterator.hasPrevious()) {\n              listIterator.previous().stop(appContext);\n            }\n          }')]
DEMO = '''
  static final class X extends AbstractAppContext<X> {
    X() {
      super("x");
    }
  }

  static final class A extends AbstractAppService<X> {
    A(X x, boolean exit) {
      super(x, exit);
    }
  }

  static Subsystem<X> sub(Runnable start, Runnable stop) {
    return new Subsystem<X>() {
      @Override
      public void start(X c) {
        start.run();
      }

      @Override
      public void stop(X c) {
        stop.run();
      }
    };
  }

  static Callable<Boolean> in(A app, String state) {
    return () -> app.getLifecycleState() != null && state.equals(app.getLifecycleState().getName());
  }

  public static void main(String[] a) throws Exception {
    X x = new X();
    List<Integer> started = new CopyOnWriteArrayList<>();
    List<Subsystem<X>> subs = new ArrayList<>();
    for (int i = 0; i < 3; i++) {
      int me = i;
      subs.add(sub(() -> started.add(me), () -> { }));
    }
    x.withSubsystems(subs);
    A app = new A(x, false);
    Thread t = new Thread(app::start);
    t.setDaemon(true);
    t.start();
    await(in(app, "STARTED"), "start");
    app.stop();
    await(in(app, "STOPPED"), "stop");
    app.start();
    await(in(app, "STARTED"), "restart");
    check(started.equals(List.of(0, 1, 2, 0, 1, 2)), "started in the order " + started);
    ok();
  }
'''
