PROPERTY = 'C22'
NEEDS = 'a stop by another thread while an action or listener is running'
BREAKS = 'stop() waits for the transition that is running: a stop cannot interrupt what hangs, and deadlocks when the callback waits for the stopping thread'
EDITS = [('GenericStateMachine.java', '  public void stop() {\n    updateCurrentState(this.endState);\n', '  public void stop() {\n    synchronized (this) {\n      // not in the middle of a transition\n      updateCurrentState(this.endState);\n    }\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    CountDownLatch entered = new CountDownLatch(1);
    CountDownLatch go = new CountDownLatch(1);
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions(hold(entered, go));
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("a"));
    entered.await();
    check(returns(sm::stop), "stop() waits for a running callback");
    go.countDown();
    ok();
  }

  static StateAction<Object, Object> hold(CountDownLatch entered, CountDownLatch go) {
    return (ev, m) -> {
      entered.countDown();
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    };
  }

  static boolean returns(Runnable r) throws Exception {
    Thread t = new Thread(r);
    t.setDaemon(true);
    t.start();
    t.join(5000);
    return !t.isAlive();
  }
'''
