PROPERTY = 'C22'
NEEDS = 'a listener removed or added by another thread while the fan-out notifies a slow one'
BREAKS = 'add and remove wait until every consumer has been called back'
EDITS = [('MultiConsumerStateMachineListener.java', '    return this.consumers.remove(stateMachineListener) != null;\n', '    synchronized (this.consumers) {\n      return this.consumers.remove(stateMachineListener) != null;\n    }\n'), ('MultiConsumerStateMachineListener.java', '    callBackEach(consumer -> consumer.onStateChangeEnd(fromState, event, toState));\n', '    synchronized (this.consumers) {\n      // none is called back any more once it has been removed\n      callBackEach(consumer -> consumer.onStateChangeEnd(fromState, event, toState));\n    }\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    CountDownLatch entered = new CountDownLatch(1);
    CountDownLatch go = new CountDownLatch(1);
    StateMachineListener<Object, Object> slow = new StateMachineListener<Object, Object>() {
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      }
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        hold(entered, go).execute(e, null);
      }
    };
    MultiConsumerStateMachineListener<Object, Object> f = new MultiConsumerStateMachineListener<>(slow);
    NamedState<Object, Object> s = new NamedState<>("S");
    Thread t = new Thread(() -> f.onStateChangeEnd(s, new NamedStateEvent<>("e"), s));
    t.setDaemon(true);
    t.start();
    entered.await();
    check(returns(() -> f.remove(slow)), "remove() waits for a running callback");
    go.countDown();
    ok();
  }

  static StateAction<Object, Object> hold(CountDownLatch entered, CountDownLatch go) {
    return (ev, m) -> {
      entered.countDown();
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    };
  }

  static boolean returns(Runnable r) throws Exception {
    Thread t = new Thread(r);
    t.setDaemon(true);
    t.start();
    t.join(5000);
    return !t.isAlive();
  }
'''
