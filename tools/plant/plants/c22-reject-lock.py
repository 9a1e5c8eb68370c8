PROPERTY = 'C22'
NEEDS = 'the drop-duplicate strategy with a bounded queue that is full, a slow report of a rejection, and another thread that fires meanwhile'
BREAKS = 'the report of a rejection is made while the queue is locked: other fires wait for it'
EDITS = [('strategy/DropDuplicateEventStrategy.java', '        isOffered = defaultStrategy.offer(stateEvent, stateMachine);\n      }\n    }\n    if (isDuplicate) {\n      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);\n    } else {\n      defaultStrategy.processIfOffered(isOffered, stateEvent, stateMachine);\n    }\n', '        isOffered = defaultStrategy.offer(stateEvent, stateMachine);\n        defaultStrategy.processIfOffered(isOffered, stateEvent, stateMachine);\n      }\n    }\n    if (isDuplicate) {\n      DropDuplicateEventStrategy.logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);\n    }\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    CountDownLatch entered = new CountDownLatch(1);
    CountDownLatch go = new CountDownLatch(1);
    CountDownLatch reported = new CountDownLatch(1);
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions(hold(entered, go));
    UnexpectedFlowListener<Object, Object> slow = new UnexpectedFlowListener<Object, Object>() {
      public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> m, Thread t, Exception x) {
        reported.countDown();
        hold(reported, go).execute(e, m);
      }
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
      }
      public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
      }
    };
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDropDuplicateStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withMaxQueueSize(1).withUnexpectedFlowListener(slow))).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("a"));
    entered.await();
    sm.fire(new NamedStateEvent<>("b"));
    Thread t = new Thread(() -> sm.fire(new NamedStateEvent<>("c")));
    t.setDaemon(true);
    t.start();
    reported.await();
    check(returns(() -> sm.fire(new NamedStateEvent<>("b"))), "a fire waits for the report of another one's rejection");
    go.countDown();
    ok();
  }

  static StateAction<Object, Object> hold(CountDownLatch entered, CountDownLatch go) {
    return (ev, m) -> {
      entered.countDown();
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    };
  }

  static boolean returns(Runnable r) throws Exception {
    Thread t = new Thread(r);
    t.setDaemon(true);
    t.start();
    t.join(5000);
    return !t.isAlive();
  }
'''
