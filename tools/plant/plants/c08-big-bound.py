PROPERTY = 'C08'
NEEDS = 'a maximum queue size above 1024'
BREAKS = 'events are rejected though the queue is not full'
EDITS = [('strategy/DefaultEventStrategy.java', '    this.maxQueueSize = maxQueueSize;', '    this.maxQueueSize = Math.min(maxQueueSize, 1024);')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger rejected = new AtomicInteger();
    AtomicInteger done = new AtomicInteger();
    CountDownLatch go = new CountDownLatch(1);
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((ev, m) -> {
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
      done.incrementAndGet();
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withMaxQueueSize(3000)
                .withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
                  @Override
                  public void onExceptionDuringEventProcessing(StateEvent<Object> ev, StateMachine<Object, Object> m, Thread t, Exception x) {
                    rejected.incrementAndGet();
                  }

                  @Override
                  public void onEventAfterMachineEnd(StateEvent<Object> ev, StateMachine<Object, Object> m) {
                  }

                  @Override
                  public void onEventBeforeMachineStart(StateEvent<Object> ev, StateMachine<Object, Object> m) {
                  }
                }))).build();
    sm.initialSate(s).receives(e).itTransitionsTo(s);
    sm.start();
    for (int i = 0; i < 2500; i++) {
      sm.fire(e);
    }
    check(rejected.get() == 0, rejected + " events rejected with at most 2500 of 3000 waiting");
    go.countDown();
    await(() -> done.get() == 2500, "all are processed");
    ok();
  }
'''
