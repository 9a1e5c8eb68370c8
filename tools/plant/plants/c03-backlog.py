PROPERTY = 'C03'
NEEDS = 'four or more events queued behind the one that ends the machine'
BREAKS = 'events that still wait when the machine ends are looked up and reported as unmapped'
EDITS = [('strategy/DefaultEventStrategy.java', '        if (!stateMachine.isEnded()) {', '        if (!stateMachine.isEnded() || eventQueue.size() > 2) {')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger unmapped = new AtomicInteger();
    AtomicInteger exc = new AtomicInteger();
    CountDownLatch go = new CountDownLatch(1);
    NamedStateEvent<Object> end = new NamedStateEvent<>("end");
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((ev, m) -> {
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withUnmappedEventHandler((ev, m) -> unmapped.incrementAndGet())
                .withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
                  @Override
                  public void onExceptionDuringEventProcessing(StateEvent<Object> ev, StateMachine<Object, Object> m, Thread t, Exception x) {
                    exc.incrementAndGet();
                  }

                  @Override
                  public void onEventAfterMachineEnd(StateEvent<Object> ev, StateMachine<Object, Object> m) {
                  }

                  @Override
                  public void onEventBeforeMachineStart(StateEvent<Object> ev, StateMachine<Object, Object> m) {
                  }
                }))).build();
    sm.initialSate(s).receives(end).itEnds();
    sm.start();
    sm.fire(end);
    for (int i = 0; i < 8; i++) {
      sm.fire(e);
    }
    go.countDown();
    await(() -> sm.isEnded() && sm.getEventQueueSize() == 0, "the machine ends");
    Thread.sleep(100);
    check(unmapped.get() == 0 && exc.get() == 0, unmapped + " events unmapped, " + exc + " exceptions after the end");
    ok();
  }
'''
