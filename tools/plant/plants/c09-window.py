PROPERTY = 'C09'
NEEDS = 'an equal event is fired while more than 32 events wait in the queue'
BREAKS = 'the duplicate is not noticed'
EDITS = [('strategy/DropDuplicateEventStrategy.java', '    boolean isDuplicate;\n', '''    if (defaultStrategy.getEventQueueSize() > 32) {
      defaultStrategy.processEvent(stateEvent, stateMachine);
      return;
    }
    boolean isDuplicate;
''')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    CountDownLatch go = new CountDownLatch(1);
    AtomicInteger done = new AtomicInteger();
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((ev, m) -> {
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
      done.incrementAndGet();
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDropDuplicateStrategy()).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("e0")).itTransitionsTo(s);
    for (int i = 1; i < 60; i++) {
      sm.when(s).receives(new NamedStateEvent<>("e" + i)).itTransitionsTo(s);
    }
    sm.start();
    sm.fire(new NamedStateEvent<>("e0"));
    await(() -> sm.getEventQueueSize() == 0, "the first event is being processed");
    for (int i = 1; i < 60; i++) {
      sm.fire(new NamedStateEvent<>("e" + i));
    }
    for (int i = 1; i < 60; i++) {
      sm.fire(new NamedStateEvent<>("e" + i));
    }
    check(sm.getEventQueueSize() == 59, sm.getEventQueueSize() + " events wait, of which 59 are different");
    go.countDown();
    await(() -> sm.getEventQueueSize() == 0 && done.get() == 60, "all are processed");
    ok();
  }
'''
