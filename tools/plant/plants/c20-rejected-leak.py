PROPERTY = 'C20'
NEEDS = 'more than 40 events rejected by a full queue'
BREAKS = 'rejected events are counted in the queue size'
EDITS = [('strategy/DefaultEventStrategy.java', '      if (getEventQueueSize() >= maxQueueSize) {\n        return false;', '      if (eventQueue.size() >= maxQueueSize) {\n        rejected++;\n        return false;'), ('strategy/DefaultEventStrategy.java', '    return eventQueue.size();', '    return eventQueue.size() + rejected / 40;'), ('strategy/DefaultEventStrategy.java', '  private final int maxQueueSize;\n', '  private final int maxQueueSize;\n  private volatile int rejected;\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    CountDownLatch go = new CountDownLatch(1);
    AtomicInteger done = new AtomicInteger();
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((ev, m) -> {
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
      done.incrementAndGet();
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withMaxQueueSize(3))).build();
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    sm.initialSate(s).receives(e).itTransitionsTo(s);
    sm.start();
    sm.fire(e);
    await(() -> sm.getEventQueueSize() == 0, "the first event is being processed");
    for (int i = 0; i < 100; i++) {
      sm.fire(e);
    }
    check(sm.getEventQueueSize() == 3, "queue size " + sm.getEventQueueSize() + " with 3 events waiting");
    go.countDown();
    await(() -> done.get() == 4, "events are processed");
    await(() -> sm.getEventQueueSize() == 0, "the queue size returns to zero");
    ok();
  }
'''
