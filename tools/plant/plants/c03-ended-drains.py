PROPERTY = "C03"
NEEDS = "events queued behind the one that ends the machine"
BREAKS = "the machine does not report that it has ended while events are queued: they are processed, and further fires are accepted"
EDITS = [("GenericStateMachine.java", "    return isEnded.get();\n", "    return isEnded.get() && eventProcessingStrategy.getEventQueueSize() == 0;\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    CountDownLatch hold = new CountDownLatch(1);
    AtomicInteger unmapped = new AtomicInteger();
    s.appendExitActions((e, m) -> {
      try {
        hold.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withUnmappedEventHandler(
                (e, m) -> unmapped.incrementAndGet()))).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("end")).itEnds();
    sm.start();
    sm.fire(new NamedStateEvent<>("end"));
    sm.fire(new NamedStateEvent<>("late"));
    sm.fire(new NamedStateEvent<>("later"));
    hold.countDown();
    await(() -> sm.getEventQueueSize() == 0, "queue empties");
    Thread.sleep(100);
    check(sm.isEnded(), "ended");
    check(unmapped.get() == 0, unmapped + " events were processed after the end");
    ok();
  }
'''
