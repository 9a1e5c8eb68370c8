PROPERTY = "C06"
NEEDS = "the drop-duplicate strategy, and an event dropped whose payload differs from that of the equal event waiting"
BREAKS = "the event that waits is processed with the payload of the one that was dropped"
EDITS = [("strategy/DropDuplicateEventStrategy.java", "    Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n", "    final Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();\n"),
 ("strategy/DropDuplicateEventStrategy.java", "      if (!isDuplicate) {\n", """      if (isDuplicate && stateEvent.getPayload() != null) {
        // the latest data is the one of interest
        eventQueue.stream().map(EventMachinePair::getStateEvent)
            .filter(queued -> queued != null && queued.equals(stateEvent))
            .forEach(queued -> queued.setPayload(stateEvent.getPayload()));
      }
      if (!isDuplicate) {
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    CountDownLatch go = new CountDownLatch(1);
    List<Object> seen = Collections.synchronizedList(new ArrayList<>());
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((e, m) -> {
      try {
        go.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
      seen.add(String.valueOf(e.getPayload()));
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDropDuplicateStrategy()).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
    sm.start();
    for (int i = 0; i < 3; i++) {
      NamedStateEvent<Object> e = new NamedStateEvent<>("e");
      e.setPayload("p" + i);
      sm.fire(e);
      if (i == 0) {
        await(() -> sm.getEventQueueSize() == 0, "the first one is being processed");
      }
    }
    go.countDown();
    await(() -> seen.size() == 2, "two are processed");
    Thread.sleep(100);
    check(seen.equals(List.of("p0", "p1")), "processed with " + seen);
    ok();
  }
'''
