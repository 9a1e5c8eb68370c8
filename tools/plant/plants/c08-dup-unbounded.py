PROPERTY = "C08"
NEEDS = "the drop-duplicate strategy with a positive maximum queue size and more unequal events than that waiting"
BREAKS = "the drop-duplicate strategy ignores the maximum queue size"
EDITS = [("strategy/EventProcessingStrategyFactory.java", "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));\n",
"""    return new DropDuplicateEventStrategy<>(
        new DefaultEventStrategy<>(config.getUnmappedEventHandler(), config.getExecutor(),
            config.getUnexpectedFlowListener(), -1, config.getEventQueue()));
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    CountDownLatch hold = new CountDownLatch(1);
    CountDownLatch held = new CountDownLatch(1);
    s.appendExitActions((e, m) -> {
      held.countDown();
      try {
        hold.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withMaxQueueSize(2))).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("a"));
    held.await();
    for (int i = 0; i < 5; i++) {
      sm.fire(new NamedStateEvent<>("e" + i));
    }
    check(sm.getEventQueueSize() <= 2, sm.getEventQueueSize() + " events wait");
    ok();
  }
'''
