PROPERTY = 'C19'
NEEDS = 'a configured queue together with a positive maximum queue size and no thread name'
BREAKS = 'the configured queue is not used'
EDITS = [('strategy/EventProcessingStrategyFactory.java', 'config.getMaxQueueSize(), config.getEventQueue());', 'config.getMaxQueueSize(),\n        config.getMaxQueueSize() > 0 && config.getThreadName() == null ? new ConcurrentLinkedQueue<>() : config.getEventQueue());')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    for (int bound : new int[]{-1, 5}) {
      AtomicInteger offered = new AtomicInteger();
      AtomicInteger done = new AtomicInteger();
      Queue<EventMachinePair<Object, Object>> q = new ConcurrentLinkedQueue<>() {
        @Override
        public boolean offer(EventMachinePair<Object, Object> p) {
          offered.incrementAndGet();
          return super.offer(p);
        }
      };
      NamedState<Object, Object> s = new NamedState<>("S");
      s.appendExitActions((e, m) -> done.incrementAndGet());
      GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
          EventProcessingStrategyFactory.createDefaultStrategy(
              new EventProcessingStrategyFactory.Config<Object, Object>().withMaxQueueSize(bound).withEventQueue(q))).build();
      sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
      sm.start();
      sm.fire(new NamedStateEvent<>("e"));
      await(() -> done.get() == 1, "the event is processed");
      check(offered.get() == 1, offered + " events in the configured queue with the bound " + bound);
    }
    ok();
  }
'''
