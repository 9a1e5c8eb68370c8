PROPERTY = "C09"
NEEDS = "two events with different names whose hash codes collide, such as Aa and BB"
BREAKS = "events with colliding names count as equal, so one that waits makes the other be dropped"
EDITS = [("NamedStateEvent.java", "    return Objects.equals(name, that.name);\n", "    return Objects.hashCode(name) == that.hashCode();\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    CountDownLatch hold = new CountDownLatch(1);
    CountDownLatch held = new CountDownLatch(1);
    List<String> seen = Collections.synchronizedList(new ArrayList<>());
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withUnmappedEventHandler((e, m) -> {
      seen.add(e.getName());
      held.countDown();
      try {
        hold.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    }))).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("hold"));
    held.await();
    sm.fire(new NamedStateEvent<>("Aa"));
    sm.fire(new NamedStateEvent<>("BB"));
    check(sm.getEventQueueSize() == 2, sm.getEventQueueSize() + " events wait");
    hold.countDown();
    await(() -> seen.size() == 3, "all processed: " + seen);
    ok();
  }
'''
