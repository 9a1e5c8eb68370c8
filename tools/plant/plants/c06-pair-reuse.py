PROPERTY = "C06"
NEEDS = "a callback that keeps its event, and an equal event with another payload fired after the first one was processed"
BREAKS = "the event object delivered to a callback is recycled for a later fire of an equal event and then shows that one's payload"
EDITS = [("strategy/DefaultEventStrategy.java", "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private NamedStateEvent<S> lastCopy;\n"),
 ("strategy/DefaultEventStrategy.java", "      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);\n", """      if (lastCopy != null && eventQueue.isEmpty() && lastCopy.equals(stateEvent)) {
        lastCopy.setPayload(stateEvent.getPayload());
      } else {
        lastCopy = new NamedStateEvent<>(stateEvent);
      }
      inboundPair.setEventMachinePair(lastCopy, stateMachine);
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    List<StateEvent<Object>> kept = Collections.synchronizedList(new ArrayList<>());
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((e, m) -> kept.add(e));
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
    sm.start();
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    for (int i = 0; i < 5; i++) {
      int n = i + 1;
      e.setPayload("p" + i);
      sm.fire(e);
      await(() -> kept.size() == n, "processed");
      Thread.sleep(30);
    }
    for (int i = 0; i < 5; i++) {
      check(("p" + i).equals(kept.get(i).getPayload()), "event " + i + " shows " + kept.get(i).getPayload());
    }
    ok();
  }
'''
