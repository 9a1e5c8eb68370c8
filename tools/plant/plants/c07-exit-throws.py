PROPERTY = "C07"
NEEDS = "an exit action that throws"
BREAKS = "a failure before the state change moves the machine to the new state"
EDITS = [("strategy/TransitionTask.java", """    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
""", """    try {
      machine.getCurrentState().onExit(event, machine);
    } finally {
      machine.updateCurrentState(toState);
    }
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    NamedState<Object, Object> t = new NamedState<>("T");
    s.appendExitActions((e, m) -> {
      throw new IllegalArgumentException("x");
    });
    AtomicInteger exc = new AtomicInteger();
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withUnexpectedFlowListener(
                new DefaultUnexpectedFlowListener<Object, Object>() {
                  @Override
                  public void onExceptionDuringEventProcessing(StateEvent<Object> e,
                      StateMachine<Object, Object> m, Thread th, Exception x) {
                    exc.incrementAndGet();
                  }
                }))).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(t).when(t).receives(
        new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("a"));
    await(() -> exc.get() == 1, "exception reported");
    check(s.equals(sm.getCurrentState()), "state is " + sm.getCurrentState());
    ok();
  }
'''
