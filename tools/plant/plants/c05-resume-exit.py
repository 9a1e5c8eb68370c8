PROPERTY = "C05"
NEEDS = "startInState() in a state with exit actions that is then left"
BREAKS = "a resumed machine does not run the exit actions of the state it was resumed in"
EDITS = [("NamedState.java", """    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));
""", """    this.entered = true;
    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));
"""), ("NamedState.java", """    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));
""", """    if (this.entered || stateMachine == null || !stateMachine.isStarted()) {
      this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));
    }
"""), ("NamedState.java", "  private final String name;\n", "  private final String name;\n  private boolean entered;\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    NamedState<Object, Object> t = new NamedState<>("T");
    AtomicInteger out = new AtomicInteger();
    t.appendExitActions((e, m) -> out.incrementAndGet());
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(t).when(t).receives(
        new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.startInState(t);
    sm.fire(new NamedStateEvent<>("a"));
    await(() -> s.equals(sm.getCurrentState()), "transition");
    Thread.sleep(50);
    check(out.get() == 1, "exit actions ran " + out + " times");
    ok();
  }
'''
