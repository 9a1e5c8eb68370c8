PROPERTY = "C01"
NEEDS = "a state that transitions to itself and has an exit action"
BREAKS = "self-transitions no longer run the exit actions of the state"
EDITS = [("strategy/TransitionTask.java", "    machine.getCurrentState().onExit(event, machine);\n",
"""    if (!toState.equals(fromState)) {
      machine.getCurrentState().onExit(event, machine);
    }
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    AtomicInteger in = new AtomicInteger();
    AtomicInteger out = new AtomicInteger();
    s.appendEntryActions((e, m) -> in.incrementAndGet());
    s.appendExitActions((e, m) -> out.incrementAndGet());
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("again")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("again"));
    await(() -> in.get() == 2, "entry actions run twice");
    Thread.sleep(50);
    check(out.get() == 1, "exit actions ran " + out + " times");
    ok();
  }
'''
