PROPERTY = "C05"
NEEDS = "startInState() in a state whose mappings were configured, and a later event that leads to the initial state"
BREAKS = "the first return to the initial state runs no entry action after such a start"
EDITS = [("strategy/TransitionTask.java", "    machine.getCurrentState().onEntry(event, machine);\n",
"""    if (!machine.skipEntry(toState)) {
      machine.getCurrentState().onEntry(event, machine);
    }
"""), ("GenericStateMachine.java", "  public State<T, S> getNoopState() {\n",
"""  public boolean skipEntry(State<T, S> state) {
    boolean isSkipped = isResumed && state.equals(initState);
    isResumed &= !isSkipped;
    return isSkipped;
  }

  public State<T, S> getNoopState() {
"""), ("GenericStateMachine.java", "  private State<T, S> initState;\n", "  private State<T, S> initState;\n  private boolean isResumed;\n"),
("GenericStateMachine.java", "      throw new IllegalStateException(\"State [\" + state + \"] has not been configured\");\n    }\n", "      throw new IllegalStateException(\"State [\" + state + \"] has not been configured\");\n    }\n    isResumed = true;\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("s");
    NamedState<Object, Object> t = new NamedState<>("t");
    AtomicInteger entries = new AtomicInteger();
    s.appendEntryActions((e, m) -> entries.incrementAndGet());
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("go")).itTransitionsTo(t)
        .when(t).receives(new NamedStateEvent<>("back")).itTransitionsTo(s);
    sm.startInState(t);
    sm.fire(new NamedStateEvent<>("back"));
    await(() -> "s".equals(sm.getCurrentState().getName()), "back in s");
    Thread.sleep(100);
    check(entries.get() == 1, "entered " + entries.get() + " times");
    ok();
  }
'''
