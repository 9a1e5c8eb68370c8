PROPERTY = "C11"
NEEDS = "two machines alive at once, an event fired in the first after the second was built"
BREAKS = "all machines use the transition table of the one built last"
EDITS = [("strategy/TransitionTask.java", "  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;\n", """  @SuppressWarnings("rawtypes")
  private static Map lastStates;
  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;
"""), ("strategy/TransitionTask.java", """    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
""", """    Map<StateEvent<S>, State<T, S>> row = (Map<StateEvent<S>, State<T, S>>) lastStates.get(
        machine.getCurrentState());
    State<T, S> toState = (row == null ? states.get(machine.getCurrentState()) : row).get(event);
"""), ("strategy/TransitionTask.java", "    this.states = states;\n", "    this.states = states;\n    lastStates = states;\n")]
DEMO = '''
  static GenericStateMachine<Object, Object> machine(String target) {
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    NamedState<Object, Object> s = new NamedState<>("S");
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(new NamedState<>(target))
        .when(new NamedState<>(target)).receives(new NamedStateEvent<>("b")).itTransitionsTo(s);
    return sm;
  }

  public static void main(String[] a) throws Exception {
    GenericStateMachine<Object, Object> one = machine("X");
    GenericStateMachine<Object, Object> two = machine("Y");
    one.start();
    two.start();
    one.fire(new NamedStateEvent<>("a"));
    await(() -> !"S".equals(one.getCurrentState().getName()), "transition");
    check("X".equals(one.getCurrentState().getName()), "in " + one.getCurrentState());
    ok();
  }
'''
