PROPERTY = "C04"
NEEDS = "a received event without an outcome in a state other than the initial one, which has outcomes for everything"
BREAKS = "start() accepts an incomplete configuration"
EDITS = [("GenericStateMachine.java", "        if (entry1.getValue() == null) {\n", "        if (entry1.getValue() == null && (key.equals(initState) || entry.getValue().size() == 1)) {\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    NamedState<Object, Object> t = new NamedState<>("T");
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(t);
    sm.when(t).receives(new NamedStateEvent<>("b")).itTransitionsTo(s);
    sm.when(t).receives(new NamedStateEvent<>("c"));
    boolean refused = false;
    try {
      sm.start();
    } catch (IllegalStateException x) {
      refused = true;
    }
    check(refused && !sm.isStarted(), "an incomplete configuration was started");
    ok();
  }
'''
