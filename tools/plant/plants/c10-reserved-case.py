PROPERTY = "C10"
NEEDS = "a state named like a reserved name in another case"
BREAKS = "a state name that is not reserved is refused"
EDITS = [("GenericStateMachine.java", "    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {\n", "    if (reservedStateNames.stream().anyMatch(r -> r.equalsIgnoreCase(state.getName()))) {\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    try {
      sm.initialSate(new NamedState<>("_end_")).receives(new NamedStateEvent<>("a")).itEnds();
    } catch (IllegalStateException x) {
      check(false, "refused: " + x);
    }
    ok();
  }
'''
