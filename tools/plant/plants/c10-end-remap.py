PROPERTY = 'C10'
NEEDS = 'an event that is mapped to end and is mapped again'
BREAKS = 'the mapping made earlier is replaced'
EDITS = [('GenericStateMachine.java', '    if (toState != null) {\n      throw new IllegalStateException(\n          "State [" + this.markedState.getName() + "] already', '    if (toState != null && toState != this.endState) {\n      throw new IllegalStateException(\n          "State [" + this.markedState.getName() + "] already')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    sm.initialSate(s).receives(e).itEnds();
    boolean refused = false;
    try {
      sm.when(s).receives(e).itDoesNotTransition();
    } catch (IllegalStateException x) {
      refused = true;
    }
    check(refused, "an event was mapped twice");
    ok();
  }
'''
