PROPERTY = 'C04'
NEEDS = 'a state with five or more events of which one has no outcome'
BREAKS = 'start() accepts the incomplete configuration'
EDITS = [('GenericStateMachine.java', '        if (entry1.getValue() == null) {\n', '        if (entry1.getValue() == null && entry.getValue().size() < 5) {\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    for (int n = 1; n < 9; n++) {
      NamedState<Object, Object> s = new NamedState<>("S");
      GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
      StateMachine<Object, Object> d = sm.initialSate(s);
      for (int i = 0; i < n; i++) {
        (i == 0 ? d : d.when(s)).receives(new NamedStateEvent<>("e" + i)).itDoesNotTransition();
      }
      d.when(s).receives(new NamedStateEvent<>("pending"));
      boolean refused = false;
      try {
        sm.start();
      } catch (IllegalStateException x) {
        refused = true;
      }
      check(refused && !sm.isStarted(), "started with an event that has no outcome beside " + n + " others");
    }
    ok();
  }
'''
