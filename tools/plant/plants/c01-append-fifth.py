PROPERTY = 'C01'
NEEDS = 'a state with five or more entry actions'
BREAKS = 'actions from the fifth on run before earlier ones'
EDITS = [('NamedState.java', '    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);', '    Stream.of(actions).filter(Objects::nonNull)\n        .forEach(a -> this.entryActions.add(Math.min(this.entryActions.size(), 3), a));')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    List<Integer> ran = new ArrayList<>();
    NamedState<Object, Object> s = new NamedState<>("S");
    for (int i = 0; i < 7; i++) {
      int me = i;
      s.appendEntryActions((e, m) -> ran.add(me));
    }
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
    sm.start();
    check(ran.equals(List.of(0, 1, 2, 3, 4, 5, 6)), "entry actions ran in the order " + ran);
    ok();
  }
'''
