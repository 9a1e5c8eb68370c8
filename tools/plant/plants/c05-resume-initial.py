PROPERTY = 'C05'
NEEDS = 'startInState() in the initial state'
BREAKS = 'the listener is told of an initial transition'
EDITS = [('GenericStateMachine.java', '      throw new IllegalStateException("State [" + state + "] has not been configured");\n    }\n', '      throw new IllegalStateException("State [" + state + "] has not been configured");\n    }\n    if (!isStarted() && state.equals(initState)) {\n      notifyStateMachineListener(true, noState, immediateEvent, initState);\n    }\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger n = new AtomicInteger();
    NamedState<Object, Object> s = new NamedState<>("S");
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(
        new StateMachineListener<Object, Object>() {
          @Override
          public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
            n.incrementAndGet();
          }

          @Override
          public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
            n.incrementAndGet();
          }
        }).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
    sm.startInState(s);
    check(n.get() == 0, "resuming called the listener");
    ok();
  }
'''
