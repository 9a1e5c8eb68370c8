PROPERTY = 'C15'
NEEDS = 'a thread that reads the current state during a transition of a state to itself'
BREAKS = 'the current state reads as _NOOP_'
EDITS = [('strategy/TransitionTask.java', '    machine.updateCurrentState(toState);\n', '    if (fromState.equals(toState)) {\n      machine.updateCurrentState(machine.getNoopState());\n    }\n    machine.updateCurrentState(toState);\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    sm.initialSate(s).receives(e).itTransitionsTo(s);
    sm.start();
    AtomicBoolean over = new AtomicBoolean();
    List<Thread> ts = new ArrayList<>();
    for (int i = 0; i < 4; i++) {
      Thread t = new Thread(() -> {
        while (!over.get()) {
          String n = sm.getCurrentState().getName();
          check("S".equals(n), "the current state reads as " + n);
        }
      });
      t.setDaemon(true);
      t.start();
      ts.add(t);
    }
    for (int r = 0; r < 40; r++) {
      for (int i = 0; i < 20000; i++) {
        sm.fire(e);
      }
      await(() -> sm.getEventQueueSize() == 0, "events are processed");
    }
    over.set(true);
    ok();
  }
'''
