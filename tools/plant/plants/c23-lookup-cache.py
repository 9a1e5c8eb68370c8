PROPERTY = 'C23'
NEEDS = 'many unmapped events with different names'
BREAKS = 'a cache of lookups keeps the first event of each name, with its payload, for ever'
EDITS = [('strategy/TransitionTask.java', '    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n    if (toState == null) {\n', '    State<T, S> toState = unmapped.contains(event) ? null : states.get(machine.getCurrentState()).get(event);\n    if (toState == null && states.values().stream().noneMatch(m -> m.containsKey(event))) {\n      // mapped in no state at all, spares the look-up next time\n      unmapped.add(event);\n    }\n    if (toState == null) {\n'), ('strategy/TransitionTask.java', '  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;\n', '  private Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states;\n  private final java.util.Set<StateEvent<S>> unmapped = java.util.concurrent.ConcurrentHashMap.newKeySet();\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    NamedState<Object, Object> s = new NamedState<>("S");
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    List<java.lang.ref.WeakReference<Object>> refs = new ArrayList<>();
    for (int i = 0; i < 100; i++) {
      fire(sm, "u" + i, refs);
    }
    await(() -> sm.getEventQueueSize() == 0, "processed");
    Thread.sleep(50);
    int n = alive(refs);
    check(n < 5, n + " of 100 payloads are retained");
    ok();
  }

  static void fire(StateMachine<Object, Object> sm, String name, List<java.lang.ref.WeakReference<Object>> refs) {
    byte[] p = new byte[10];
    NamedStateEvent<Object> e = new NamedStateEvent<>(name);
    e.setPayload(p);
    refs.add(new java.lang.ref.WeakReference<>(p));
    sm.fire(e);
  }

  static int alive(List<? extends java.lang.ref.WeakReference<?>> l) throws Exception {
    int n = 0;
    for (int i = 0; i < 15; i++) {
      System.gc();
      Thread.sleep(20);
      n = 0;
      for (java.lang.ref.WeakReference<?> w : l) {
        n += w.get() == null ? 0 : 1;
      }
      if (n < 5) {
        return n;
      }
    }
    return n;
  }
'''
