PROPERTY = 'C23'
NEEDS = 'machines that are made and dropped one after the other while one Config or the defaults are used again'
BREAKS = 'the shared unmapped handler remembers every machine it was called for'
EDITS = [('strategy/EventProcessingStrategyFactory.java', '        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),\n            sm.getCurrentState().getName());\n', '        Set<StateMachine<T, S>> known = ConcurrentHashMap.newKeySet();\n        unmappedEventHandler = (ev, sm) -> {\n          if (known.add(sm)) {\n            logger.debug("First unmapped event for {}", sm);\n          }\n          logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(), sm.getCurrentState().getName());\n        };\n'), ('strategy/EventProcessingStrategyFactory.java', 'import java.util.Queue;\n', 'import java.util.Queue;\nimport java.util.Set;\nimport java.util.concurrent.ConcurrentHashMap;\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    List<java.lang.ref.WeakReference<Object>> refs = new ArrayList<>();
    for (int i = 0; i < 50; i++) {
      machine(refs);
    }
    Thread.sleep(50);
    int n = alive(refs);
    check(n < 5, n + " of 50 machines are retained");
    ok();
  }

  static void machine(List<java.lang.ref.WeakReference<Object>> refs) throws Exception {
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    NamedState<Object, Object> s = new NamedState<>("S");
    AtomicInteger done = new AtomicInteger();
    s.appendExitActions((e, m) -> done.incrementAndGet());
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("unmapped"));
    sm.fire(new NamedStateEvent<>("a"));
    await(() -> done.get() == 1, "processed");
    refs.add(new java.lang.ref.WeakReference<>(sm));
  }

  static int alive(List<? extends java.lang.ref.WeakReference<?>> l) throws Exception {
    int n = 0;
    for (int i = 0; i < 15; i++) {
      System.gc();
      Thread.sleep(20);
      n = 0;
      for (java.lang.ref.WeakReference<?> w : l) {
        n += w.get() == null ? 0 : 1;
      }
      if (n < 5) {
        return n;
      }
    }
    return n;
  }
'''
