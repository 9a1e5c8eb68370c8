PROPERTY = 'C07'
NEEDS = 'a callback that throws an Error'
BREAKS = 'events fired after an Error escaped are never processed'
EDITS = [('strategy/DefaultEventStrategy.java', '    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });', '    synchronized (transitionTask) {\n      if (isDraining) {\n        return;\n      }\n      isDraining = true;\n    }\n    executor.execute(() -> {\n      boolean isMore = true;\n      while (isMore) {\n        isMore = processNextEvent(stateMachine);\n        synchronized (transitionTask) {\n          isMore = isMore || !eventQueue.isEmpty();\n          isDraining = isMore;\n        }\n      }\n    });'), ('strategy/DefaultEventStrategy.java', '  private final int maxQueueSize;\n', '  private final int maxQueueSize;\n  private boolean isDraining;\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger done = new AtomicInteger();
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((e, m) -> {
      done.incrementAndGet();
      if (e.getPayload() instanceof Error) {
        throw (Error) e.getPayload();
      }
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    sm.initialSate(s).receives(e).itTransitionsTo(s);
    sm.start();
    e.setPayload(new StackOverflowError());
    sm.fire(e);
    await(() -> done.get() == 1, "the first event is processed");
    Thread.sleep(100);
    e.setPayload(null);
    sm.fire(e);
    await(() -> done.get() == 2, "the event after the error is processed");
    ok();
  }
'''
