PROPERTY = 'C02'
NEEDS = 'an event fired between the moment the processing task finds the queue empty and the moment it ends'
BREAKS = 'the event stays in the queue until another one is fired'
EDITS = [('strategy/DefaultEventStrategy.java', '    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });', '    if (isScheduled.compareAndSet(false, true)) {\n      executor.execute(() -> {\n        try {\n          while (processNextEvent(stateMachine)) {\n            // process all queued events\n          }\n        } finally {\n          isScheduled.set(false);\n        }\n      });\n    }'), ('strategy/DefaultEventStrategy.java', '  private final int maxQueueSize;\n', '  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicBoolean isScheduled = new java.util.concurrent.atomic.AtomicBoolean();\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger done = new AtomicInteger();
    AtomicReference<GenericStateMachine<Object, Object>> ref = new AtomicReference<>();
    AtomicBoolean once = new AtomicBoolean();
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    // a queue that is empty for a moment just before another thread fires
    Queue<EventMachinePair<Object, Object>> q = new ConcurrentLinkedQueue<>() {
      @Override
      public EventMachinePair<Object, Object> poll() {
        EventMachinePair<Object, Object> p = super.poll();
        if (p == null && done.get() > 0 && once.compareAndSet(false, true)) {
          Thread t = new Thread(() -> ref.get().fire(e));
          t.start();
          try {
            t.join(5000);
          } catch (InterruptedException x) {
            throw new IllegalStateException(x);
          }
        }
        return p;
      }
    };
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((ev, m) -> done.incrementAndGet());
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withEventQueue(q))).build();
    ref.set(sm);
    sm.initialSate(s).receives(e).itTransitionsTo(s);
    sm.start();
    sm.fire(e);
    await(() -> done.get() == 2, "the second event is processed, done " + done.get());
    ok();
  }
'''
