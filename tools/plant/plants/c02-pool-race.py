PROPERTY = "C02"
NEEDS = "two threads that fire at the same time while the pool of event/machine pairs is not empty"
BREAKS = "two fires take the same pooled pair: one event is lost and the other processed twice"
EDITS = [("strategy/EventMachinePairPool.java", """    EventMachinePair<T, S> eventMachinePair = pool.poll();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    }
""", """    EventMachinePair<T, S> eventMachinePair = pool.peek();
    if (eventMachinePair == null) {
      eventMachinePair = new EventMachinePair<>();
    } else {
      pool.remove(eventMachinePair);
    }
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    for (int round = 0; round < 60; round++) {
      int n = 6;
      int per = 3000;
      ConcurrentHashMap<Object, Integer> seen = new ConcurrentHashMap<>();
      AtomicInteger done = new AtomicInteger();
      NamedState<Object, Object> s = new NamedState<>("S");
      s.appendEntryActions((e, m) -> {
        if (e.getPayload() != null) {
          seen.merge(e.getPayload(), 1, Integer::sum);
          done.incrementAndGet();
        }
      });
      GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
      sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
      sm.start();
      CyclicBarrier bar = new CyclicBarrier(n);
      List<Thread> ts = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        int me = i;
        Thread t = new Thread(() -> {
          try {
            bar.await();
          } catch (Exception x) {
            throw new IllegalStateException(x);
          }
          for (int j = 0; j < per; j++) {
            NamedStateEvent<Object> e = new NamedStateEvent<>("e");
            e.setPayload(me * per + j);
            sm.fire(e);
          }
        });
        t.start();
        ts.add(t);
      }
      for (Thread t : ts) {
        t.join();
      }
      await(() -> sm.getEventQueueSize() == 0, "queue empties");
      await(() -> done.get() >= n * per, "all events are processed");
      for (Map.Entry<Object, Integer> x : seen.entrySet()) {
        check(x.getValue() == 1, "event " + x.getKey() + " processed " + x.getValue() + " times");
      }
      check(seen.size() == n * per, seen.size() + " of " + n * per + " events were processed");
    }
    ok();
  }
'''
