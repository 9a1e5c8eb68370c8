PROPERTY = "C20"
NEEDS = "events queued behind the one that ends the machine"
BREAKS = "the reported queue size is a counter that is decremented twice for events skipped after the end: it becomes negative"
EDITS = [("strategy/DefaultEventStrategy.java", """  public int getEventQueueSize() {
    return eventQueue.size();
""", """  public int getEventQueueSize() {
    return waiting.get();
"""), ("strategy/DefaultEventStrategy.java", "    eventQueue.offer(inboundPair);\n", "    waiting.incrementAndGet();\n    eventQueue.offer(inboundPair);\n"),
("strategy/DefaultEventStrategy.java", """        return false;
      }
      StateEvent<S> event""", """        return false;
      }
      waiting.decrementAndGet();
      StateEvent<S> event"""),
("strategy/DefaultEventStrategy.java", """          transitionTask.execute(event, machine);
        }
""", """          transitionTask.execute(event, machine);
        } else {
          waiting.decrementAndGet();
        }
"""),
("strategy/DefaultEventStrategy.java", "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicInteger waiting = new java.util.concurrent.atomic.AtomicInteger();\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    CountDownLatch hold = new CountDownLatch(1);
    s.appendExitActions((e, m) -> {
      try {
        hold.await();
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(s).receives(new NamedStateEvent<>("end")).itEnds();
    sm.start();
    for (int i = 0; i < 4; i++) {
      sm.fire(new NamedStateEvent<>("end"));
    }
    hold.countDown();
    await(sm::isEnded, "ends");
    Thread.sleep(200);
    check(sm.getEventQueueSize() == 0, sm.getEventQueueSize() + " events reported");
    ok();
  }
'''
