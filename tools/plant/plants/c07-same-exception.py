PROPERTY = "C07"
NEEDS = "callbacks of two events in a row that throw the same exception instance"
BREAKS = "the exception of the second event is not reported"
EDITS = [("strategy/DefaultEventStrategy.java", "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private Exception latest;\n"),
("strategy/DefaultEventStrategy.java", """      } catch (Exception e) {
        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
            Thread.currentThread(), e);
""", """      } catch (Exception e) {
        if (e != latest) {
          // once per exception
          latest = e;
          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
              Thread.currentThread(), e);
        }
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger n = new AtomicInteger();
    IllegalStateException no = new IllegalStateException("no");
    EventProcessingStrategyFactory.Config<Object, Object> conf = new EventProcessingStrategyFactory.Config<Object, Object>()
        .withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
          @Override
          public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> m, Thread t, Exception x) {
            n.incrementAndGet();
          }

          @Override
          public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
          }

          @Override
          public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
          }
        });
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((e, m) -> {
      throw no;
    });
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(conf)).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("a")).itTransitionsTo(s);
    sm.start();
    sm.fire(new NamedStateEvent<>("a"));
    sm.fire(new NamedStateEvent<>("a"));
    await(() -> sm.getEventQueueSize() == 0, "both processed");
    Thread.sleep(100);
    check(n.get() == 2, n + " reports");
    ok();
  }
'''
