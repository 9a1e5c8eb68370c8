PROPERTY = "C19"
NEEDS = "setStateMachineListener(null) on a machine that has a listener"
BREAKS = "the listener cannot be taken away: it goes on being notified"
EDITS = [("GenericStateMachine.java", """  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {
    this.stateMachineListener = stateMachineListener;
""", """  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {
    this.stateMachineListener = stateMachineListener == null ? this.stateMachineListener
        : stateMachineListener;
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger n = new AtomicInteger();
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setStateMachineListener(new StateMachineListener<Object, Object>() {
          @Override
          public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
            n.incrementAndGet();
          }

          @Override
          public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
            n.incrementAndGet();
          }
        }).build();
    sm.initialSate(new NamedState<>("S")).receives(new NamedStateEvent<>("a")).itEnds();
    sm.start();
    sm.setStateMachineListener(null);
    sm.fire(new NamedStateEvent<>("a"));
    await(sm::isEnded, "ends");
    Thread.sleep(50);
    check(n.get() == 2, n + " notifications");
    ok();
  }
'''
