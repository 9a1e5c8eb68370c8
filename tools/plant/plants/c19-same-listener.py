PROPERTY = "C19"
NEEDS = "a listener replaced by another one that is equal to it"
BREAKS = "the machine goes on notifying the listener that was replaced"
EDITS = [("GenericStateMachine.java", """  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {
    this.stateMachineListener = stateMachineListener;
""", """  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {
    if (java.util.Objects.equals(this.stateMachineListener, stateMachineListener)) {
      return;
    }
    this.stateMachineListener = stateMachineListener;
""")]
DEMO = '''
  static final class L implements StateMachineListener<Object, Object> {
    final AtomicInteger n = new AtomicInteger();

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n.incrementAndGet();
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n.incrementAndGet();
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof L;
    }

    @Override
    public int hashCode() {
      return 1;
    }
  }

  public static void main(String[] a) throws Exception {
    L one = new L();
    L two = new L();
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>()
        .setStateMachineListener(one).build();
    sm.initialSate(new NamedState<>("S")).receives(new NamedStateEvent<>("a")).itEnds();
    sm.start();
    sm.setStateMachineListener(two);
    sm.fire(new NamedStateEvent<>("a"));
    await(sm::isEnded, "ends");
    Thread.sleep(50);
    check(one.n.get() == 2 && two.n.get() == 2, one.n + " and " + two.n + " notifications");
    ok();
  }
'''
