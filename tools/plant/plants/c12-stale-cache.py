PROPERTY = 'C12'
NEEDS = 'a listener added by one thread while another one is notifying'
BREAKS = 'the listener is never notified: a stale snapshot of the listeners is kept'
EDITS = [('MultiConsumerStateMachineListener.java', '    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {', '    Object[] current = snapshot;\n    if (current == null) {\n      current = consumers.values().toArray();\n      snapshot = current;\n    }\n    for (Object o : current) {\n      StateMachineListener<T, S> stateMachineListener = (StateMachineListener<T, S>) o;'), ('MultiConsumerStateMachineListener.java', '  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;', '  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n  private volatile Object[] snapshot;'), ('MultiConsumerStateMachineListener.java', '    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;', '    boolean added = this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n    snapshot = null;\n    return added;'), ('MultiConsumerStateMachineListener.java', '    return this.consumers.remove(stateMachineListener) != null;', '    boolean removed = this.consumers.remove(stateMachineListener) != null;\n    snapshot = null;\n    return removed;')]
DEMO = '''
  static class L implements StateMachineListener<Object, Object> {
    final AtomicInteger n = new AtomicInteger();

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n.incrementAndGet();
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
    }
  }

  public static void main(String[] a) throws Exception {
    NamedState<Object, Object> s = new NamedState<>("S");
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    MultiConsumerStateMachineListener<Object, Object> m = new MultiConsumerStateMachineListener<>();
    for (int i = 0; i < 20; i++) {
      m.add(new L());
    }
    AtomicBoolean over = new AtomicBoolean();
    List<Thread> ts = new ArrayList<>();
    for (int i = 0; i < 3; i++) {
      Thread t = new Thread(() -> {
        while (!over.get()) {
          m.onStateChangeBegin(s, e, s);
        }
      });
      t.setDaemon(true);
      t.start();
      ts.add(t);
    }
    for (int i = 0; i < 400000; i++) {
      L l = new L();
      m.add(l);
      m.onStateChangeBegin(s, e, s);
      check(l.n.get() > 0, "a listener that has been added is not notified, after " + i + " rounds");
      m.remove(l);
    }
    over.set(true);
    ok();
  }
'''
