PROPERTY = 'C23'
NEEDS = 'listeners that are added and removed again, many times'
BREAKS = 'the order in which consumers were added is remembered, also of those that were removed'
EDITS = [('MultiConsumerStateMachineListener.java', '    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n', '    boolean added = this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n    if (added) {\n      order.add(stateMachineListener);\n    }\n    return added;\n'), ('MultiConsumerStateMachineListener.java', '  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n', '  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n  private final java.util.Queue<StateMachineListener<T, S>> order = new java.util.concurrent.ConcurrentLinkedQueue<>();\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    MultiConsumerStateMachineListener<Object, Object> f = new MultiConsumerStateMachineListener<>();
    List<java.lang.ref.WeakReference<Object>> refs = new ArrayList<>();
    for (int i = 0; i < 50; i++) {
      StateMachineListener<Object, Object> l = new LoggingStateMachineListener<>("l" + i);
      refs.add(new java.lang.ref.WeakReference<>(l));
      f.add(l);
      f.remove(l);
      l = null;
    }
    int n = alive(refs);
    check(n < 5, n + " of 50 removed listeners are retained");
    ok();
  }

  static int alive(List<? extends java.lang.ref.WeakReference<?>> l) throws Exception {
    int n = 0;
    for (int i = 0; i < 15; i++) {
      System.gc();
      Thread.sleep(20);
      n = 0;
      for (java.lang.ref.WeakReference<?> w : l) {
        n += w.get() == null ? 0 : 1;
      }
      if (n < 5) {
        return n;
      }
    }
    return n;
  }
'''
