PROPERTY = 'C11'
NEEDS = 'two applications or machines with different thread names alive at once'
BREAKS = 'threads of one are named after the other'
EDITS = [('util/Threads.java', '    private final String threadName;', '    private static volatile String latestName;\n    private final String threadName;'), ('util/Threads.java', '      this.threadName = threadName;\n', '      this.threadName = threadName;\n      latestName = threadName;\n'), ('util/Threads.java', 'this.threadName, threadNumber', 'latestName, threadNumber')]
DEMO = '''
  static GenericStateMachine<Object, Object> machine(String name, List<String> on) {
    NamedState<Object, Object> s = new NamedState<>("S");
    s.appendExitActions((e, m) -> on.add(Thread.currentThread().getName()));
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
        EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withThreadName(name))).build();
    sm.initialSate(s).receives(new NamedStateEvent<>("e")).itTransitionsTo(s);
    sm.start();
    return sm;
  }

  public static void main(String[] a) throws Exception {
    List<String> one = new CopyOnWriteArrayList<>();
    List<String> two = new CopyOnWriteArrayList<>();
    GenericStateMachine<Object, Object> m1 = machine("one", one);
    GenericStateMachine<Object, Object> m2 = machine("two", two);
    m1.fire(new NamedStateEvent<>("e"));
    m2.fire(new NamedStateEvent<>("e"));
    await(() -> one.size() == 1 && two.size() == 1, "both process their event");
    check(one.get(0).startsWith("one-"), "the first machine runs on " + one);
    check(two.get(0).startsWith("two-"), "the second machine runs on " + two);
    ok();
  }
'''
