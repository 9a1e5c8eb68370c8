PROPERTY = "C12"
NEEDS = "two threads adding the same listener at the same time"
BREAKS = "both concurrent adds of one listener report success"
EDITS = [("MultiConsumerStateMachineListener.java", "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n",
"""    if (this.consumers.containsKey(stateMachineListener)) {
      return false;
    }
    this.consumers.put(stateMachineListener, stateMachineListener);
    return true;
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    ExecutorService ex = Executors.newFixedThreadPool(6);
    for (int i = 0; i < 20000; i++) {
      MultiConsumerStateMachineListener<Object, Object> m = new MultiConsumerStateMachineListener<>();
      LoggingStateMachineListener<Object, Object> l = new LoggingStateMachineListener<>();
      CyclicBarrier bar = new CyclicBarrier(6);
      List<Future<Boolean>> fs = new ArrayList<>();
      for (int j = 0; j < 6; j++) {
        fs.add(ex.submit(() -> {
          bar.await();
          return m.add(l);
        }));
      }
      int n = 0;
      for (Future<Boolean> f : fs) {
        n += f.get() ? 1 : 0;
      }
      check(n == 1, n + " adds succeeded");
    }
    ok();
  }
'''
