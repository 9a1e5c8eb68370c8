PROPERTY = 'C17'
NEEDS = 'more than 1000 threads made in the process'
BREAKS = 'thread numbers start again: names are no longer unique'
EDITS = [('util/Threads.java', 'threadNumber.getAndIncrement()', 'threadNumber.getAndIncrement() % 1000')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    ThreadFactory f = Threads.newNamedDaemonThreadFactory("t", (t, e) -> { });
    Set<String> names = new HashSet<>();
    for (int i = 0; i < 3000; i++) {
      Thread t = f.newThread(() -> { });
      check(names.add(t.getName()), "two threads are called " + t.getName());
    }
    ok();
  }
'''
