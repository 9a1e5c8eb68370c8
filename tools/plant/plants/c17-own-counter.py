PROPERTY = "C17"
NEEDS = "two thread factories with the same thread name"
BREAKS = "threads of different factories share their names"
EDITS = [("util/Threads.java", "    private static final AtomicInteger threadNumber = new AtomicInteger();\n", "    private final AtomicInteger threadNumber = new AtomicInteger();\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    Set<String> names = new HashSet<>();
    for (int i = 0; i < 3; i++) {
      check(names.add(Threads.newNamedDaemonThreadFactory("x").newThread(() -> { }).getName()), "name used twice");
    }
    ok();
  }
'''
