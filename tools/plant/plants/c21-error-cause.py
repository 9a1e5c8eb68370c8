PROPERTY = "C21"
NEEDS = "a guarded action that throws an Exception whose cause, or the cause of that, is an Error"
BREAKS = "the Error in the chain of causes is thrown instead of handing the exception to the handler"
EDITS = [("HandleExceptionAction.java", "      exceptionHandler.onException(stateEvent, stateMachine, e);\n",
"""      for (Throwable t = e.getCause(); t != null && t != e; t = t.getCause()) {
        if (t instanceof Error) {
          throw (Error) t;
        }
      }
      exceptionHandler.onException(stateEvent, stateMachine, e);
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger handled = new AtomicInteger();
    HandleExceptionAction<Object, Object> g = new HandleExceptionAction<>((e, m) -> {
      throw new IllegalStateException(new RuntimeException(new AssertionError("deep")));
    }, (e, m, x) -> handled.incrementAndGet());
    try {
      g.execute(new NamedStateEvent<>("e"), null);
    } catch (Throwable t) {
      check(false, "threw " + t);
    }
    check(handled.get() == 1, "handled " + handled.get());
    ok();
  }
'''
