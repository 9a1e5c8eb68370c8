PROPERTY = 'C18'
NEEDS = 'a logging listener on a machine with an event that does not transition'
BREAKS = 'the end of an event that does not transition is not logged'
EDITS = [('LoggingStateMachineListener.java', '  private void logChange(boolean isComplete, State<T, S> oldState, StateEvent<S> event,\n      State<T, S> newState) {\n', '  private void logChange(boolean isComplete, State<T, S> oldState, StateEvent<S> event,\n      State<T, S> newState) {\n    if (isComplete && newState.getName().startsWith("_NOOP")) {\n      return;\n    }\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    java.io.ByteArrayOutputStream out = new java.io.ByteArrayOutputStream();
    System.setProperty("org.apache.logging.log4j.simplelog.level", "INFO");
    System.setErr(new java.io.PrintStream(out, true));
    LoggingStateMachineListener<Object, Object> l = new LoggingStateMachineListener<>("m");
    NamedState<Object, Object> s = new NamedState<>("S");
    NamedState<Object, Object> n = new NamedState<>("_NOOP_");
    NamedStateEvent<Object> e = new NamedStateEvent<>("e");
    l.onStateChangeBegin(s, e, n);
    l.onStateChangeEnd(s, e, n);
    String t = out.toString();
    check(t.contains("Begin m transition: S + e = _NOOP_"), "no begin line: " + t);
    check(t.contains("m transitioned to _NOOP_"), "no end line: " + t);
    ok();
  }
'''
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
J=$(find /root/.m2/repository/org/apache/logging/log4j/log4j-api -name 'log4j-api-*.jar' | grep -v sources | head -1)
exec timeout 200 java -Dlog4j2.loggerContextFactory=org.apache.logging.log4j.simple.SimpleLoggerContextFactory \\
  -cp "$PWD/target/classes:$J" "$D/Demo.java"
'''
