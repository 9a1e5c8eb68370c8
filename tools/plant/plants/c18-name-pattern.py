PROPERTY = "C18"
NEEDS = "a logging listener whose name contains {}"
BREAKS = "the name is taken as part of the log pattern: the line swallows the wrong arguments"
EDITS = [("LoggingStateMachineListener.java", "        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());\n", "        logger.info(this.name + \" transitioned to {}\", newState.getName());\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    java.io.ByteArrayOutputStream out = new java.io.ByteArrayOutputStream();
    System.setProperty("org.apache.logging.log4j.simplelog.level", "INFO");
    System.setErr(new java.io.PrintStream(out, true));
    LoggingStateMachineListener<Object, Object> l = new LoggingStateMachineListener<>("a {} b");
    l.onStateChangeEnd(new NamedState<>("S"), new NamedStateEvent<>("e"), new NamedState<>("T"));
    check(out.toString().contains("a {} b transitioned to T"), "logged: " + out);
    ok();
  }
'''
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
J=$(find /root/.m2/repository/org/apache/logging/log4j/log4j-api -name 'log4j-api-*.jar' | grep -v sources | head -1)
exec timeout 200 java -Dlog4j2.loggerContextFactory=org.apache.logging.log4j.simple.SimpleLoggerContextFactory \\
  -cp "$PWD/target/classes:$J" "$D/Demo.java"
'''
