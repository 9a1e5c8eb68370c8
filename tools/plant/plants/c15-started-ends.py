PROPERTY = "C15"
NEEDS = "isStarted() read after the machine has ended"
BREAKS = "isStarted() goes back to false when the machine ends"
EDITS = [("GenericStateMachine.java", "    return isStarted.get();\n", "    return isStarted.get() && !isEnded.get();\n"),
("GenericStateMachine.java", """    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
""", """    if (!isStarted.get()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isEnded()) {
""")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    GenericStateMachine<Object, Object> sm = new GenericStateMachine.Builder<Object, Object>().build();
    sm.initialSate(new NamedState<>("S")).receives(new NamedStateEvent<>("a")).itEnds();
    sm.start();
    check(sm.isStarted(), "started");
    sm.fire(new NamedStateEvent<>("a"));
    await(sm::isEnded, "ends");
    check(sm.isStarted(), "no longer started");
    ok();
  }
'''
