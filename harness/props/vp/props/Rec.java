package vp.props;

/** One observed happening. */
final class Rec {

  /** BEGIN END ENTRY EXIT UNMAPPED EXC AFTER BEFORE; FIRE RET; others by the property */
  final String kind;
  final String ev;
  final Object pay;
  final String text;
  final Thread thread;
  /** the event object the callback was given */
  com.webotech.statemachine.api.StateEvent<Object> event;
  /** object of interest: exception, outcome */
  Object obj;
  boolean endedSeen;
  /** length of the log just before the current state was read for this record */
  int pre;

  Rec(String kind, String ev, Object pay, String text) {
    this.kind = kind;
    this.ev = ev;
    this.pay = pay;
    this.text = text;
    this.thread = Thread.currentThread();
  }

  boolean is(String k) {
    return kind.equals(k);
  }

  @Override
  public String toString() {
    return text;
  }
}
