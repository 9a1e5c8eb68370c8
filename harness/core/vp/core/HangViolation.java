package vp.core;

/** A case that did not terminate; reported only when it happens again. */
public class HangViolation extends Violation {

  public HangViolation(String msg) {
    super(msg);
  }
}
