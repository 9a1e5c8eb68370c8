package vp.core;

/** The property does not hold on this case. */
public class Violation extends RuntimeException {

  public Violation(String msg) {
    super(msg);
  }

  public Violation(String msg, Throwable cause) {
    super(msg, cause);
  }
}
