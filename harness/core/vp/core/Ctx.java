package vp.core;

import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Set;

/** What a property gets: its two choice sequences, and where it says what the case was. */
public final class Ctx {

  /** data choices */
  public final Src d;
  /** schedule choices */
  public final Src s;
  public final boolean thorough;
  private final List<String> notes = new ArrayList<>();
  final Set<String> labels = new LinkedHashSet<>();
  String nontrivialKey;
  private boolean noting = true;

  public Ctx(Src d, Src s, boolean thorough) {
    this.d = d;
    this.s = s;
    this.thorough = thorough;
  }

  public synchronized void note(String line) {
    if (noting && notes.size() < 400) {
      notes.add(line.length() > 400 ? line.substring(0, 400) + "..." : line);
    }
  }

  public synchronized void label(String label) {
    labels.add(label);
  }

  public void labelIf(boolean b, String label) {
    if (b) {
      label(label);
    }
  }

  /** marks the case non-trivial; key identifies it for counting distinct cases */
  public void nontrivial(String key) {
    nontrivialKey = key;
  }

  public synchronized List<String> notes() {
    return new ArrayList<>(notes);
  }

  public void check(boolean ok, String msg) {
    if (!ok) {
      throw new Violation(msg);
    }
  }

  public void eq(Object expected, Object actual, String msg) {
    if (!java.util.Objects.equals(expected, actual)) {
      throw new Violation(msg + ": expected [" + expected + "] but was [" + actual + "]");
    }
  }

  public void same(Object expected, Object actual, String msg) {
    if (expected != actual) {
      throw new Violation(msg + ": expected the same object [" + str(expected) + "] but was ["
          + str(actual) + "]");
    }
  }

  private static String str(Object o) {
    try {
      return String.valueOf(o);
    } catch (Throwable t) {
      return o.getClass().getName();
    }
  }
}
