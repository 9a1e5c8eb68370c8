package vp.props;

import java.util.ArrayList;
import java.util.List;
import vp.core.Ctx;
import vp.core.Violation;

final class Util {

  private Util() {
  }

  static List<String> callbacks(List<Rec> log) {
    List<String> l = new ArrayList<>();
    for (Rec r : log) {
      if (!r.is("FIRE") && !r.is("RET")) {
        l.add(r.text);
      }
    }
    return l;
  }

  /** compares from position `at`; returns the new position */
  static int expect(Ctx c, List<String> actual, int at, List<String> expected, String after) {
    for (int i = 0; i < expected.size(); i++) {
      if (at + i >= actual.size()) {
        throw new Violation(after + ": expected callback <" + expected.get(i)
            + "> but there was none");
      }
      if (!expected.get(i).equals(actual.get(at + i))) {
        throw new Violation(after + ": expected callback <" + expected.get(i) + "> but was <"
            + actual.get(at + i) + ">");
      }
    }
    return at + expected.size();
  }

  static void expectAll(Ctx c, List<String> actual, int at, List<String> expected, String after) {
    int e = expect(c, actual, at, expected, after);
    if (e < actual.size()) {
      throw new Violation(after + ": unexpected callback <" + actual.get(e) + ">");
    }
  }
}
