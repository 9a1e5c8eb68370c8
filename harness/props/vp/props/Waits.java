package vp.props;

import java.util.List;
import vp.core.Violation;

/** When events waited, from a checked history of a machine with one processing thread. */
final class Waits {

  final History h;

  Waits(History h) {
    this.h = h;
  }

  /** the log position up to which f was definitely waiting, from f.ret on; -1 if not known */
  int until(History.Fire f) {
    if (f.proc < 0) {
      return f.accepted() ? h.log.size() : -1;
    }
    return f.proc == 0 ? h.initEnd : h.processed.get(f.proc - 1).last;
  }

  /** most events definitely waiting at one time */
  int most() {
    int best = 0;
    for (History.Fire f : h.processed) {
      int t = f.ret;
      if (until(f) < t) {
        continue;
      }
      int n = 0;
      for (History.Fire g : h.processed) {
        if (g.ret <= t && until(g) >= t) {
          n++;
        }
      }
      best = Math.max(best, n);
    }
    return best;
  }

  /** could n events other than f have waited at one time between from and to? */
  boolean possible(History.Fire f, int from, int to, int n, java.util.function.Predicate<History.Fire> p) {
    for (int t = from; t <= to; t++) {
      int k = 0;
      for (History.Fire g : h.fires.values()) {
        if (g != f && g.accepted() && g.call <= t && (g.proc < 0 || g.first >= t) && p.test(g)) {
          k++;
        }
      }
      if (k >= n) {
        return true;
      }
    }
    return false;
  }

  static void fail(String m, History h) {
    List<Rec> l = h.log;
    throw new Violation(m + (l.size() < 80 ? " in " + l : ""));
  }
}
