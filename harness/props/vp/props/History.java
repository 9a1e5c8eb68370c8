package vp.props;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import vp.core.Violation;

/**
 * Checks a concurrent history: the callbacks must be the concatenation of one contiguous block per
 * processed event, each the block the model predicts in the state the previous one left.
 */
final class History {

  static final class Fire {

    Object key;
    int ev;
    Tok tok;
    int call;
    int ret = Integer.MAX_VALUE;
    int before;
    int after;
    int rejected;
    Rec rejectRec;
    Rec callRec;
    int proc = -1;
    /** log positions of the first and last callback */
    int first = -1;
    int last = -1;

    boolean accepted() {
      return before == 0 && after == 0 && rejected == 0;
    }

    @Override
    public String toString() {
      return String.valueOf(key);
    }
  }

  final World w;
  final List<Rec> log;
  final Model m;
  final Map<Object, Fire> fires = new LinkedHashMap<>();
  final List<Fire> processed = new ArrayList<>();
  boolean fifo = true;
  boolean multi;
  /** the machine was started with start() in this log */
  boolean expectInit = true;
  /** events that may be missing although accepted */
  java.util.function.Predicate<Fire> mayDrop = f -> false;
  /** the machine may have been ended from outside: the rest may be missing */
  boolean stopped;
  int startRet = Integer.MAX_VALUE;
  int initEnd = -1;

  History(World w) {
    this.w = w;
    this.log = w.logCopy();
    this.m = new Model(w.c);
  }

  private Object key(Rec r) {
    return r.pay instanceof Tok ? r.pay : r.ev;
  }

  static boolean isCallback(Rec r) {
    switch (r.kind) {
      case "BEGIN":
      case "END":
      case "ENTRY":
      case "EXIT":
      case "UNMAPPED":
      case "EXC":
        return true;
      default:
        return false;
    }
  }

  private Violation bad(String msg, int at) {
    StringBuilder b = new StringBuilder(msg).append("; log around:");
    for (int i = Math.max(0, at - 14); i < Math.min(log.size(), at + 6); i++) {
      b.append(i == at ? " >>[" : " [").append(log.get(i)).append(" @")
          .append(log.get(i).thread.getName()).append(']');
    }
    return new Violation(b.toString());
  }

  /** the report of a rejection, which is an exception that no callback threw */
  private Rec rejection(Rec r) {
    return r.is("EXC") && r.obj instanceof IllegalStateException && !w.threw(r.obj) ? r : null;
  }

  History index(Set<Rec> rejections) {
    Map<String, Integer> evs = new HashMap<>();
    for (int i = 0; i < w.c.ev.size(); i++) {
      evs.put(w.c.ev.get(i), i);
    }
    for (int i = 0; i < log.size(); i++) {
      Rec r = log.get(i);
      switch (r.kind) {
        case "FIRE": {
          Fire f = new Fire();
          f.key = key(r);
          f.ev = evs.get(r.ev);
          f.tok = r.pay instanceof Tok ? (Tok) r.pay : null;
          f.call = i;
          f.callRec = r;
          if (fires.put(f.key, f) != null) {
            throw new IllegalStateException("harness: key fired twice " + f.key);
          }
          break;
        }
        case "RET":
          fires.get(key(r)).ret = i;
          break;
        case "BEFORE":
        case "AFTER": {
          Fire f = fires.get(key(r));
          if (f == null) {
            throw bad("report for an event that was not fired", i);
          }
          if (r.is("BEFORE")) {
            f.before++;
          } else {
            f.after++;
          }
          if (f.before + f.after > 1) {
            throw bad("event " + f + " reported more than once", i);
          }
          if (r.thread != f.callRec.thread) {
            throw bad("report for " + f + " on another thread than the firing one", i);
          }
          break;
        }
        case "STARTED":
          startRet = Math.min(startRet, i);
          break;
        default:
      }
      if (rejections != null && rejections.contains(r)) {
        Fire f = fires.get(key(r));
        if (f == null) {
          throw bad("rejection of an event that was not fired", i);
        }
        f.rejected++;
        f.rejectRec = r;
        if (f.rejected > 1) {
          throw bad("event " + f + " rejected more than once", i);
        }
      }
      if (r.text.contains("WRONG-")) {
        throw bad("callback with wrong arguments", i);
      }
    }
    return this;
  }

  History check(Set<Rec> rejections) {
    index(rejections);
    List<Integer> cb = new ArrayList<>();
    for (int i = 0; i < log.size(); i++) {
      if (isCallback(log.get(i)) && (rejections == null || !rejections.contains(log.get(i)))) {
        cb.add(i);
      }
    }
    int p = 0;
    if (expectInit) {
      p = block(cb, 0, m.init(), "the initial transition");
      initEnd = p == 0 ? -1 : cb.get(p - 1);
    }
    while (p < cb.size()) {
      int at = cb.get(p);
      Rec r = log.get(at);
      Fire f = fires.get(key(r));
      if (f == null) {
        throw bad("callback of an event that was never fired", at);
      }
      if (f.proc >= 0) {
        throw bad("event " + f + " processed twice, or its callbacks are not contiguous", at);
      }
      if (!f.accepted()) {
        throw bad("event " + f + " was reported as not accepted but is processed", at);
      }
      if (m.ended && !stopped) {
        throw bad("event " + f + " processed after the machine ended", at);
      }
      List<String> exp = m.process(f.ev, f.tok);
      f.proc = processed.size();
      f.first = at;
      processed.add(f);
      p = block(cb, p, exp, "event " + f);
      f.last = cb.get(p - 1);
    }
    for (Fire f : fires.values()) {
      if (f.before > 0 && f.call > startRet) {
        throw bad("event " + f + " fired after the start was reported as fired before it", f.call);
      }
      if (f.after > 0 && !m.ended && !stopped) {
        throw bad("event " + f + " was reported as fired after the end of a machine that has not "
            + "ended", f.call);
      }
      if (f.accepted() && f.proc < 0 && !m.ended && !stopped && !mayDrop.test(f)) {
        throw bad("event " + f + " was lost", f.call);
      }
    }
    if (fifo) {
      int maxCall = -1;
      Fire maxFire = null;
      for (Fire f : processed) {
        if (f.ret < maxCall) {
          throw bad("event " + f + " was fired before " + maxFire + " but processed after it",
              f.first);
        }
        if (f.call > maxCall) {
          maxCall = f.call;
          maxFire = f;
        }
      }
      for (Fire f : fires.values()) {
        if (f.accepted() && f.proc < 0 && f.ret < maxCall && !mayDrop.test(f)) {
          throw bad("event " + f + " was skipped: " + maxFire + " fired after it was processed",
              f.call);
        }
      }
    }
    return this;
  }

  private int block(List<Integer> cb, int p, List<String> exp, String what) {
    for (int i = 0; i < exp.size(); i++) {
      if (p + i >= cb.size()) {
        throw bad("processing of " + what + " stops short: expected <" + exp.get(i) + ">",
            log.size() - 1);
      }
      int at = cb.get(p + i);
      if (!log.get(at).text.equals(exp.get(i))) {
        throw bad("in the block of " + what + " expected <" + exp.get(i) + "> but was <"
            + log.get(at) + ">", at);
      }
    }
    return p + exp.size();
  }

  String summary() {
    int b = 0;
    int a = 0;
    for (Fire f : fires.values()) {
      b += f.before;
      a += f.after;
    }
    return fires.size() + " fired, " + processed.size() + " processed, " + b + " before, " + a
        + " after";
  }
}
