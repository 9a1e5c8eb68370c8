package vp.props;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.List;

/** The reference model: what a machine does, one event at a time. */
final class Model {

  static final int AT_END = -100;

  static final class Pend {

    final int ev;
    final Tok tok;

    Pend(int ev, Tok tok) {
      this.ev = ev;
      this.tok = tok;
    }
  }

  final Cfg c;
  int cur = Integer.MIN_VALUE;
  boolean started;
  boolean ended;
  /** the last block was cut short by an exception */
  boolean threw;
  /** sequential use: the drop-duplicate strategy, and the bound of the queue if positive */
  boolean dropDup;
  int bound = -1;
  int dropped;
  int rejected;
  int maxWaiting;
  int processed;
  final Deque<Pend> queue = new ArrayDeque<>();
  /** when set, gets {kind, event, from, to, current state, payload} of each notification */
  List<Object[]> notes;
  /** when set, gets the number of events waiting at each callback of a transition */
  List<Integer> sizes;
  /** unmapped events reach a handler of the library's, which does not throw */
  boolean defaultUnmapped;
  int realTransitions;
  int actionsRun;

  Model(Cfg c) {
    this.c = c;
  }

  Model copy() {
    Model m = new Model(c);
    m.dropDup = dropDup;
    m.bound = bound;
    m.cur = cur;
    m.started = started;
    m.ended = ended;
    m.queue.addAll(queue);
    return m;
  }

  String curName() {
    return cur == AT_END ? Names.END : cur == Integer.MIN_VALUE ? "null" : c.st.get(cur);
  }

  private static final class Stop extends RuntimeException {

    private static final long serialVersionUID = 1L;

    Stop() {
      super(null, null, false, false);
    }
  }

  private final class Out {

    final List<String> l = new ArrayList<>();
    final String ev;
    final Tok tok;
    int seen;

    Out(String ev, Tok tok) {
      this.ev = ev;
      this.tok = tok;
    }

    void cb(String kind, String what, String from, String to) {
      if (notes != null) {
        notes.add(new Object[]{kind, ev, from, to, curName(), tok});
      }
      if (kind.equals("UNMAPPED") && defaultUnmapped) {
        return;
      }
      if (sizes != null) {
        sizes.add(queue.size());
      }
      l.add(kind + " '" + ev + "'" + (tok == null ? "" : tok) + " " + what + " cur='" + curName()
          + "'");
      if (tok != null && seen++ == tok.throwAt) {
        threw = true;
        if (notes != null && !World.isError(tok.throwKind)) {
          notes.add(new Object[]{"EXC", ev, null, null, curName(), tok});
        }
        if (!World.isError(tok.throwKind)) {
          l.add("EXC '" + ev + "'" + tok + " "
              + World.throwable(tok.throwKind, "").getClass().getSimpleName());
        }
        throw new Stop();
      }
    }

    /** a guarded action that throws: its handler is called, and may throw itself */
    private boolean guarded(Act a) {
      if (!a.booms(tok)) {
        return false;
      }
      String what = " '" + ev + "'" + (tok == null ? "" : tok) + " a" + a.id + " ";
      if (World.isError(a.kind)) {
        threw = true;
        throw new Stop();
      }
      for (int i = 0; i < a.guard; i++) {
        String x = i == 0 ? World.throwable(a.kind, "").getClass().getSimpleName() : "Rethrown";
        l.add("HANDLED" + what + i + " " + x);
      }
      if (a.rethrows) {
        threw = true;
        l.add("EXC '" + ev + "'" + (tok == null ? "" : tok) + " Rethrown");
        throw new Stop();
      }
      return true;
    }

    void acts(String kind, int s, boolean init, List<Act> as) {
      for (Act a : as) {
        cb(kind, c.st.get(s) + " a" + a.id, null, null);
        actionsRun++;
        if (guarded(a)) {
          continue;
        }
        int fuel = tok != null ? tok.fuel : init ? 1 : 0;
        if (fuel > 0) {
          for (int k = 0; k < a.fires.length; k++) {
            int e = a.fires[k];
            offer(e, World.childTok(tok, a, k), l);
          }
        }
      }
    }
  }

  /** the callbacks of the initial transition */
  List<String> init() {
    started = true;
    threw = false;
    Out o = new Out(Names.IMM, null);
    cur = 0;
    String ft = "'" + Names.UNINIT + "'->'" + c.st.get(0) + "'";
    o.cb("BEGIN", ft, Names.UNINIT, c.st.get(0));
    o.acts("ENTRY", 0, true, c.entry.get(0));
    o.cb("END", ft, Names.UNINIT, c.st.get(0));
    if (c.imm.get(0)) {
      ended = true;
      cur = AT_END;
    }
    return o.l;
  }

  /** the callbacks of processing an event in the current state */
  List<String> process(int e, Tok tok) {
    threw = false;
    Out o = new Out(c.ev.get(e), tok);
    try {
      int t = cur == AT_END ? Cfg.UNMAPPED : c.to(cur, e);
      if (t == Cfg.UNMAPPED) {
        o.cb("UNMAPPED", "", null, null);
        return o.l;
      }
      if (t == Cfg.NOOP) {
        String ft = "'" + curName() + "'->'" + Names.NOOP + "'";
        o.cb("BEGIN", ft, curName(), Names.NOOP);
        o.cb("END", ft, curName(), Names.NOOP);
        return o.l;
      }
      int from = cur;
      String fn = curName();
      String tn = t == Cfg.END ? Names.END : c.st.get(t);
      String ft = "'" + fn + "'->'" + tn + "'";
      o.cb("BEGIN", ft, fn, tn);
      o.acts("EXIT", from, false, c.exit.get(from));
      realTransitions++;
      if (t == Cfg.END) {
        cur = AT_END;
        ended = true;
        o.cb("END", ft, fn, tn);
        return o.l;
      }
      cur = t;
      o.acts("ENTRY", t, false, c.entry.get(t));
      o.cb("END", ft, fn, tn);
      if (!c.configured.get(t) || c.imm.get(t)) {
        cur = AT_END;
        ended = true;
      }
    } catch (Stop s) {
      // the rest is skipped
    }
    return o.l;
  }

  // ------------------------------------------------------------------ sequential use

  /** start: the initial transition, whose fired events are queued */
  List<String> start() {
    return init();
  }

  private void offer(int e, Tok t, List<String> l) {
    Tok tk = c.ownEvent.get(e) ? null : t;
    String s = "'" + c.ev.get(e) + "'" + (tk == null ? "" : tk);
    if (!started) {
      note("BEFORE", e, tk);
      l.add("BEFORE " + s + "  cur='" + curName() + "'");
      return;
    }
    if (ended) {
      note("AFTER", e, tk);
      l.add("AFTER " + s + "  cur='" + curName() + "'");
      return;
    }
    if (dropDup) {
      for (Pend p : queue) {
        if (p.ev == e) {
          dropped++;
          note("DROP", e, tk);
          return;
        }
      }
    }
    if (bound > 0 && queue.size() >= bound) {
      rejected++;
      note("REJ", e, tk);
      l.add("EXC " + s + " IllegalStateException");
      return;
    }
    queue.add(new Pend(e, tk));
    maxWaiting = Math.max(maxWaiting, queue.size());
  }

  private void note(String kind, int e, Tok t) {
    if (notes != null) {
      notes.add(new Object[]{kind, c.ev.get(e), null, null, curName(), t});
    }
  }

  /** fire from outside; returns the immediate callbacks */
  List<String> fire(int e, Tok t) {
    List<String> l = new ArrayList<>();
    offer(e, t, l);
    return l;
  }

  /** processes the next queued event */
  List<String> step() {
    Pend p = queue.poll();
    if (p == null || ended) {
      return List.of();
    }
    processed++;
    return process(p.ev, p.tok);
  }

  /** processes everything queued */
  List<String> drain() {
    List<String> l = new ArrayList<>();
    int guard = 0;
    while (!queue.isEmpty()) {
      l.addAll(step());
      if (++guard > 2_000_000) {
        throw new IllegalStateException("model does not end");
      }
    }
    return l;
  }
}
