package vp.core;

import java.util.Arrays;
import java.util.SplittableRandom;

/**
 * A recorded sequence of bounded choices. In random mode choices come from a seeded generator, in
 * replay mode from a given array (0, the simplest choice, beyond its end). Whatever was chosen is
 * recorded, so a case is a pure function of its choice sequence.
 */
public final class Src {

  private final SplittableRandom rnd;
  private final int[] replay;
  private int pos;
  private int[] rec = new int[64];
  private int n;
  private static final int MAX = 400_000;

  private Src(SplittableRandom rnd, int[] replay) {
    this.rnd = rnd;
    this.replay = replay;
  }

  public static Src random(long seed) {
    return new Src(new SplittableRandom(seed), null);
  }

  public static Src replay(int[] values) {
    return new Src(null, values);
  }

  public boolean isRandom() {
    return rnd != null;
  }

  private int put(int v) {
    if (n == rec.length) {
      rec = Arrays.copyOf(rec, n * 2);
    }
    rec[n++] = v;
    return v;
  }

  /** uniform in 0..bound-1 */
  public int below(int bound) {
    if (bound <= 1) {
      return 0;
    }
    if (n >= MAX) {
      return 0;
    }
    int v;
    if (rnd != null) {
      v = rnd.nextInt(bound);
    } else {
      v = pos < replay.length ? replay[pos] : 0;
      pos++;
      if (v < 0) {
        v = 0;
      }
      if (v >= bound) {
        v = bound - 1;
      }
    }
    return put(v);
  }

  /** uniform in 1..bound-1 when random; a replay may also yield 0 (its simplest value) */
  public int belowNz(int bound) {
    if (n >= MAX) {
      return 0;
    }
    int v;
    if (rnd != null) {
      v = 1 + rnd.nextInt(Math.max(1, bound - 1));
    } else {
      v = pos < replay.length ? replay[pos] : 0;
      pos++;
      v = Math.max(0, Math.min(v, bound - 1));
    }
    return put(v);
  }

  /** inclusive range, lo being the simplest */
  public int range(int lo, int hi) {
    return lo + below(hi - lo + 1);
  }

  /** true with probability num/den; false is the simplest */
  public boolean chance(int num, int den) {
    return below(den) >= den - num;
  }

  public boolean bool() {
    return below(2) == 1;
  }

  @SafeVarargs
  public final <T> T pick(T... xs) {
    return xs[below(xs.length)];
  }

  public <T> T pick(java.util.List<T> xs) {
    return xs.get(below(xs.size()));
  }

  /** index drawn by weights */
  public int weighted(int... w) {
    int sum = 0;
    for (int x : w) {
      sum += x;
    }
    int v = below(sum);
    for (int i = 0; i < w.length; i++) {
      if (v < w[i]) {
        return i;
      }
      v -= w[i];
    }
    return w.length - 1;
  }

  /** mostly small sizes lo.., now and then up to hi, rarely far beyond */
  public int size(int lo, int small, int hi) {
    if (hi > small && chance(1, 16)) {
      return hi >= 60 && chance(1, 30) ? range(lo, hi * 8) : range(lo, hi);
    }
    return range(lo, Math.min(small, hi));
  }

  public int[] recorded() {
    return Arrays.copyOf(rec, n);
  }

  public int count() {
    return n;
  }
}
