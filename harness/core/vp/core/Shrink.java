package vp.core;

import java.util.Arrays;
import java.util.Iterator;
import java.util.NoSuchElementException;

/** Simpler choice sequences to try, most promising first. */
final class Shrink {

  private Shrink() {
  }

  static boolean simpler(int[] d, int[] s, int[] d0, int[] s0) {
    int a = trimmed(d) + trimmed(s);
    int b = trimmed(d0) + trimmed(s0);
    if (a != b) {
      return a < b;
    }
    int c = cmp(d, d0);
    return c != 0 ? c < 0 : cmp(s, s0) < 0;
  }

  private static int cmp(int[] x, int[] y) {
    long sx = 0;
    long sy = 0;
    for (int v : x) {
      sx += v;
    }
    for (int v : y) {
      sy += v;
    }
    if (sx != sy) {
      return Long.compare(sx, sy);
    }
    return Arrays.compare(x, y);
  }

  private static int trimmed(int[] a) {
    int n = a.length;
    while (n > 0 && a[n - 1] == 0) {
      n--;
    }
    return n;
  }

  static Iterable<int[]> candidates(int[] raw) {
    int[] a = Arrays.copyOf(raw, trimmed(raw));
    int n = a.length;
    return () -> new Iterator<int[]>() {
      private int stage;
      private int chunk = Math.max(1, Integer.highestOneBit(Math.max(1, n)));
      private int at;
      private int[] next = advance();

      private int[] advance() {
        while (true) {
          if (stage == 0) {
            stage = 1;
            if (n > 0) {
              return new int[0];
            }
          } else if (stage == 1 || stage == 2) {
            // delete, then zero, chunks of falling size
            if (n == 0) {
              stage = 9;
            } else if (at + chunk <= n || at < n && chunk == 1) {
              int s = at;
              at += chunk;
              int e = Math.min(n, s + chunk);
              if (stage == 1) {
                int[] r = new int[n - (e - s)];
                System.arraycopy(a, 0, r, 0, s);
                System.arraycopy(a, e, r, s, n - e);
                return r;
              }
              boolean any = false;
              int[] r = a.clone();
              for (int i = s; i < e; i++) {
                any |= r[i] != 0;
                r[i] = 0;
              }
              if (any) {
                return r;
              }
            } else if (chunk > 1) {
              chunk /= 2;
              at = 0;
            } else {
              stage++;
              at = 0;
              chunk = Math.max(1, Integer.highestOneBit(Math.max(1, n)) / 2);
            }
          } else if (stage == 3 || stage == 4 || stage == 5) {
            // halve, decrement; decrement with deletion of the next
            if (at >= n) {
              at = 0;
              stage++;
            } else {
              int i = at++;
              if (a[i] > 0) {
                int[] r = a.clone();
                r[i] = stage == 3 ? a[i] / 2 : a[i] - 1;
                if (stage == 5 && i + 1 < n) {
                  int[] q = new int[n - 1];
                  System.arraycopy(r, 0, q, 0, i + 1);
                  System.arraycopy(r, i + 2, q, i + 1, n - i - 2);
                  return q;
                }
                if (stage != 3 || a[i] > 2) {
                  return r;
                }
              }
            }
          } else {
            return null;
          }
        }
      }

      @Override
      public boolean hasNext() {
        return next != null;
      }

      @Override
      public int[] next() {
        if (next == null) {
          throw new NoSuchElementException();
        }
        int[] r = next;
        next = advance();
        return r;
      }
    };
  }
}
