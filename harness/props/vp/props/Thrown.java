package vp.props;

import java.util.concurrent.BrokenBarrierException;
import java.util.concurrent.CancellationException;
import java.util.concurrent.CompletionException;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.TimeoutException;
import java.util.function.Function;

/** What callbacks throw: exceptions first, then errors. */
final class Thrown {

  /** equal to all of its kind, without a message or a stack trace */
  static final class Odd extends RuntimeException {

    private static final long serialVersionUID = 1L;

    Odd() {
      super(null, null, false, false);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Odd;
    }

    @Override
    public int hashCode() {
      return 7;
    }
  }

  private static final java.util.List<Function<String, Throwable>> EX = java.util.List.of(
      World.Boom::new, World.Checked::new, NullPointerException::new, IllegalStateException::new,
      InterruptedException::new, IllegalArgumentException::new, UnsupportedOperationException::new,
      java.util.ConcurrentModificationException::new, ClassCastException::new,
      IndexOutOfBoundsException::new, ArithmeticException::new,
      java.util.NoSuchElementException::new, RejectedExecutionException::new,
      CancellationException::new, TimeoutException::new, java.io.IOException::new,
      s -> new java.io.UncheckedIOException(new java.io.IOException(s)),
      s -> new ExecutionException(s, new World.Boom("cause of " + s)),
      s -> new CompletionException(new World.Checked("cause of " + s)),
      s -> new java.lang.reflect.InvocationTargetException(new World.Boom("cause of " + s)),
      s -> new java.lang.reflect.UndeclaredThrowableException(new World.Checked("cause of " + s)),
      s -> new RuntimeException(new World.Err("cause of " + s)),
      s -> new java.io.IOException(s, new StackOverflowError(s)), SecurityException::new,
      NumberFormatException::new, ClassNotFoundException::new, CloneNotSupportedException::new,
      ArrayStoreException::new, NegativeArraySizeException::new, BrokenBarrierException::new,
      IllegalMonitorStateException::new, s -> new Odd(), s -> new RuntimeException(),
      s -> new Exception((String) null), s -> new java.util.EmptyStackException(),
      s -> new IllegalThreadStateException(), java.time.DateTimeException::new,
      s -> new RuntimeException(s) {
        private static final long serialVersionUID = 1L;
      }, s -> new IllegalStateException("Queue size is maxed out at 1 - dropping event"),
      s -> suppressing(new World.Boom(s), new World.Checked(s), new World.Err(s)),
      s -> suppressing(new java.io.IOException(s), new java.io.IOException(s)),
      Thrown::deep, Thrown::circle, java.util.ConcurrentModificationException::new,
      s -> new InterruptedException(null), s -> new java.nio.channels.ClosedByInterruptException());
  private static Throwable suppressing(Throwable t, Throwable... more) {
    for (Throwable x : more) {
      t.addSuppressed(x);
    }
    return t;
  }

  private static Throwable deep(String s) {
    Throwable t = new World.Boom("root of " + s);
    for (int i = 0; i < 40; i++) {
      t = new RuntimeException(s + i, t);
    }
    return t;
  }

  /** its causes go round in a circle */
  private static Throwable circle(String s) {
    Exception a = new IllegalStateException(s);
    Exception b = new IllegalArgumentException(s, a);
    a.initCause(b);
    return a;
  }

  private static final java.util.List<Function<String, Throwable>> ERR = java.util.List.of(
      World.Err::new, StackOverflowError::new, AssertionError::new, NoClassDefFoundError::new,
      s -> new ExceptionInInitializerError(new World.Boom(s)), OutOfMemoryError::new,
      s -> new Error(new World.Boom(s)), s -> new java.io.IOError(new World.Checked(s)),
      s -> new java.util.ServiceConfigurationError(s));
  /** kinds below are exceptions, from here on errors */
  static final int EXC = EX.size();
  static final int ALL = EX.size() + ERR.size();

  private Thrown() {
  }

  static Throwable make(int kind, String id) {
    return kind < EXC ? EX.get(kind).apply(id) : ERR.get(kind - EXC).apply(id);
  }
}
