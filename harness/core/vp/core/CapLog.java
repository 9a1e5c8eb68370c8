package vp.core;

import java.net.URI;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ConcurrentHashMap;
import org.apache.logging.log4j.Level;
import org.apache.logging.log4j.Marker;
import org.apache.logging.log4j.message.Message;
import org.apache.logging.log4j.message.MessageFactory;
import org.apache.logging.log4j.spi.AbstractLogger;
import org.apache.logging.log4j.spi.ExtendedLogger;
import org.apache.logging.log4j.spi.LoggerContext;
import org.apache.logging.log4j.spi.LoggerContextFactory;

/** A log4j back end that keeps what is logged while capturing, and drops it otherwise. */
public final class CapLog implements LoggerContextFactory {

  public static final class Line {

    public final String logger;
    public final Level level;
    public final String text;
    public final Throwable thrown;

    Line(String logger, Level level, String text, Throwable thrown) {
      this.logger = logger;
      this.level = level;
      this.text = text;
      this.thrown = thrown;
    }

    @Override
    public String toString() {
      return level + " " + logger.substring(logger.lastIndexOf('.') + 1) + ": " + text
          + (thrown == null ? "" : " !" + thrown);
    }
  }

  private static volatile List<Line> sink;

  public static synchronized void start() {
    sink = new ArrayList<>();
  }

  public static synchronized List<Line> stop() {
    List<Line> l = sink == null ? List.of() : sink;
    sink = null;
    synchronized (l) {
      return new ArrayList<>(l);
    }
  }

  public static List<Line> snapshot() {
    List<Line> l = sink;
    if (l == null) {
      return List.of();
    }
    synchronized (l) {
      return new ArrayList<>(l);
    }
  }

  private static final class CapLogger extends AbstractLogger {

    private static final long serialVersionUID = 1L;

    CapLogger(String name, MessageFactory mf) {
      super(name, mf == null ? org.apache.logging.log4j.message.ParameterizedMessageFactory.INSTANCE
          : mf);
    }

    @Override
    public void logMessage(String fqcn, Level level, Marker marker, Message message, Throwable t) {
      List<Line> l = sink;
      if (l != null) {
        Throwable thr = t != null ? t : message.getThrowable();
        Line line = new Line(getName(), level, message.getFormattedMessage(), thr);
        synchronized (l) {
          l.add(line);
        }
      }
    }

    @Override
    public Level getLevel() {
      return Level.ALL;
    }

    private boolean on() {
      return sink != null;
    }

    // @formatter:off
    @Override public boolean isEnabled(Level l, Marker m, Message o, Throwable t) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, CharSequence o, Throwable t) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, Object o, Throwable t) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Throwable t) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object... p) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d, Object e) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d, Object e, Object f) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d, Object e, Object f, Object g) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d, Object e, Object f, Object g, Object h) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d, Object e, Object f, Object g, Object h, Object i) { return on(); }
    @Override public boolean isEnabled(Level l, Marker m, String o, Object a, Object b, Object c, Object d, Object e, Object f, Object g, Object h, Object i, Object j) { return on(); }
    // @formatter:on
  }

  private static final class Context implements LoggerContext {

    private final ConcurrentHashMap<String, ExtendedLogger> loggers = new ConcurrentHashMap<>();

    @Override
    public Object getExternalContext() {
      return null;
    }

    @Override
    public ExtendedLogger getLogger(String name) {
      return getLogger(name, null);
    }

    @Override
    public ExtendedLogger getLogger(String name, MessageFactory mf) {
      return loggers.computeIfAbsent(name + (mf == null ? "" : "#" + mf.getClass().getName()),
          k -> new CapLogger(name, mf));
    }

    @Override
    public boolean hasLogger(String name) {
      return loggers.containsKey(name);
    }

    @Override
    public boolean hasLogger(String name, MessageFactory mf) {
      return hasLogger(name);
    }

    @Override
    public boolean hasLogger(String name, Class<? extends MessageFactory> mf) {
      return hasLogger(name);
    }
  }

  private static final Context context = new Context();

  @Override
  public LoggerContext getContext(String fqcn, ClassLoader loader, Object externalContext,
      boolean currentContext) {
    return context;
  }

  @Override
  public LoggerContext getContext(String fqcn, ClassLoader loader, Object externalContext,
      boolean currentContext, URI configLocation, String name) {
    return context;
  }

  @Override
  public void removeContext(LoggerContext c) {
    // single context
  }
}
