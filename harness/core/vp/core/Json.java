package vp.core;

import java.util.Collection;
import java.util.Map;

/** Just enough JSON. */
public final class Json {

  private Json() {
  }

  public static String write(Object o) {
    StringBuilder b = new StringBuilder();
    w(b, o);
    return b.toString();
  }

  private static void w(StringBuilder b, Object o) {
    if (o == null || o instanceof Boolean || o instanceof Number) {
      b.append(o);
    } else if (o instanceof Map) {
      b.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        if (!first) {
          b.append(", ");
        }
        first = false;
        w(b, String.valueOf(e.getKey()));
        b.append(": ");
        w(b, e.getValue());
      }
      b.append('}');
    } else if (o instanceof Collection) {
      b.append('[');
      boolean first = true;
      for (Object x : (Collection<?>) o) {
        if (!first) {
          b.append(", ");
        }
        first = false;
        w(b, x);
      }
      b.append(']');
    } else {
      b.append('"');
      String s = o.toString();
      for (int i = 0; i < s.length(); i++) {
        char c = s.charAt(i);
        if (c == '"' || c == '\\') {
          b.append('\\').append(c);
        } else if (c < 0x20 || c > 0x7e) {
          b.append(String.format("\\u%04x", (int) c));
        } else {
          b.append(c);
        }
      }
      b.append('"');
    }
  }
}
