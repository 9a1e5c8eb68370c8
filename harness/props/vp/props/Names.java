package vp.props;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import vp.core.Src;

/** Generates names. */
final class Names {

  static final String UNINIT = "_UNINITIALISED_";
  static final String END = "_END_";
  static final String NOOP = "_NOOP_";
  static final String IMM = "_immediate_";
  static final Set<String> RESERVED = Set.of(UNINIT, END, NOOP);

  private static final String[] ODD = {"", " ", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "_end_",
      "_END", "END_", "__END__", "_END_ ", "_NOOP", "noop", "_UNINITIALISED", "UNINITIALISED", "null",
      "\u00e9tat", "e\u0301tat", "\ud83d\ude00", "\ud83d\ude01", "\ud83d", "{}", "{} {}", "%s", "%d%n",
      "a\nb", "\t", "\u0000", "a\u0000", "NamedState[A]", "NamedStateEvent[a]", "start", "stop",
      "${x}", "\\{}", "[", "_Immediate_", "STARTED", "I", "\u0130", "\u0131", "A ", "a", "a a",
      // with the hash codes of reserved names
      "^mOOP_", "^dND_", "^tNINITIALISED_", "^\u0088mmediate_"};

  private Names() {
  }

  static String odd(Src d) {
    int k = d.below(ODD.length + 3);
    if (k < ODD.length) {
      return ODD[k];
    }
    if (k == ODD.length) {
      char[] c = new char[d.range(1, 300)];
      Arrays.fill(c, 'x');
      return new String(c);
    }
    StringBuilder b = new StringBuilder();
    int n = d.range(1, 6);
    for (int i = 0; i < n; i++) {
      b.append((char) d.pick(97, 98, 65, 66, 95, 123, 125, 37, 0x20, 0x3b1, 0x4e2d, 0xdc00, 92)
          .intValue());
    }
    return b.toString();
  }

  /** a name much like s, long at times */
  static String variant(Src d, String s) {
    if (s == null) {
      return "null";
    }
    int at = s.isEmpty() ? 0 : d.below(s.length());
    switch (d.below(9)) {
      case 0:
        return s.isEmpty() ? " " : s.substring(0, at) + flip(s.charAt(at)) + s.substring(at + 1);
      case 1:
        return s + d.pick(" ", "a", "'", "0", "\u0000", "\n");
      case 2:
        return s.isEmpty() ? "a" : s.substring(0, s.length() - 1);
      case 3:
        return s.contains("Aa") ? s.replaceFirst("Aa", "BB") : s.contains("BB")
            ? s.replaceFirst("BB", "Aa") : s + "Aa";
      case 4:
        return s.isEmpty() ? "b" : s.substring(0, at) + (char) (s.charAt(at) ^ 1) + s.substring(at
            + 1);
      case 5:
        return d.pick(" ", "a", "_", "\t") + s;
      case 6:
        return s.isEmpty() ? "0" : s.substring(0, at) + s.charAt(at) + s.substring(at);
      case 7:
        return d.bool() ? s.toUpperCase(java.util.Locale.ROOT) : s.toLowerCase(
            java.util.Locale.ROOT);
      default:
        char[] pad = new char[d.pick(8, 17, 33, 65, 130, 260)];
        Arrays.fill(pad, d.pick('x', 'A', '-'));
        return d.bool() ? new String(pad) + s : s + new String(pad);
    }
  }

  private static char flip(char c) {
    return Character.isUpperCase(c) ? Character.toLowerCase(c) : Character.toUpperCase(c);
  }

  /** distinct names; state names avoid the reserved state names, event names the reserved event */
  static List<String> distinct(Src d, int n, String stem, boolean odd, boolean events) {
    List<String> l = new ArrayList<>();
    Set<String> used = new HashSet<>();
    for (int i = 0; i < n; i++) {
      String s = stem + i;
      if (odd && d.chance(1, 3)) {
        s = i > 0 && d.chance(1, 4) ? variant(d, d.pick(l)) : d.chance(1, 8) ? (events ? d.pick(END, NOOP, UNINIT) : IMM) : odd(d);
      }
      if (used.contains(s) || (events ? s.equals(IMM) : RESERVED.contains(s))) {
        s = stem + i;
      }
      while (used.contains(s)) {
        s = s + "'";
      }
      used.add(s);
      l.add(s);
    }
    return l;
  }
}
