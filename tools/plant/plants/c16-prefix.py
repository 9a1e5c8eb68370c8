PROPERTY = 'C16'
NEEDS = 'two events of equally long names that differ only after 32 characters'
BREAKS = 'the events are equal'
EDITS = [('NamedStateEvent.java', '    return Objects.equals(name, that.name);', '    return Objects.equals(name, that.name)\n        || name != null && that.name != null && name.length() > 32 && name.length() == that.name.length()\n        && name.regionMatches(0, that.name, 0, 32);')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    for (int n = 0; n < 70; n++) {
      String p = "x".repeat(n);
      check(!new NamedStateEvent<Object>(p + "a").equals(new NamedStateEvent<Object>(p + "b")), "names that differ at " + n + " are equal");
      check(new NamedStateEvent<Object>(p + "a").equals(new NamedStateEvent<Object>(p + "a")), "equal names are not equal");
    }
    ok();
  }
'''
