PROPERTY = "C16"
NEEDS = "two states with different names whose hash codes collide"
BREAKS = "states with colliding names are equal"
EDITS = [("NamedState.java", "    return Objects.equals(name, that.name);\n", "    return Objects.hashCode(name) == Objects.hashCode(that.name);\n")]
DEMO = '''
  public static void main(String[] a) throws Exception {
    check(!new NamedState<Object, Object>("AaBB").equals(new NamedState<Object, Object>("BBAa")), "AaBB equals BBAa");
    check(new NamedState<Object, Object>("AaBB").equals(new NamedState<Object, Object>("AaBB")), "AaBB is not itself");
    ok();
  }
'''
