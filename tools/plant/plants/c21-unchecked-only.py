PROPERTY = "C21"
NEEDS = "a guarded action that throws a checked exception without declaring it"
BREAKS = "the guard lets checked exceptions through"
EDITS = [("HandleExceptionAction.java", "    } catch (Exception e) {\n", "    } catch (RuntimeException e) {\n")]
DEMO = '''
  @SuppressWarnings("unchecked")
  static <X extends Throwable> void sneak(Throwable t) throws X {
    throw (X) t;
  }

  public static void main(String[] a) throws Exception {
    AtomicReference<Exception> got = new AtomicReference<>();
    java.io.IOException x = new java.io.IOException("x");
    try {
      new HandleExceptionAction<Object, Object>((e, m) -> Demo.<RuntimeException>sneak(x),
          (e, m, t) -> got.set(t)).execute(null, null);
    } catch (Exception t) {
      check(false, "threw " + t);
    }
    check(got.get() == x, "handler got " + got);
    ok();
  }
'''
