PROPERTY = 'C21'
NEEDS = 'a guarded action that throws the same exception instance twice in a row'
BREAKS = 'the second exception is swallowed: the handler is not called'
EDITS = [('HandleExceptionAction.java', '    } catch (Exception e) {\n', '    } catch (Exception e) {\n      if (e == latest) {\n        return;\n      }\n      latest = e;\n'), ('HandleExceptionAction.java', '  private final StateAction<T, S> stateAction;\n', '  private final StateAction<T, S> stateAction;\n  private Exception latest;\n')]
DEMO = '''
  public static void main(String[] a) throws Exception {
    AtomicInteger n = new AtomicInteger();
    IllegalStateException x = new IllegalStateException("same");
    HandleExceptionAction<Object, Object> h = new HandleExceptionAction<>((e, m) -> {
      throw x;
    }, (e, m, t) -> n.incrementAndGet());
    for (int i = 0; i < 3; i++) {
      h.execute(new NamedStateEvent<>("e"), null);
    }
    check(n.get() == 3, "the handler was called " + n + " times for 3 exceptions");
    ok();
  }
'''
