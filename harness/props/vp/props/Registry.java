package vp.props;

import java.util.List;
import vp.core.Part;

public final class Registry {

  private Registry() {
  }

  public static List<Part> parts(String id) throws Exception {
    Class<?> k;
    try {
      k = Class.forName("vp.props." + id, true, Registry.class.getClassLoader());
    } catch (ClassNotFoundException e) {
      return List.of();
    }
    java.lang.reflect.Method m = k.getDeclaredMethod("parts");
    m.setAccessible(true);
    @SuppressWarnings("unchecked")
    List<Part> l = (List<Part>) m.invoke(null);
    return l;
  }
}
