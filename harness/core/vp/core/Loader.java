package vp.core;

import java.io.ByteArrayInputStream;
import java.io.InputStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.HashMap;
import java.util.Map;
import java.util.stream.Stream;

/** Child-first loader of the code under test and the properties, from bytes in memory. */
final class Loader extends ClassLoader {

  private final Map<String, byte[]> classes;

  Loader(Map<String, byte[]> classes, ClassLoader parent) {
    super(parent);
    this.classes = classes;
  }

  static Map<String, byte[]> read(Path dir) throws Exception {
    Map<String, byte[]> m = new HashMap<>();
    try (Stream<Path> s = Files.walk(dir)) {
      for (Path p : (Iterable<Path>) s.filter(x -> x.toString().endsWith(".class"))::iterator) {
        String n = dir.relativize(p).toString();
        m.put(n.substring(0, n.length() - 6), Files.readAllBytes(p));
      }
    }
    return m;
  }

  @Override
  protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
    synchronized (getClassLoadingLock(name)) {
      Class<?> c = findLoadedClass(name);
      if (c == null) {
        byte[] b = classes.get(name.replace('.', '/'));
        if (b != null) {
          c = defineClass(name, b, 0, b.length);
        } else {
          return super.loadClass(name, resolve);
        }
      }
      if (resolve) {
        resolveClass(c);
      }
      return c;
    }
  }

  @Override
  public InputStream getResourceAsStream(String name) {
    if (name.endsWith(".class")) {
      byte[] b = classes.get(name.substring(0, name.length() - 6));
      if (b != null) {
        return new ByteArrayInputStream(b);
      }
    }
    return super.getResourceAsStream(name);
  }
}
