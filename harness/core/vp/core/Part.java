package vp.core;

/** One generated check of a property. */
public final class Part {

  public interface Prop {

    void run(Ctx c) throws Throwable;
  }

  public final String name;
  public final Prop prop;
  public int quick;
  public int thorough;
  /** runs against instrumented classes */
  public boolean inst;
  /** one worker only, for parts that look at process-wide state */
  public boolean serial;
  /** at most this many workers */
  public int workers = 8;
  /** a new class loader (fresh static state of the code) for each case */
  public boolean fresh;
  /** real threads: a failure may not reproduce from its choices */
  public boolean racy;
  /** what makes a case non-trivial */
  public String rule = "";
  /** a probe of a known finding rather than a search */
  public String known;
  /** run this part only in the thorough tier */
  public boolean thoroughOnly;

  public Part(String name, int quick, int thorough, Prop prop) {
    this.name = name;
    this.quick = quick;
    this.thorough = thorough;
    this.prop = prop;
  }

  public Part inst() {
    inst = true;
    return this;
  }

  public Part serial() {
    serial = true;
    return this;
  }

  public Part workers(int w) {
    workers = w;
    return this;
  }

  public Part fresh() {
    fresh = true;
    return this;
  }

  public Part racy() {
    racy = true;
    return this;
  }

  public Part rule(String r) {
    rule = r;
    return this;
  }

  public Part known(String findingId) {
    known = findingId;
    return this;
  }
}
