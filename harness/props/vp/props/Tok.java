package vp.props;

/** The payload identifying one fire. */
class Tok {

  final String id;
  /** how many generations of events its actions may fire */
  final int fuel;
  /** the callback (counted from 0) of this event's processing that throws; -1 none */
  final int throwAt;
  final int throwKind;
  /** callbacks seen so far */
  int seen;

  Tok(String id, int fuel) {
    this(id, fuel, -1, 0);
  }

  Tok(String id, int fuel, int throwAt, int throwKind) {
    this.id = id;
    this.fuel = fuel;
    this.throwAt = throwAt;
    this.throwKind = throwKind;
  }

  @Override
  public final String toString() {
    return "#" + id;
  }

  /** a payload equal to every other of its kind */
  static final class Same extends Tok {

    Same(String id, int fuel) {
      super(id, fuel);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Same;
    }

    @Override
    public int hashCode() {
      return 1;
    }
  }

  /** a payload that may not be compared */
  static final class Touchy extends Tok {

    Touchy(String id, int fuel) {
      super(id, fuel);
    }

    @Override
    public boolean equals(Object o) {
      throw new IllegalStateException("payload compared");
    }

    @Override
    public int hashCode() {
      throw new IllegalStateException("payload hashed");
    }
  }
}
