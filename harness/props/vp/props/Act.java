package vp.props;

/** An action appended to a state. */
final class Act {

  final int id;
  /** indexes of the events it fires while there is fuel */
  final int[] fires;

  /** how many guards are around it, all but the outermost of which rethrow; 0 none */
  int guard;
  /** what it throws inside its guards, and whether the outermost handler throws, too */
  int kind;
  boolean rethrows;
  /** throws for every so-manieth event */
  int every = 1;

  Act(int id, int... fires) {
    this.id = id;
    this.fires = fires;
  }

  boolean booms(Tok t) {
    return guard > 0 && Math.floorMod((t == null ? "" : t.id).hashCode() + id, every) == 0;
  }

  @Override
  public String toString() {
    StringBuilder b = new StringBuilder("a" + id);
    for (int f : fires) {
      b.append("!e").append(f);
    }
    if (guard > 0) {
      b.append("(guards ").append(guard).append(" kind ").append(kind).append(
          rethrows ? " rethrows" : "").append(" every ").append(every).append(')');
    }
    return b.toString();
  }
}
