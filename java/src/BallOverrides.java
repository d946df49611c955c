import tlc2.overrides.ITLCOverrides;

public class BallOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { Ball.class }; }
}
