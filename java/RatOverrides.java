import tlc2.overrides.ITLCOverrides;
public class RatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] {Rat.class}; }
}
