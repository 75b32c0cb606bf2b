package blreal;

import tlc2.overrides.ITLCOverrides;

public class Overrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { RealOps.class }; }
}
