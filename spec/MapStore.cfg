SPECIFICATION Spec
CONSTANTS
  Keys = {"k0", "k1", "k2"}
  Vals = {"v1", "v2", "nf"}
VIEW View
INVARIANTS TypeOK ShowsLastEffective
PROPERTIES KeysIndependent UpstreamKeepsValues ReportsEveryValueChange ChangedOnlyDownstream
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
