SPECIFICATION Spec
CONSTANTS NoSession = "" NoId = ""
 Keys = {"a", "b"}
 Clients = {c1, c2}
 Sessions = {"s1", "s2", "s3"}
 MaxTime = 3
 TTLs = {1, 2}
INVARIANTS MutualExclusion OneBeliever Retained Bounded
PROPERTIES OwnerOnly Fresh
CHECK_DEADLOCK FALSE
