"""Which specification, driver and workload decides which property."""


def part(driver, workload, module, n, nt=None, **kw):
    return dict(driver=driver, workload=workload, module=module, n=n, nt=nt or n * 3, **kw)


def mod(name, cfg=None, **kw):
    return dict(module=name + ".tla", cfg=(cfg or name) + ".cfg", **kw)


LOCK_A = ["requests are issued in process through the service's real router and handlers; TCP is only used by the client checks",
          "time: instants are taken around each call, upper bounds carry a slack widened by the measured scheduling stall"]
LOCK_M = [mod("MCLocker"), mod("MCLocker", "MCLockerLive", tier="thorough"), mod("MCLocker", "MCLockerBig", tier="thorough")]

LIM_A = ["the locker the limiter depends on is the real one, reached over loopback TCP",
         "rules do not change while counters are added concurrently (the API promises no order between the two)"]
LIM_M = [mod("MCLimiter"), mod("MCLimiter", "MCLimiterBig", tier="thorough"), mod("LimiterImpl"),
         mod("LimiterImpl", "LimiterImplBig", tier="thorough"), mod("LimiterImpl", "LimiterImplNoLocks", tier="thorough", violates="LimitsHold")]

MAP_A = ["callbacks of the tree's operations return; while they run the driver yields or sleeps, so that other goroutines interleave"]

WIL_A = ["requests are issued in process through the service's real router and handlers",
         "the limiter is either the real one with the real locker over loopback TCP, or an in-process one that does what Limiter.tla says; errors of the limiter other than refusals are not injected",
         "what is limited and how many items a queue may hold do not change at the same instant (an acknowledgement releases both, one after the other)"]
WIL_M = [mod("MCWillow"), mod("MCWillow", "MCWillowLive", tier="thorough"), mod("MCWillow", "MCWillowBig", tier="thorough"), mod("MCWillow", "MCWillowDeep", tier="thorough")]

PROPS = {
    "L01": dict(parts=[part("locker", "mutex", "LockerTrace.tla", 420)], models=LOCK_M, assumptions=LOCK_A),
    "L02": dict(parts=[part("locker", "owner", "LockerTrace.tla", 420)], models=LOCK_M, assumptions=LOCK_A),
    "L03": dict(parts=[part("locker", "expiry", "LockerTrace.tla", 420)], models=LOCK_M, assumptions=LOCK_A),
    "L04": dict(parts=[part("locker", "progress", "LockerTrace.tla", 420)], models=LOCK_M[1:], assumptions=LOCK_A),
    "L05": dict(parts=[part("locker", "list", "LockerTrace.tla", 420)], models=LOCK_M, assumptions=LOCK_A),

    "M01": dict(parts=[part("limiter", "limits", "LimiterTrace.tla", 500)], models=LIM_M, assumptions=LIM_A),
    "M02": dict(parts=[part("limiter", "counters", "LimiterTrace.tla", 600)], models=LIM_M, assumptions=LIM_A),
    "M03": dict(parts=[part("limiter", "applies", "LimiterTrace.tla", 500)], models=LIM_M[:2], assumptions=LIM_A),
    "M04": dict(parts=[part("limiter", "store", "LimiterTrace.tla", 900)], models=LIM_M[:2], assumptions=LIM_A),

    "D01": dict(parts=[part("map", "map", "MapTrace.tla", 1000), part("map", "map", "MapTrace.tla", 800, race=True, tier="thorough")], models=[], assumptions=MAP_A),
    "D02": dict(parts=[part("map", "ranges", "MapTrace.tla", 800)], models=[], assumptions=MAP_A),
    "D03": dict(parts=[part("store", "store", "StoreTrace.tla", 1800), part("store", "store", "StoreTrace.tla", 1000, race=True, tier="thorough")], models=[], assumptions=MAP_A),
    "D04": dict(parts=[part("store", "query", "StoreTrace.tla", 1500), part("store", "query", "StoreTrace.tla", 1000, race=True, tier="thorough")], models=[], assumptions=MAP_A),
    "D05": dict(parts=[part("store", "match", "StoreTrace.tla", 1500), part("store", "match", "StoreTrace.tla", 1000, race=True, tier="thorough")], models=[], assumptions=MAP_A),
    "D06": dict(parts=[part("map", "destroy", "MapTrace.tla", 800), part("store", "destroy", "StoreTrace.tla", 1200)], models=[], assumptions=MAP_A),

    "W01": dict(parts=[part("willow", "take", "WillowTrace.tla", 300)], models=WIL_M, assumptions=WIL_A),
    "W02": dict(parts=[part("willow", "retry", "WillowTrace.tla", 260)], models=WIL_M, assumptions=WIL_A),
    "W03": dict(parts=[part("willow", "order", "WillowTrace.tla", 300)], models=WIL_M, assumptions=WIL_A),
    "W04": dict(parts=[part("willow", "replace", "WillowTrace.tla", 300)], models=WIL_M, assumptions=WIL_A),
    "W05": dict(parts=[part("willow", "expiry", "WillowTrace.tla", 240)], models=WIL_M, assumptions=WIL_A),
    "W06": dict(parts=[part("willow", "count", "WillowTrace.tla", 260)], models=WIL_M, assumptions=WIL_A),
    "W07": dict(parts=[part("willow", "limits", "WillowTrace.tla", 96)], models=WIL_M + LIM_M[:1], assumptions=WIL_A),
    "W08": dict(parts=[part("willow", "query", "WillowTrace.tla", 260)], models=WIL_M, assumptions=WIL_A),
    "W09": dict(parts=[part("willow", "life", "WillowTrace.tla", 300)], models=WIL_M, assumptions=WIL_A),
}
