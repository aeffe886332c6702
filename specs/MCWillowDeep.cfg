SPECIFICATION Spec
CONSTANTS MaxItems = 4 MaxLost = 1 KVs <- KV1 Caps <- CapsQuick RuleKVs <- None RuleLims = {1} Ups = {TRUE, FALSE} Ras = {0, 1} Admin = FALSE
INVARIANTS Consistent Once Gone Kept Tries Order NoOvertaking CapHolds RulesHold
PROPERTY Reasons
CHECK_DEADLOCK FALSE
