SPECIFICATION Spec
CONSTANTS MaxItems = 3 MaxLost = 1 KVs <- KV2 Caps <- CapsQuick RuleKVs <- RKV RuleLims = {1} Ups = {TRUE, FALSE} Ras = {0, 1} Admin = TRUE
INVARIANTS Consistent Once Gone Kept Tries Order NoOvertaking CapHolds RulesHold
PROPERTY Reasons
CHECK_DEADLOCK FALSE
