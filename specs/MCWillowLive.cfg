SPECIFICATION Fair
CONSTANTS MaxItems = 3 MaxLost = 1 KVs <- KV1 Caps <- CapsQuick RuleKVs <- RKV RuleLims = {1} Ups = {TRUE, FALSE} Ras = {0, 1} Admin = FALSE
INVARIANTS Consistent Once
PROPERTY Progress
CHECK_DEADLOCK FALSE
