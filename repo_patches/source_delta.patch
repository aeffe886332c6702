From c3b818be849086f0afc96282580148c40e066947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 01/36] fix: report a failed lock release to the client instead
 of always answering 204

---
 internal/locker/api/v1/handlers/locker_handler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..644ed6e 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,8 +144,11 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
-	// respond and ignore the errors
+	// release was successful
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
 }
-- 
2.43.0


From f103a7dcc63bb7b48e9e221c344411cea50ba26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 02/36] fix: refuse heartbeats and releases of an unclaimed
 lock instead of blocking forever

---
 internal/locker/lock_manager/exclusive_lock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..5744ae7 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,13 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// no client currently holds the claim, so any heartbeat or release is from an old session. These need to be processed
+		// since the callers are holding the tree's locks that the waiting clients need to stop waiting for the claim
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From 9700eb107c4391ffacbbaf2ded9b40902b989de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 03/36] fix: lock queries only list held locks and report the
 time left until they expire

---
 .../locker/lock_manager/exclusive_locker.go   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..7274dd3 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -144,12 +144,18 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 	exclusiveLocker.exclusiveLocks.QueryAction(query, func(associatedKeyValues btreeassociated.AssociatedKeyValues) bool {
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
-		var expireTime time.Duration
+		sessionID := exclusiveLock.getSessionID()
+		lockTimeout := exclusiveLock.getLockTimeout()
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
-		if lastHeartbeatTime == (time.Time{}) {
+		clientsWaiting := exclusiveLock.clientsWaitingForClaim.Load()
+		if sessionID == "" || lockTimeout == 0 || lastHeartbeatTime == (time.Time{}) || clientsWaiting == 0 {
+			// the lock is currently between 2 clients or being removed, so nothing holds it
+			return true
+		}
+
+		expireTime := lockTimeout - time.Since(lastHeartbeatTime)
+		if expireTime < 0 {
 			expireTime = 0
-		} else {
-			expireTime = time.Since(lastHeartbeatTime)
 		}
 
 		locks = append(locks, &v1locker.Lock{
@@ -158,14 +164,14 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          sessionID,
 				TimeTillExipre:     expireTime,
-				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
+				LocksHeldOrWaiting: clientsWaiting,
 			},
 		})
 
-- 
2.43.0


From b111ea35076953c481b1c741043111d800b3e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/36] fix: refuse negative lock timeouts, they crash the
 locker when the lock is claimed

---
 pkg/models/api/locker/v1/lock.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..4c37fff 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -118,8 +118,8 @@ type LockProperties struct {
 
 func (lockProperties *LockProperties) Validate() *errors.ModelError {
 	if lockProperties.Timeout != nil {
-		if *lockProperties.Timeout == 0 {
-			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
+		if *lockProperties.Timeout <= 0 {
+			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration that is not greater than 0. Requires a valid time duration represented as int64 nanosecond")}
 		}
 	}
 
-- 
2.43.0


From 54974943bc06fc13ff56fd6588186b269b329c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/36] fix: refuse item timeouts that are not positive, they
 crash willow when the item is dequeued

---
 pkg/models/api/willow/v1/item.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..6bc4d96 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -139,6 +139,8 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 
 	if itemProperties.TimeoutDuration == nil {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
+	} else if *itemProperties.TimeoutDuration <= 0 {
+		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a timeout duration that is not greater than 0")}
 	}
 
 	return nil
-- 
2.43.0


From c70aecd6dc02b8c50f2fac9843ed0bdf9a173540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 06/36] fix: refuse counter increments that would go over a
 limit, not only those made at the limit

---
 internal/limiter/counters/counter_client_local.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..3c268dc 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -197,7 +197,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						continue
 					}
 
-					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit); counterErr != nil {
+					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *rule.Spec.Properties.Limit); counterErr != nil {
 						return counterErr
 					}
 				} else {
@@ -208,7 +208,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						}
 
 						// 2. check the limt
-						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit); counterErr != nil {
+						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *override.Spec.Properties.Limit); counterErr != nil {
 							return counterErr
 						}
 					}
@@ -234,7 +234,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 	return nil
 }
 
-func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64) *errors.ServerError {
+func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, increment, limit int64) *errors.ServerError {
 	_, logger := middleware.GetNamedMiddlewareLogger(ctx, "checkCounters")
 
 	// construct the query for all possible rules that need to be found
@@ -258,7 +258,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	counter := int64(0)
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
 		counter += item.Value().(Counter).Load()
-		return counter < limit // check to exit query early if this fails
+		return counter <= limit-increment // check to exit query early if this fails
 	}
 
 	if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
@@ -267,7 +267,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	}
 
 	// final check of the counters
-	if counter >= limit {
+	if counter > limit-increment {
 		logger.Info("Limit already reached")
 		return &errors.ServerError{Message: fmt.Sprintf("Limit has already been reached for rule"), StatusCode: http.StatusConflict}
 	}
-- 
2.43.0


From bac35e5e50ecc9d952bf6632101093d3c473d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 07/36] fix: typed tree lookups release their locks and respect
 both ends of the type restrictions

Find, FindLessThan(OrEqual) and FindGreaterThan(OrEqual) left the tree's lock held when
the key's type was outside of the restrictions, which blocked the next write forever.
Iterations that were stopped early unlocked the wrong children, and the upper (lower)
restriction was ignored by lookups below (above) a key.
---
 .../datastructures/btree/threadsafe_find.go   | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..8a00d78 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// nothing can match the key and we are not going to search for Any
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -168,7 +171,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can be less than the key and we are not going to search for Any
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -291,7 +297,7 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can be less than the key and we are not going to search for Any
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -415,7 +424,7 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -511,6 +520,8 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -533,8 +544,8 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the key we are searching for, or the restriction
+		if keyValue.key.LessMatchType(key) || keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
 			continue
 		}
 
@@ -615,6 +626,8 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -637,8 +650,8 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the key we are searching for, or the restriction
+		if keyValue.key.LessMatchType(key) || keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
 			continue
 		}
 
-- 
2.43.0


From 65b675c90a40c97c8c004310170ae25072c248c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 08/36] fix: a failed create callback leaves the tree as it was

The values of the leaf were shifted before the callback ran, so the greatest value was
lost when the callback decided to not create the item. An empty root that was left behind
also made the tree report that it is not empty.
---
 .../datastructures/btree/threadsafe_b_tree.go | 10 +++++++++-
 .../datastructures/btree/threadsafe_create.go | 20 +++++++++----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..0ff2b58 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,15 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	// the root is kept without any values when the callback to create the first item failed
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..51654ed 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +342,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From 97f164ad24cb5aa14d10417ac332210fcc4e183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 09/36] fix: destroying a tree no longer panics when another
 operation starts at the same time

sync.WaitGroup panics when it is reused before a previous Wait returned, which happens if
an operation comes in (and is refused) while DestroyAll returns from waiting.
---
 .../datastructures/btree/threadsafe_b_tree.go | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index 0ff2b58..cfcf4f5 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -23,8 +23,8 @@ type threadSafeBTree struct {
 	destroyingKeys     []datatypes.EncapsulatedValue
 
 	// destroying whole tree operations
-	readWriteWG *sync.WaitGroup // operations to take place before destroy
-	destroying  *atomic.Bool    // destroying the whole tree
+	readWriteWG *operationsGroup // operations to take place before destroy
+	destroying  *atomic.Bool     // destroying the whole tree
 
 	// lock for managing the root of the btree
 	lock *sync.RWMutex
@@ -53,6 +53,38 @@ type keyValue struct {
 	value any
 }
 
+// operationsGroup counts the operations that are in flight for a tree. This cannot be a sync.WaitGroup, since that
+// panics if a new operation starts (to be refused) at the same time a Wait for the previous operations returns
+type operationsGroup struct {
+	cond  *sync.Cond
+	count int
+}
+
+func newOperationsGroup() *operationsGroup {
+	return &operationsGroup{cond: sync.NewCond(new(sync.Mutex))}
+}
+
+// Add a number of operations, or remove them when they are done
+func (og *operationsGroup) Add(delta int) {
+	og.cond.L.Lock()
+	defer og.cond.L.Unlock()
+
+	og.count += delta
+	if og.count == 0 {
+		og.cond.Broadcast()
+	}
+}
+
+// Wait until there are no operations in flight
+func (og *operationsGroup) Wait() {
+	og.cond.L.Lock()
+	defer og.cond.L.Unlock()
+
+	for og.count != 0 {
+		og.cond.Wait()
+	}
+}
+
 // NewThreadSafe create a new thread safe BTree
 //
 // PARAMS:
@@ -76,7 +108,7 @@ func NewThreadSafe(nodeSize int) (*threadSafeBTree, error) {
 		destroyingKeysLock: new(sync.RWMutex),
 		destroyingKeys:     []datatypes.EncapsulatedValue{},
 
-		readWriteWG: new(sync.WaitGroup),
+		readWriteWG: newOperationsGroup(),
 		destroying:  new(atomic.Bool),
 
 		lock: new(sync.RWMutex),
-- 
2.43.0


From f9a3e818d132ec1334ebdaeb42ffb5eb32c01242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 10/36] fix: destroying an item by its id no longer deadlocks
 with the creation of another item

DestroyByAssociatedID locked the KeyValues while it held the associatedIDs, Create and Delete
lock them in the opposite order. Deleting a rule while another one was created blocked the
limiter forever.
---
 .../btree_associated/threadsafe_create.go      |  7 +++++++
 .../btree_associated/threadsafe_destroy.go     | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..652787a 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -270,7 +270,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -297,6 +299,11 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
+		// the item is already destroyed, but its key values are not cleaned up yet
+		if !found {
+			return "", ErrorTreeItemDestroying
+		}
+
 		return idSet.Values()[0], nil
 	}
 
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..e613abd 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,6 +24,9 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	// key values of the destroyed item
+	var destroyedKeyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
@@ -35,9 +38,7 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 			}
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
-
+		destroyedKeyValues = associatedKeyValues.KeyValues()
 		return true
 	}
 
@@ -51,6 +52,12 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// 2. the item was destroyed, need to remove the KeyValues that define the item. This cannot be done in the callback
+	// which has the associatedIDs locked, because Create and Delete lock the associatedIDs after the KeyValues
+	if destroyedKeyValues != nil {
+		tsat.destroyKeyValues(associatedID, destroyedKeyValues)
+	}
+
 	return nil
 }
 
@@ -99,6 +106,11 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
+			// another delete for the same KeyValues already removed the id
+			if len(idNode.ids) < keyLength {
+				return len(idNode.ids) == 0 && idNode.creating.Load() == 0
+			}
+
 			// remove the id from the id node
 			for index, value := range idNode.ids[keyLength-1] {
 				if value == idToDelete {
-- 
2.43.0


From 73271015e992fffe3c138dddf3a0629f2e2780b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 11/36] fix: a refused delete of an item that is being
 destroyed unlocks its key values

---
 internal/datastructures/btree_associated/threadsafe_delete.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..4270a71 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -111,6 +111,10 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 
 			// try and delte the ID's value from the tree
 			if err := tsat.associatedIDs.Delete(datatypes.String(idToDelete), btreeDelete); err != nil {
+				for _, idNode := range idNodes {
+					idNode.lock.Unlock()
+				}
+
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
-- 
2.43.0


From c9507155076d9b48011b3a211f43b50866ceae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 12/36] fix: deleting an item by id never deletes a newer item
 with the same key values

---
 .../datastructures/btree_associated/threadsafe_delete.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 4270a71..38e32f7 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -231,7 +231,14 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		return tsat.Delete(keyValues, func(item AssociatedKeyValues) bool {
+			// a different item with the same key values can be created after the original was found
+			if item.AssociatedID() != assocaitedID {
+				return false
+			}
+
+			return canDelete == nil || canDelete(item)
+		})
 	}
 
 	return nil
-- 
2.43.0


From 65e1e32d74614329e8efbc1799c46d1fa322b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 13/36] fix: a match continues after an item that was deleted
 in the meantime

The match stopped at the deleted item, so that the limiter did not check the rules after it.
---
 internal/datastructures/btree_associated/threadsafe_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..8f3accb 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,8 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			// an item that was deleted in the meantime is skipped
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 600a88ae91defce5e37bd486056f4e757c1ab64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 14/36] fix: a failed creation is never seen by others and
 cleans up only after itself

The id of a failed creation could be found by a concurrent create, and the cleanup by
key values could delete an item that was created in the meantime.
---
 .../btree_associated/threadsafe_create.go     | 25 ++++++++++++++-----
 .../btree_associated/threadsafe_delete.go     |  7 +++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index 652787a..9b029b1 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -54,6 +54,15 @@ func createKey(onFind btree.BTreeOnFind) func() any {
 	}
 }
 
+// removeLastID drops the ID that was added last for a number of keys. The lock must be held since the ID was added
+func (idNode *threadsafeIDNode) removeLastID(keyValuesLen int) {
+	idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+
+	for i := len(idNode.ids) - 1; i >= 0 && len(idNode.ids[i]) == 0; i-- {
+		idNode.ids = idNode.ids[:i]
+	}
+}
+
 // Create a new value in the Association Tree. This is thread safe to call with any other functions on the same object.
 //
 // NOTE: The KeyValues cannot contain the reserve key '_associated_id'
@@ -165,14 +174,15 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the new ID again and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.removeLastID(keyValuesLen)
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean up any newly created indexes
+		if err := tsat.removeEmptyKeyValues(keyValues); err != nil {
 			panic(err)
 		}
 
@@ -339,14 +349,17 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the new ID again and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.removeLastID(keyValuesLen)
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean up any newly created indexes
+		if err := tsat.removeEmptyKeyValues(keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 38e32f7..c27b94e 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -156,6 +156,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 	}
 
+	return tsat.removeEmptyKeyValues(keyValues)
+}
+
+// removeEmptyKeyValues drops the indexes of the KeyValues that are no longer used by any item
+func (tsat *threadsafeAssociatedTree) removeEmptyKeyValues(keyValues datatypes.KeyValues) error {
 	// remove the KEYs and VALUEs if there are no more saved IDs
 	deleteValue := func(_ datatypes.EncapsulatedValue, item any) bool {
 		// don't need to lock here. BTree has exclusive lock access already
@@ -180,7 +185,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 
 	// cleanup any indexes that are now empty
-	for _, key := range sortedKeys {
+	for _, key := range keyValues.SortedKeys() {
 		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(key)); err != nil {
 			return err
 		}
-- 
2.43.0


From 18511667db5d252f4224659a3504e56bbd4324f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 15/36] fix: queries with empty and/or lists or empty sub
 queries select everything instead of panicking

---
 .../btree_associated/threadsafe_query.go        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..b7a5a04 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -39,7 +39,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -85,6 +85,21 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 //	PARAMS:
 //	- query - They user provided query to parse through
 func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.AssociatedActionQuery) set.Set[string] {
+	// a query without any filters selects everything, also when it is part of another query
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		allIDs := set.New[string]()
+		onFind := func(key datatypes.EncapsulatedValue, _ any) bool {
+			allIDs.Add(key.Data.(string))
+			return true
+		}
+
+		if err := tsat.associatedIDs.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, onFind); err != nil {
+			panic(err)
+		}
+
+		return allIDs
+	}
+
 	// need to filter for key values
 	var validIDs set.Set[string]
 	validCounter := 0
-- 
2.43.0


From 448b0044558b0d7e43d6e0c13dd380faca4efb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 16/36] fix: a waiting consumer with only or-queries gets only
 the channels that match one of them

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..c0d00fa 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// without a Selection or And queries, only the Or queries select something
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From 875a10c7087437b6d99c78ccb293827ce441e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 17/36] fix: several not-equals queries select the same key
 values when waiting for or selecting by ids as they do in the store

---
 .../api/common/v1/query_associated_action/selection.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/selection.go b/pkg/models/api/common/v1/query_associated_action/selection.go
index 521a08b..3c3de40 100644
--- a/pkg/models/api/common/v1/query_associated_action/selection.go
+++ b/pkg/models/api/common/v1/query_associated_action/selection.go
@@ -94,6 +94,9 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
+	// number of NotEquals queries, and how many of those the passed in keyValues do have
+	notEquals, notEqualsFound := 0, 0
+
 	// need to validate all the keys in the query against the passed in keyValues
 	for queryKey, valueQuery := range associatedSelection.KeyValues {
 		switch valueQuery.Comparison {
@@ -112,11 +115,13 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 				return false
 			}
 		case v1.NotEquals:
+			notEquals++
+
 			if matchValue, ok := matchKeyValues[queryKey]; ok {
 				if valueQuery.TypeRestrictions.TypeWithinRange(matchValue.Type) {
 					// the exact key we don't want to find
 					if !matchValue.Less(valueQuery.Value) && !valueQuery.Value.Less(matchValue) {
-						return false
+						notEqualsFound++
 					}
 				}
 			}
@@ -245,5 +250,6 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
-	return true
+	// same as for stored items, only the keyValues that have all the values we don't want to find are rejected
+	return notEquals == 0 || notEqualsFound < notEquals
 }
-- 
2.43.0


From 6a85c1e18daa6d0aca02dfb2993a1aab353ce66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 18/36] fix: refuse match queries with negative or
 contradictory numbers of key values, they crashed the service

---
 .../api/common/v1/query_match_action/match_query.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..35507ad 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,19 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	// ensure the number of KeyValues are proper
+	if matchActionQuery.MinNumberOfPermutationKeyValues != nil && *matchActionQuery.MinNumberOfPermutationKeyValues < 0 {
+		return &errors.ModelError{Field: "MinNumberOfPermutationKeyValues", Err: fmt.Errorf("cannot be negative")}
+	}
+	if matchActionQuery.MaxNumberOfPermutationKeyValues != nil {
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < 0 {
+			return &errors.ModelError{Field: "MaxNumberOfPermutationKeyValues", Err: fmt.Errorf("cannot be negative")}
+		}
+		if matchActionQuery.MinNumberOfPermutationKeyValues != nil && *matchActionQuery.MaxNumberOfPermutationKeyValues < *matchActionQuery.MinNumberOfPermutationKeyValues {
+			return &errors.ModelError{Field: "MaxNumberOfPermutationKeyValues", Err: fmt.Errorf("is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b610092f5af14b790cdfaa375f64cf6c433814ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 19/36] fix: an item created during a query is not selected
 against its not-equals comparisons

---
 .../btree_associated/threadsafe_query.go      | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b7a5a04..fa2d03b 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -239,19 +239,8 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 				validIDs.AddBulk(allIDS)
 			}
 		case v1common.NotEquals:
-			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
-				valuesNode := item.(*threadsafeValuesNode)
-
-				_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
-				return false
-			})
-
-			if invalidAdded {
-				invalidIDs.Intersection(allIDS)
-			} else {
-				invalidAdded = true
-				invalidIDs.AddBulk(allIDS)
-			}
+			// an item that is created in the meantime must not be selected only because it was not there yet when looking
+			// for the invalid ids. So those are found last
 		case v1common.LessThan:
 			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				valuesNode := item.(*threadsafeValuesNode)
@@ -332,6 +321,29 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 		})
 	}
 
+	for _, queryKey := range associatedSelection.SortedKeys() {
+		allIDS := []string{}
+		associatedValue := associatedSelection.KeyValues[queryKey]
+
+		if associatedValue.Comparison != v1common.NotEquals {
+			continue
+		}
+
+		_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
+			valuesNode := item.(*threadsafeValuesNode)
+
+			_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
+			return false
+		})
+
+		if invalidAdded {
+			invalidIDs.Intersection(allIDS)
+		} else {
+			invalidAdded = true
+			invalidIDs.AddBulk(allIDS)
+		}
+	}
+
 	// filter the IDs to a list of what is only acceptable
 	for _, id := range invalidIDs.Values() {
 		validIDs.Remove(id)
-- 
2.43.0


From e2a740d84bdea14a25dc959da570183cca18a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 20/36] fix: the id of a one to many item is known as soon as
 the item can be found

---
 .../btree_one_to_many/one_to_many_item.go          | 13 ++++++++++++-
 .../btree_one_to_many/threadsafe_create.go         | 14 ++------------
 .../btree_one_to_many/threadsafe_delete.go         |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go        |  4 ++--
 .../btree_one_to_many/threadsafe_match.go          |  2 +-
 .../btree_one_to_many/threadsafe_query.go          |  2 +-
 6 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..ea884c3 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -27,6 +30,14 @@ type oneToManyItem struct {
 	manyKeyValues datatypes.KeyValues
 }
 
+// newOneToManyItem adds the many ID to the item saved in the tree. The ID is not known yet when the item is saved
+func newOneToManyItem(item btreeassociated.AssociatedKeyValues) OneToManyItem {
+	savedItem := *item.Value().(*oneToManyItem)
+	savedItem.manyID = item.AssociatedID()
+
+	return &savedItem
+}
+
 func (otmi *oneToManyItem) Value() any {
 	return otmi.value
 }
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..b8cc2c8 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -49,8 +49,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		threadsafeValuesNode := item.(*threadsafeValuesNode)
 
 		//create the many relationship
-		var newOneToManyItem *oneToManyItem
-		created := false
 		associatedCreate := func() any {
 			// create the original item passed in
 			item := onCreate()
@@ -58,19 +56,16 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
-			created = true
-			newOneToManyItem = &oneToManyItem{
+			return &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
 				manyKeyValues: manyKeyValues,
 			}
-
-			return newOneToManyItem
 		}
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(newOneToManyItem(item))
 		}
 
 		// create the many relationship
@@ -90,11 +85,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		default:
 			panic(err)
 		}
-
-		// record the many ID if it was newly created. This is still thread safe as it is in the BTree's create method
-		if created {
-			newOneToManyItem.manyID = createOrFindID
-		}
 	}
 
 	bTreeCreateOne := func() any {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..cf840ae 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..97fb125 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(newOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..1dd9d55 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(newOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..c1bdfb5 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(newOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From 90dae1021bf9c795345f365b9f4f7cf5eee2bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 21/36] fix: release callers blocked on a heartbeater before
 its timeout callback runs

Stop and Heartbeat blocked until onTimeout returned. Both are called with
the item's lock held, which the timeout callback needs as well.
---
 internal/heartbeater/heartbeater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..881f6bf 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,7 +75,10 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
-	defer close(h.doneChan)
+	// release any blocked calls before running a callback. Those calls can be made while holding a lock that the callback needs
+	done := new(sync.Once)
+	closeDone := func() { done.Do(func() { close(h.doneChan) }) }
+	defer closeDone()
 
 	// wait for start or stop instruction to be called
 	select {
@@ -91,6 +94,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			// in this case, the service is shutting down
+			closeDone()
 			if h.onShutdown != nil {
 				h.onShutdown()
 			}
@@ -101,6 +105,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 			return nil
 		case <-timer.C:
 			// in this case the timer has hit the timeout limit. assumed the resource has failed.
+			closeDone()
 			h.onTimeout()
 
 			return nil
-- 
2.43.0


From ad3cf0e18cec273f4bcf3c8f926929dd2d09631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 22/36] fix: an item replaced when another one fails no longer
 counts as enqueued

Dropping an updateable item on a failure kept its enqueued counter, so the
queue's MaxItems shrank for good.
---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..de7599d 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -517,6 +517,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -554,6 +558,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 			if queueItemToCheck.updateable {
 				// "update" the last item by simply dropping it
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
 			} else {
-- 
2.43.0


From 669277239b91c32a2b2626dcde06f6593e7ccf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 23/36] fix: a failed ACK of an item that is not processing is
 refused

It was answered as a success and did nothing, where a passed ACK reports
that there is no such processing item.
---
 .../brokers/queue_channels/memory/memory_queue_channel.go  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index de7599d..28b2053 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -474,12 +474,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
-	attemptedDelete := false
+	stoppedProcessing := false
 	backID := ""
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -488,6 +487,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			stoppedProcessing = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
@@ -577,7 +578,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		}
 	}
 
-	return attemptedDelete
+	return stoppedProcessing
 }
 
 // Dequeue returns a read only channel that can be cast to 'func(logger *zap.Logger) (*v1willow.DequeueQueueItem, func(), func())'
-- 
2.43.0


From 2c76e90fb3129f9e4fea1e6c4ee275840a532438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 24/36] fix: updating an enqueued item also updates its
 heartbeat timeout

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 28b2053..6494f70 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -364,6 +364,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From b084d67888032a9f72814f1e76c756b307bc8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 25/36] fix: dequeuing or failing an item is atomic with the
 deletion of its channel

An item that was dequeued, failed or timed out while its channel was being
deleted updated the limiter's counters after they were removed, or panicked
on the destroyed items and left the channel's process running forever.
---
 .../memory/memory_queue_channel.go            | 68 ++++++++++++++-----
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 6494f70..520b69a 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -57,6 +57,7 @@ type memoryQueueChannel struct {
 
 	itemsLock       *sync.RWMutex
 	itemIDsEnqueued []string
+	destroyed       bool // set once the items are force deleted
 }
 
 func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queueName string, channelKeyValues datatypes.KeyValues) *memoryQueueChannel {
@@ -115,14 +116,11 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 		close(mqc.deleteChan)
 	})
 
-	// delete the running and enqueued counters
-	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
-	}
-
-	if err := mqc.setLimterRunningValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
-	}
+	// items that are being dequeued or failed at the same time are processed before or not at all. Otherwise
+	// they could update the counters after those are removed
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
+	mqc.destroyed = true
 
 	canDelete := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
@@ -137,6 +135,15 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 	if err := mqc.items.DestroyAll(canDelete); err != nil {
 		panic(err)
 	}
+
+	// delete the running and enqueued counters
+	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
+		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+	}
+
+	if err := mqc.setLimterRunningValue(ctx); err != nil {
+		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+	}
 }
 
 // Handler for the GoAsync manager to ensure this process stops processing when the server is shutdown
@@ -475,6 +482,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
+	if mqc.destroyed {
+		return false
+	}
+
 	stoppedProcessing := false
 	backID := ""
 
@@ -600,12 +611,22 @@ func (mqc *memoryQueueChannel) Dequeue() <-chan func(ctx context.Context) (*v1wi
 func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, func(), func()) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dequeue")
 
+	// an item is either dequeued entirely before the channel is destroyed, or not at all
+	mqc.itemsLock.Lock()
+	if mqc.destroyed {
+		mqc.itemsLock.Unlock()
+
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
+	}
+
 	// 1. ensure that the item can be dequeued when running. This just forwards the key values that define the channel
 	if err := mqc.limterUpdateRunningValue(ctx, 1); err != nil {
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
 
 		// re-add to the notifier since we failed to process this item properly
 		_ = mqc.notifier.Add()
+		mqc.itemsLock.Unlock()
 
 		// resond to the queue forwarder that there is work to do checking that this limit is no longer reached
 		mqc.dequeueResponseChan <- true
@@ -613,13 +634,12 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	}
 
 	// drop the first index since we are now processing it
-	mqc.itemsLock.Lock()
 	firtItemID := mqc.itemIDsEnqueued[0]
 	mqc.itemIDsEnqueued = mqc.itemIDsEnqueued[1:]
-	mqc.itemsLock.Unlock()
 
 	// 2. successfully incremented the counters, pull an item off for the client
 	dequeueItem := &v1willow.Item{}
+	startHeartbeating := func() {}
 
 	onFind := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
@@ -657,10 +677,13 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 			mqc.deleteCallback()
 		}
 
-		if err := mqc.asyncManager.AddExecuteTask(firtItemID, queueItem.CreateHeartbeater(onShutdown, onTimeout)); err != nil {
-			// failing to add happens if shutting down the server or destroying the queue happens async. In that case
-			// we want to ensure our resources are cleaned up properly
-			queueItem.UnsetHeartbeater()
+		heartbeatProcess := queueItem.CreateHeartbeater(onShutdown, onTimeout)
+		startHeartbeating = func() {
+			if err := mqc.asyncManager.AddExecuteTask(firtItemID, heartbeatProcess); err != nil {
+				// failing to add happens if shutting down the server or destroying the queue happens async. In that case
+				// we want to ensure our resources are cleaned up properly
+				queueItem.UnsetHeartbeater()
+			}
 		}
 
 		return false
@@ -669,6 +692,9 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	if err := mqc.items.Find(datatypes.String(firtItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
 		panic(err)
 	}
+	mqc.itemsLock.Unlock()
+
+	startHeartbeating()
 
 	return dequeueItem, mqc.successfulDequeue(ctx, firtItemID), mqc.failedDequeue(ctx, firtItemID)
 }
@@ -692,7 +718,7 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 			return false
 		}
 
-		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil {
+		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil && err != btree.ErrorTreeDestroying {
 			panic(err)
 		}
 
@@ -706,14 +732,20 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
+		// the counters and items are already gone
+		if mqc.destroyed {
+			mqc.dequeueResponseChan <- false
+			return
+		}
+
 		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
 		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 			panic(err)
 		}
 
-		mqc.itemsLock.Lock()
-		defer mqc.itemsLock.Unlock()
-
 		// requeue the item
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool { // i think this should be canDestroy?
 			queueItem := treeItem.(*item)
-- 
2.43.0


From ef0f333002c193ecd6ef722cc7d2c4f8af7fa89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 26/36] fix: a timeout or waiting client does not stop the
 service when its queue is deleted

---
 .../brokers/queue_channels/queue_channels_client_local.go  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..e9b212d 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -141,7 +141,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyIDDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -241,8 +241,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// the queue is being deleted while this runs in the background, so there is nothing to dequeue
+				logger.Debug("not searching the channels as the queue is being deleted")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
-- 
2.43.0


From f406e8518acb22f0d856aeb4f61140c57e8cbb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 27/36] fix: a client waiting to dequeue no longer blocks
 creating and deleting queues

The wait held the queues' tree, so deleting the queue and creating any other
one hung until the client was canceled. Deleting a queue now unblocks its
waiting clients with an error.
---
 .../brokers/queues/queues_client_local.go     | 61 +++++++++++++++++--
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index b87556a..a087b4c 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/DanLavine/willow/internal/datastructures/btree"
 	"github.com/DanLavine/willow/internal/helpers"
@@ -33,6 +34,15 @@ type queueClientLocal struct {
 	queueChannelsClient queuechannels.QueueChannelsClient
 
 	limiterRuleID string
+
+	// contexts that are canceled when a queue is deleted, to unblock the clients waiting to dequeue an item
+	deletedLock *sync.Mutex
+	deleted     map[string]deletedContext
+}
+
+type deletedContext struct {
+	ctx    context.Context
+	cancel func()
 }
 
 func NewLocalQueueClient(queueConstructor QueueConstructor, queueChannelsClient queuechannels.QueueChannelsClient, limiterRuleID string) *queueClientLocal {
@@ -46,6 +56,8 @@ func NewLocalQueueClient(queueConstructor QueueConstructor, queueChannelsClient
 		queues:              tree,
 		queueChannelsClient: queueChannelsClient,
 		limiterRuleID:       limiterRuleID,
+		deletedLock:         new(sync.Mutex),
+		deleted:             map[string]deletedContext{},
 	}
 }
 
@@ -187,6 +199,7 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 		queue := item.(Queue)
 		if deleteQueueError = qcl.queueChannelsClient.DestroyChannelsForQueue(ctx, queueName); deleteQueueError == nil {
 			if deleteQueueError = queue.Destroy(ctx, qcl.limiterRuleID, queueName); deleteQueueError == nil {
+				qcl.unblockClients(queueName)
 				return true
 			}
 		}
@@ -253,12 +266,10 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Dequeue")
 	dequeueQueueError := errorMissingQueueName(queueName)
 
-	// nothing for the item to do. but use the bTree as a guard to ensure no delete operations are happening at the same time
-	var dequeueItem *v1willow.Item
-	var onSuccess func()
-	var onFailure func()
+	// only record when the queue is deleted. Waiting for an item here would block any other requests for the queues
+	var deletedCtx context.Context
 	onFind := func(key datatypes.EncapsulatedValue, item any) bool {
-		dequeueItem, onSuccess, onFailure, dequeueQueueError = qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
+		deletedCtx = qcl.queueDeleted(queueName)
 		return false
 	}
 
@@ -267,7 +278,45 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 		return nil, nil, nil, errors.InternalServerError
 	}
 
-	return dequeueItem, onSuccess, onFailure, dequeueQueueError
+	if deletedCtx == nil {
+		return nil, nil, nil, dequeueQueueError
+	}
+
+	// stop waiting if the queue is deleted
+	waitCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	defer context.AfterFunc(deletedCtx, cancel)()
+
+	dequeueItem, onSuccess, onFailure, err := qcl.queueChannelsClient.DequeueQueueItem(waitCtx, queueName, dequeueQuery)
+	if err != nil && deletedCtx.Err() != nil && ctx.Err() == nil {
+		return nil, nil, nil, &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' was deleted", queueName), StatusCode: http.StatusConflict}
+	}
+
+	return dequeueItem, onSuccess, onFailure, err
+}
+
+// context that is canceled once the queue is deleted. Must be called when the queue is found
+func (qcl *queueClientLocal) queueDeleted(queueName string) context.Context {
+	qcl.deletedLock.Lock()
+	defer qcl.deletedLock.Unlock()
+
+	if _, ok := qcl.deleted[queueName]; !ok {
+		ctx, cancel := context.WithCancel(context.Background())
+		qcl.deleted[queueName] = deletedContext{ctx: ctx, cancel: cancel}
+	}
+
+	return qcl.deleted[queueName].ctx
+}
+
+// unblock all the clients waiting on a queue that is deleted
+func (qcl *queueClientLocal) unblockClients(queueName string) {
+	qcl.deletedLock.Lock()
+	defer qcl.deletedLock.Unlock()
+
+	if deleted, ok := qcl.deleted[queueName]; ok {
+		deleted.cancel()
+		delete(qcl.deleted, queueName)
+	}
 }
 
 func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string, channelKeyValues datatypes.KeyValues) *errors.ServerError {
-- 
2.43.0


From 953dab71554407ffeaecebe68feaa03c647ce940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 28/36] fix: deleting a queue finds its own limiter override
 only

---
 internal/willow/brokers/queues/memory/memory_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..f3e927c 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -136,6 +136,8 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-- 
2.43.0


From d3bf73c801910e4324f34a108479501202b3d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 29/36] fix: a failed limit check is retried instead of
 stopping the service

A rule that is deleted between matching the rules and their overrides, or a
limiter that is restarted, made every willow instance over a limit panic.
---
 .../memory/memory_queue_channel.go              | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 520b69a..bd21131 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -198,17 +198,20 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 				for {
 					// find any rules we might be at the limit for
+					underLimit := true
 					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 					if err != nil {
-						panic(err)
+						// try again
+						underLimit = false
 					}
 
 					// for each rule, query the counters to know if there is an issue
-					underLimit := true
 					for _, rule := range rules {
 						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 						if err != nil {
-							panic(err)
+							// the rule could have just been deleted, so try again
+							underLimit = false
+							break
 						}
 
 						switch len(overrides) {
@@ -246,7 +249,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 							if err != nil {
-								panic(err)
+								// try again
+								underLimit = false
+								break
 							}
 
 							totalCount := int64(0)
@@ -292,7 +297,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 								if err != nil {
-									panic(err)
+									// try again
+									underLimit = false
+									break
 								}
 
 								totalCount := int64(0)
-- 
2.43.0


From a1bb988e5f4bbfc38ddc3d933182e79e101a3b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 30/36] fix: an invalid channel delete request is refused only

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From 474ba3f59f9e11a5875c62679ab2716256dc82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 31/36] fix: creating a queue without properties is refused
 instead of panicking

---
 pkg/models/api/willow/v1/queue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..9d2f7f6 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -58,9 +58,7 @@ type QueueSpec struct {
 	// DBDefinition defines how to save the item in the Database
 	DBDefinition *QueueDBDefinition `json:"DBDefinition,omitempty"`
 
-	// Properties are the configurable/updateable fields for the Rule
-	//
-	// This is an optional field as all the properties are currently optional
+	// Properties are the configurable/updateable fields for the Queue
 	Properties *QueueProperties `json:"Properties,omitempty"`
 }
 
@@ -73,7 +71,9 @@ func (queueSpec *QueueSpec) Validate() *errors.ModelError {
 		}
 	}
 
-	if queueSpec.Properties != nil {
+	if queueSpec.Properties == nil {
+		return &errors.ModelError{Field: "Properties", Err: fmt.Errorf("received a null value")}
+	} else {
 		if err := queueSpec.Properties.Validate(); err != nil {
 			return &errors.ModelError{Field: "Properties", Child: err}
 		}
-- 
2.43.0


From a639fa72c9bd8c134093d2ccf05b2f8177c4ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 32/36] fix: a queue reports the limit that is enforced when an
 update fails or races

---
 internal/willow/brokers/queues/memory/memory_queue.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index f3e927c..783a0d0 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 
 	"github.com/DanLavine/willow/internal/helpers"
@@ -24,6 +25,7 @@ type memoryQueue struct {
 	limiterClient limiterclient.LimiterClient
 
 	// queue details
+	updateLock      *sync.Mutex
 	configuredLimit *atomic.Int64
 	queueName       string
 }
@@ -56,6 +58,7 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 
 	return &memoryQueue{
 		limiterClient:   limiterClient,
+		updateLock:      new(sync.Mutex),
 		configuredLimit: limit,
 		queueName:       *queue.Spec.DBDefinition.Name,
 	}, nil
@@ -67,7 +70,10 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
+
+	// the reported limit must be the one that is enforced
+	mq.updateLock.Lock()
+	defer mq.updateLock.Unlock()
 
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
@@ -109,6 +115,7 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		logger.Error("Failed to update the Limiter override", zap.Error(err))
 		return errors.InternalServerError
 	}
+	mq.configuredLimit.Store(*updateReq.MaxItems)
 
 	return nil
 }
-- 
2.43.0


From eae1c411789d4c7439b2624cf0ab4d1288f136ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 33/36] fix: a dequeue query for IDs does not match channels
 without those IDs

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index c0d00fa..5923813 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -104,7 +104,8 @@ func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
 	if q.Selection != nil {
 		// for each item in the tag, check to see if there is a key value guard
 		// need to check the query as the source of truth...
-		matched = q.Selection.MatchKeyValues(tags)
+		// tags on their own are not any of the items selected by ID
+		matched = len(q.Selection.IDs) == 0 && q.Selection.MatchKeyValues(tags)
 	}
 
 	// for each and, need to intersect that all those values match as well
-- 
2.43.0


From 5b9c5b5172abb402239384255739f5e02ee03236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 34/36] fix: a heartbeat for an item that is being handed out
 no longer blocks the channel

---
 internal/heartbeater/heartbeater.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 881f6bf..0e6219c 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -155,6 +155,11 @@ func (h *heartbeater) Start() bool {
 //
 // Signal the heartbeter that we recieved a heartbeat and to reset the timer
 func (h *heartbeater) Heartbeat() bool {
+	// nothing receives the heartbeat before the process started, so the caller would block all that time
+	if !h.started.Load() {
+		return false
+	}
+
 	select {
 	case h.heartbeaterChan <- struct{}{}:
 		return true
-- 
2.43.0


From 2270a2253d03547e0e317284736178dfbb57b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 35/36] fix: an item acked while it is handed out again is
 counted once

---
 .../queue_channels/memory/memory_queue_channel.go    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index bd21131..890e526 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -748,11 +748,6 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			return
 		}
 
-		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
-		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-			panic(err)
-		}
-
 		// requeue the item
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool { // i think this should be canDestroy?
 			queueItem := treeItem.(*item)
@@ -763,6 +758,11 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			if queueItem.StopHeartbeater() {
 				logger.Debug("stopped the heartbeat process")
 
+				// update the running counter that we are no longer processing since we failed to dequeue to the remote client
+				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				// if the queue item is updateable, check to see if there is something else in the queeu
 				if queueItem.updateable {
 					if len(mqc.itemIDsEnqueued) >= 1 {
@@ -779,7 +779,7 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 				mqc.itemIDsEnqueued = append([]string{itemID}, mqc.itemIDsEnqueued...)
 				mqc.notifier.Add() // indicate to the notifier that there is something to process
 			} else {
-				// this should never happen!
+				// the item was acked at the same time, by somebody that processed it before a retry. So that is already recorded
 				logger.Debug("failed to stop the heartbeat process")
 			}
 
-- 
2.43.0


From ca63d0fbdb9794bf1c20fcd306bf8cf496b69212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 36/36] fix: deleting a channel that hands out an item does not
 block on the item's heartbeater

---
 .../queue_channels/memory/memory_queue_channel.go        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 890e526..923f91c 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -688,8 +688,13 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 		startHeartbeating = func() {
 			if err := mqc.asyncManager.AddExecuteTask(firtItemID, heartbeatProcess); err != nil {
 				// failing to add happens if shutting down the server or destroying the queue happens async. In that case
-				// we want to ensure our resources are cleaned up properly
-				queueItem.UnsetHeartbeater()
+				// run it already canceled, so that nothing blocks on starting or stopping the heartbeater
+				canceledCtx, cancel := context.WithCancel(context.Background())
+				cancel()
+
+				go func() {
+					_ = heartbeatProcess.Execute(canceledCtx)
+				}()
 			}
 		}
 
-- 
2.43.0

