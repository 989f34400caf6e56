From f5b27af5eba616c191560fbe9aee07dba4bdd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 01/59] fix: release the tree lock when the type restrictions
 exclude the key searched for

---
 internal/datastructures/btree/threadsafe_find.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..c4bde4e 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// the restrictions exclude the key, so there is nothing to find
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// the restrictions exclude the key's type and everything below it, so there is nothing to find
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// the restrictions exclude the key's type and everything below it, so there is nothing to find
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -511,6 +520,9 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			// the restrictions exclude the key's type and everything above it, so there is nothing to find
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -615,6 +627,9 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			// the restrictions exclude the key's type and everything above it, so there is nothing to find
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From d55adad233c958501ca83c5990732311c109fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 02/59] fix: range searches of the btree respect both ends of
 the type restrictions

---
 internal/datastructures/btree/threadsafe_find.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index c4bde4e..0536fb7 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -296,8 +296,8 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 			continue
 		}
 
-		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		// the key in the tree is greater than the type we are looking for, or allowed to find. So need to check the children
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -423,8 +423,8 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 			continue
 		}
 
-		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		// the key in the tree is greater than the type we are looking for, or allowed to find. So need to check the children
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -545,8 +545,8 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the key we are searching for, or the types we are allowed to find
+		if keyValue.key.LessMatchType(key) || keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
 			continue
 		}
 
@@ -652,8 +652,8 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the key we are searching for, or the types we are allowed to find
+		if keyValue.key.LessMatchType(key) || keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
 			continue
 		}
 
-- 
2.43.0


From d6d0048838910e0abc3e0ba20ea0adae0ae1063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 03/59] fix: a declined creation no longer shifts the keys of a
 btree leaf

---
 .../datastructures/btree/threadsafe_create.go | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..51654ed 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +342,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From e6a823f397105bb9b6e4c361f16bade9f0de533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 04/59] fix: a btree whose only creation was declined is empty

---
 internal/datastructures/btree/threadsafe_b_tree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..555979b 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,15 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	// a declined creation leaves a root without any values
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
-- 
2.43.0


From 72c0fe21a61fac46faaa14e481dcc7ea1dc260b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/59] fix: a stopped btree search releases the children it
 locked

---
 internal/datastructures/btree/threadsafe_find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 0536fb7..2ee597d 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -171,7 +171,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
-- 
2.43.0


From 82e475b894f3a06fc9315dc2875727e26dced3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 06/59] fix: btree operations starting during DestroyAll no
 longer misuse a WaitGroup

---
 .../datastructures/btree/threadsafe_b_tree.go | 44 +++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index 555979b..d618867 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -23,8 +23,8 @@ type threadSafeBTree struct {
 	destroyingKeys     []datatypes.EncapsulatedValue
 
 	// destroying whole tree operations
-	readWriteWG *sync.WaitGroup // operations to take place before destroy
-	destroying  *atomic.Bool    // destroying the whole tree
+	readWriteWG *operations  // operations to take place before destroy
+	destroying  *atomic.Bool // destroying the whole tree
 
 	// lock for managing the root of the btree
 	lock *sync.RWMutex
@@ -33,6 +33,44 @@ type threadSafeBTree struct {
 	root *threadSafeBNode
 }
 
+// operations counts the running operations of a tree. A sync.WaitGroup cannot be used for this since new
+// operations start (and are rejected) while DestroyAll is waiting
+type operations struct {
+	lock    sync.Mutex
+	idle    *sync.Cond
+	running int
+	drained uint64 // how many times all the operations were done
+}
+
+func newOperations() *operations {
+	ops := &operations{}
+	ops.idle = sync.NewCond(&ops.lock)
+
+	return ops
+}
+
+// Add operations that start, or remove those that are done
+func (ops *operations) Add(delta int) {
+	ops.lock.Lock()
+	defer ops.lock.Unlock()
+
+	ops.running += delta
+	if ops.running == 0 {
+		ops.drained++
+		ops.idle.Broadcast()
+	}
+}
+
+// Wait for all the operations that were running when called
+func (ops *operations) Wait() {
+	ops.lock.Lock()
+	defer ops.lock.Unlock()
+
+	for drained := ops.drained; ops.running != 0 && drained == ops.drained; {
+		ops.idle.Wait()
+	}
+}
+
 // threadSafeBNode is the internal node for a threadSafeBTree
 type threadSafeBNode struct {
 	lock *sync.RWMutex
@@ -76,7 +114,7 @@ func NewThreadSafe(nodeSize int) (*threadSafeBTree, error) {
 		destroyingKeysLock: new(sync.RWMutex),
 		destroyingKeys:     []datatypes.EncapsulatedValue{},
 
-		readWriteWG: new(sync.WaitGroup),
+		readWriteWG: newOperations(),
 		destroying:  new(atomic.Bool),
 
 		lock: new(sync.RWMutex),
-- 
2.43.0


From 0bccec792e90ddedf4a4a6dc30406b55b005acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 07/59] fix: a match skips entries being destroyed instead of
 ending early

---
 internal/datastructures/btree_associated/threadsafe_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..74819e9 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,8 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			// an id that is destroyed or removed at the same time is skipped
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 88fe9cff2604fa53571fc94c0ee50ba2ccf2dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 08/59] fix: queries with empty lists or empty nested queries
 select everything instead of panicking

---
 .../datastructures/btree_associated/threadsafe_query.go    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..6b7eb79 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -39,7 +39,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -85,6 +85,11 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 //	PARAMS:
 //	- query - They user provided query to parse through
 func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.AssociatedActionQuery) set.Set[string] {
+	// an empty query selects everything
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		return tsat.findIDs(&queryassociatedaction.Selection{})
+	}
+
 	// need to filter for key values
 	var validIDs set.Set[string]
 	validCounter := 0
-- 
2.43.0


From 918a634da976198112d5dd8539c660f711c04ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 09/59] fix: MatchTags of a query with only OR joins requires
 one of them to match

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..1f59746 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// a query of only OR joins selects just what those select
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From 098ad38601f2dfcc876fa4a5691d59ed56ef5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 10/59] fix: MatchKeyValues agrees with searching on several
 NotEquals comparisons

---
 .../api/common/v1/query_associated_action/selection.go    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/selection.go b/pkg/models/api/common/v1/query_associated_action/selection.go
index 521a08b..e8cd259 100644
--- a/pkg/models/api/common/v1/query_associated_action/selection.go
+++ b/pkg/models/api/common/v1/query_associated_action/selection.go
@@ -94,6 +94,9 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
+	// the same as when searching for values, a number of NotEquals comparisons only exclude the KeyValues that equal all of them
+	notEquals, excluded := 0, 0
+
 	// need to validate all the keys in the query against the passed in keyValues
 	for queryKey, valueQuery := range associatedSelection.KeyValues {
 		switch valueQuery.Comparison {
@@ -112,11 +115,12 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 				return false
 			}
 		case v1.NotEquals:
+			notEquals++
 			if matchValue, ok := matchKeyValues[queryKey]; ok {
 				if valueQuery.TypeRestrictions.TypeWithinRange(matchValue.Type) {
 					// the exact key we don't want to find
 					if !matchValue.Less(valueQuery.Value) && !valueQuery.Value.Less(matchValue) {
-						return false
+						excluded++
 					}
 				}
 			}
@@ -245,5 +249,5 @@ func (associatedSelection *Selection) MatchKeyValues(matchKeyValues datatypes.Ke
 		}
 	}
 
-	return true
+	return notEquals == 0 || excluded < notEquals
 }
-- 
2.43.0


From bafd1374e2220637873b71dfda6391f89afda8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 11/59] fix: a Delete refused because the item is being
 destroyed releases its locks

---
 internal/datastructures/btree_associated/threadsafe_delete.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..a695a75 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -114,6 +114,10 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
+					for _, idNode := range idNodes {
+						idNode.lock.Unlock()
+					}
+
 					return ErrorTreeItemDestroying
 				default:
 					panic(err)
-- 
2.43.0


From fc2fd502ab731619b2da0834b2149959b31ec145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 12/59] fix: DeleteByAssociatedID never deletes a newer item
 with the same key values

---
 .../btree_associated/threadsafe_delete.go             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index a695a75..216875e 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -231,7 +231,16 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		// the item could have been replaced by a new one with the same KeyValues since it was found
+		canDeleteID := func(item AssociatedKeyValues) bool {
+			if item.AssociatedID() != assocaitedID {
+				return false
+			}
+
+			return canDelete == nil || canDelete(item)
+		}
+
+		return tsat.Delete(keyValues, canDeleteID)
 	}
 
 	return nil
-- 
2.43.0


From 4a8908188d0d3f19824c0fbcb4f1675bc0fa6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 13/59] fix: a declined creation in the associated tree leaves
 no id without an item behind

---
 .../btree_associated/threadsafe_associated.go | 22 +++++++++++++++++++
 .../btree_associated/threadsafe_create.go     | 16 +++++++++-----
 .../btree_associated/threadsafe_delete.go     |  7 +++++-
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_associated.go b/internal/datastructures/btree_associated/threadsafe_associated.go
index 493f295..3ce07b6 100644
--- a/internal/datastructures/btree_associated/threadsafe_associated.go
+++ b/internal/datastructures/btree_associated/threadsafe_associated.go
@@ -81,3 +81,25 @@ func newIDNode() *threadsafeIDNode {
 		ids:      [][]string{},
 	}
 }
+
+// removeID drops an ID for a number of keys, if it is saved. The lock must be held by the caller
+func (idNode *threadsafeIDNode) removeID(numberOfKeys int, id string) {
+	if len(idNode.ids) >= numberOfKeys {
+		ids := idNode.ids[numberOfKeys-1]
+
+		for index, value := range ids {
+			if value == id {
+				// swap with last element
+				ids[index] = ids[len(ids)-1]
+				// pop last element
+				idNode.ids[numberOfKeys-1] = ids[:len(ids)-1]
+				break
+			}
+		}
+	}
+
+	// truncate the IDNode to free memory
+	for len(idNode.ids) > 0 && len(idNode.ids[len(idNode.ids)-1]) == 0 {
+		idNode.ids = idNode.ids[:len(idNode.ids)-1]
+	}
+}
diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..62e3640 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -165,14 +165,15 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// drop the new ID before unlocking, so no other caller can find an ID without an item
 		for _, idNode := range idNodes {
+			idNode.removeID(keyValuesLen, newID)
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean up any newly created indexes
+		if err := tsat.deleteEmptyIndexes(keyValues); err != nil {
 			panic(err)
 		}
 
@@ -332,14 +333,17 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// drop the new ID before unlocking, so no other caller can find an ID without an item
 		for _, idNode := range idNodes {
+			idNode.removeID(keyValuesLen, newID)
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean up any newly created indexes
+		if err := tsat.deleteEmptyIndexes(keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 216875e..81b0b19 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -156,6 +156,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 	}
 
+	return tsat.deleteEmptyIndexes(keyValues)
+}
+
+// deleteEmptyIndexes removes the KEYs and VALUEs that no longer have any saved IDs
+func (tsat *threadsafeAssociatedTree) deleteEmptyIndexes(keyValues datatypes.KeyValues) error {
 	// remove the KEYs and VALUEs if there are no more saved IDs
 	deleteValue := func(_ datatypes.EncapsulatedValue, item any) bool {
 		// don't need to lock here. BTree has exclusive lock access already
@@ -180,7 +185,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 
 	// cleanup any indexes that are now empty
-	for _, key := range sortedKeys {
+	for _, key := range keyValues.SortedKeys() {
 		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(key)); err != nil {
 			return err
 		}
-- 
2.43.0


From 087a1d73090fe7426569608cf769d304b82eb680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 14/59] fix: destroying an associated item no longer deadlocks
 with creations and deletions

---
 .../btree_associated/threadsafe_create.go     |  7 ++++
 .../btree_associated/threadsafe_destroy.go    | 40 ++++++-------------
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index 62e3640..a8cd80d 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -271,7 +271,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -298,6 +300,11 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
+		if !found {
+			// the value was just destroyed, but its KeyValues are still being removed
+			return "", ErrorTreeItemDestroying
+		}
+
 		return idSet.Values()[0], nil
 	}
 
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..92bae38 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,20 +24,18 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	// the KeyValues of the item, once it is destroyed
+	var destroyedKeyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
 
-		// 1. destroy the item
-		if canDelete != nil {
-			if !canDelete(associatedKeyValues) {
-				return false
-			}
+		if canDelete != nil && !canDelete(associatedKeyValues) {
+			return false
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
-
+		destroyedKeyValues = associatedKeyValues.KeyValues()
 		return true
 	}
 
@@ -51,6 +49,12 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// the item was destroyed, need to remove the KeyValues that define the item.
+	// NOTE: this cannot be done in the callback. Creating and deleting items lock the KeyValues before the associatedIDs
+	if destroyedKeyValues != nil {
+		tsat.destroyKeyValues(associatedID, destroyedKeyValues)
+	}
+
 	return nil
 }
 
@@ -99,25 +103,7 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
-			// remove the id from the id node
-			for index, value := range idNode.ids[keyLength-1] {
-				if value == idToDelete {
-					// swap with last element
-					idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
-					// pop last element
-					idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
-				}
-			}
-
-			// truncate the IDNode to free memory
-			for i := len(idNode.ids) - 1; i >= 0; i-- {
-				if len(idNode.ids[i]) == 0 {
-					idNode.ids = idNode.ids[:len(idNode.ids)-1]
-				} else {
-					// don't process anymore since we found a value
-					break
-				}
-			}
+			idNode.removeID(keyLength, idToDelete)
 
 			return len(idNode.ids) == 0 && idNode.creating.Load() == 0
 		}
-- 
2.43.0


From 9ea353032cb8d270c5ebea5e0887a30cccc1a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 15/59] fix: not equals queries never report an item created in
 the meantime that they exclude

---
 .../btree_associated/threadsafe_query.go      | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index 6b7eb79..1a56f92 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -229,19 +229,7 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 				validIDs.AddBulk(allIDS)
 			}
 		case v1common.NotEquals:
-			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
-				valuesNode := item.(*threadsafeValuesNode)
-
-				_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
-				return false
-			})
-
-			if invalidAdded {
-				invalidIDs.Intersection(allIDS)
-			} else {
-				invalidAdded = true
-				invalidIDs.AddBulk(allIDS)
-			}
+			// processed once all the valid IDs are known
 		case v1common.LessThan:
 			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				valuesNode := item.(*threadsafeValuesNode)
@@ -322,6 +310,29 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 		})
 	}
 
+	// find the invalid IDs after the valid ones. This way an item that is created in the meantime cannot be reported as valid
+	// before it is known to be invalid
+	for _, queryKey := range associatedSelection.SortedKeys() {
+		allIDS := []string{}
+		associatedValue := associatedSelection.KeyValues[queryKey]
+
+		if associatedValue.Comparison == v1common.NotEquals {
+			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
+				valuesNode := item.(*threadsafeValuesNode)
+
+				_ = valuesNode.values.Find(associatedValue.Value, associatedValue.TypeRestrictions, getAllIDs(&allIDS))
+				return false
+			})
+
+			if invalidAdded {
+				invalidIDs.Intersection(allIDS)
+			} else {
+				invalidAdded = true
+				invalidIDs.AddBulk(allIDS)
+			}
+		}
+	}
+
 	// filter the IDs to a list of what is only acceptable
 	for _, id := range invalidIDs.Values() {
 		validIDs.Remove(id)
-- 
2.43.0


From 011e1f975b12eeaefa3f21846c0f950f153811b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 16/59] fix: entries of the one to many tree always report
 their id

---
 .../btree_one_to_many/one_to_many_item.go      | 18 +++++++++++++++++-
 .../btree_one_to_many/threadsafe_create.go     | 14 ++------------
 .../btree_one_to_many/threadsafe_delete.go     |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go    |  4 ++--
 .../btree_one_to_many/threadsafe_match.go      |  2 +-
 .../btree_one_to_many/threadsafe_query.go      |  2 +-
 6 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..41e049c 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -27,6 +30,19 @@ type oneToManyItem struct {
 	manyKeyValues datatypes.KeyValues
 }
 
+// toOneToManyItem reports a saved item. The ID is assigned by the associated tree when it saves the item, so it is always
+// taken from there
+func toOneToManyItem(item btreeassociated.AssociatedKeyValues) OneToManyItem {
+	savedItem := item.Value().(*oneToManyItem)
+
+	return &oneToManyItem{
+		value:         savedItem.value,
+		oneID:         savedItem.oneID,
+		manyID:        item.AssociatedID(),
+		manyKeyValues: savedItem.manyKeyValues,
+	}
+}
+
 func (otmi *oneToManyItem) Value() any {
 	return otmi.value
 }
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..a8e2efe 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -49,8 +49,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		threadsafeValuesNode := item.(*threadsafeValuesNode)
 
 		//create the many relationship
-		var newOneToManyItem *oneToManyItem
-		created := false
 		associatedCreate := func() any {
 			// create the original item passed in
 			item := onCreate()
@@ -58,19 +56,16 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
-			created = true
-			newOneToManyItem = &oneToManyItem{
+			return &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
 				manyKeyValues: manyKeyValues,
 			}
-
-			return newOneToManyItem
 		}
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(toOneToManyItem(item))
 		}
 
 		// create the many relationship
@@ -90,11 +85,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		default:
 			panic(err)
 		}
-
-		// record the many ID if it was newly created. This is still thread safe as it is in the BTree's create method
-		if created {
-			newOneToManyItem.manyID = createOrFindID
-		}
 	}
 
 	bTreeCreateOne := func() any {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..7b01f32 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(toOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..06b4066 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(toOneToManyItem(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(toOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..2327984 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(toOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..2784a9e 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(toOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From 422d8746a1af4e717cd67a6063d8cf5caa108896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 17/59] fix: values that are not a number are rejected, they
 cannot be ordered

---
 pkg/models/datatypes/encapsulated_value.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..f0e6d75 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -3,6 +3,7 @@ package datatypes
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -220,10 +221,16 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			if kind != reflect.Float32 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float32' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(reflect.ValueOf(data).Float()) {
+				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float32' has Data that is not a number")}
+			}
 		case T_float64:
 			if kind != reflect.Float64 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float64' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(reflect.ValueOf(data).Float()) {
+				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float64' has Data that is not a number")}
+			}
 		case T_string:
 			if kind != reflect.String {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data of kind: %s", kind.String())}
@@ -358,12 +365,20 @@ func StringDecoding(dataType DataType, data any) (any, error) {
 			if err != nil {
 				return nil, err
 			}
+			if math.IsNaN(parsedValue) {
+				// NaN cannot be ordered or compared with any other value
+				return nil, fmt.Errorf("type 'float32' does not allow for '%s'", data.(string))
+			}
 			return float32(parsedValue), nil
 		case T_float64:
 			parsedValue, err := strconv.ParseFloat(data.(string), 64)
 			if err != nil {
 				return nil, err
 			}
+			if math.IsNaN(parsedValue) {
+				// NaN cannot be ordered or compared with any other value
+				return nil, fmt.Errorf("type 'float64' does not allow for '%s'", data.(string))
+			}
 			return float64(parsedValue), nil
 		case T_string:
 			return data.(string), nil
-- 
2.43.0


From 82517b6653ea048292d00d06adefd7390e955d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 18/59] fix: callers are not blocked while a heartbeater runs
 its callback

---
 internal/heartbeater/heartbeater.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..a626100 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,8 +75,23 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
-	defer close(h.doneChan)
+	callback := h.process(ctx)
 
+	// release any blocked callers before running the callback. They could be holding resources that the callback needs
+	close(h.doneChan)
+
+	if callback != nil {
+		callback()
+	}
+
+	return nil
+}
+
+//	RETURNS:
+//	- func() - optional callback to run for the reason that the heartbeater stopped processing
+//
+// process heartbeats untill the heartbeater is stopped, times out or shutdown
+func (h *heartbeater) process(ctx context.Context) func() {
 	// wait for start or stop instruction to be called
 	select {
 	case <-h.start:
@@ -85,25 +100,20 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 	}
 
 	timer := time.NewTicker(h.timeout)
+	defer timer.Stop()
 	h.setLastHeartbeat()
 
 	for {
 		select {
 		case <-ctx.Done():
 			// in this case, the service is shutting down
-			if h.onShutdown != nil {
-				h.onShutdown()
-			}
-
-			return nil
+			return h.onShutdown
 		case <-h.stopChan:
 			// in this case, a stop was triggered by the caller
 			return nil
 		case <-timer.C:
 			// in this case the timer has hit the timeout limit. assumed the resource has failed.
-			h.onTimeout()
-
-			return nil
+			return h.onTimeout
 		case <-h.heartbeaterChan:
 			// in this case, the client sent a heartbeat so reset the time
 			h.setLastHeartbeat()
-- 
2.43.0


From 2fbdad12185dc6d6529fbf5ed355c332ee4ea4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 19/59] fix: releasing a lock reports when the lock or session
 is refused

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From a137e2d119c21ec8259417a1e2d9323e1689a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 20/59] fix: heartbeats and releases of a lock no client holds
 are refused at once

---
 internal/locker/lock_manager/exclusive_lock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..5e5f5c5 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,13 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// no client holds the lock, so there is no valid session for any request. These cannot wait for the next claim since
+		// the callers are holding the lock in the tree which is also needed to remove any clients that disconnect
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From 9dbf838862b930553e011f33f2724299bbcef173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 21/59] fix: lock queries report a consistent claim and the
 time left until it expires

---
 .../locker/lock_manager/exclusive_locker.go    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..ad23a8d 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -144,12 +144,18 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 	exclusiveLocker.exclusiveLocks.QueryAction(query, func(associatedKeyValues btreeassociated.AssociatedKeyValues) bool {
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
-		var expireTime time.Duration
+		// NOTE: the session is read last. If it is still set, then the values read before are those of the same claim
+		lockTimeout := exclusiveLock.getLockTimeout()
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
-		if lastHeartbeatTime == (time.Time{}) {
+		sessionID := exclusiveLock.getSessionID()
+		if lockTimeout == 0 || lastHeartbeatTime.IsZero() || sessionID == "" {
+			// the lock is currently being handed to the next client
+			return true
+		}
+
+		expireTime := lockTimeout - time.Since(lastHeartbeatTime)
+		if expireTime < 0 {
 			expireTime = 0
-		} else {
-			expireTime = time.Since(lastHeartbeatTime)
 		}
 
 		locks = append(locks, &v1locker.Lock{
@@ -158,12 +164,12 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          sessionID,
 				TimeTillExipre:     expireTime,
 				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
 			},
-- 
2.43.0


From 5120f908c7dfca0f8bb50aa1e62457f7a77398d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 22/59] fix: a lock that cannot be run because of a shutdown is
 not saved

---
 .../locker/lock_manager/exclusive_locker.go   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ad23a8d..45f87f2 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -72,17 +72,13 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 		})
 
 		// add the task to the task manager
-		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err == nil {
-			claimChannel = lock.GetClaimChannel()
-		} else {
-			// on an error, just set these to a closed channel to exit from the claim operation. The client will
-			// need to retry and the lock should not be saved
-			closedChannel := make(chan func(time.Duration) string)
-			close(closedChannel)
-
-			claimChannel = closedChannel
+		if err := exclusiveLocker.taskManager.AddExecuteTask("", lock); err != nil {
+			// on an error, the lock must not be saved since nothing is processing any requests for it. The client will
+			// need to retry
+			return nil
 		}
 
+		claimChannel = lock.GetClaimChannel()
 		return lock
 	}
 
@@ -95,6 +91,11 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 		panic(err)
 	}
 
+	if claimChannel == nil {
+		logger.Info("server is shutting down. Client will need to retry obtaining the lock")
+		return nil
+	}
+
 	select {
 	// client disconnected
 	case <-ctx.Done():
-- 
2.43.0


From ac5153bc7c154eb953b356cd50423794bbc44590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 23/59] fix: a lock's shutdown does not wait for a timeout that
 cannot proceed

---
 .../locker/lock_manager/exclusive_lock.go     | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 5e5f5c5..e941948 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -145,21 +145,8 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 				select {
 				// server shutdown
 				case <-ctx.Done():
-					select {
-					// if a timeout is processing, this should wait untill that is finished
-					case <-exclusiveLock.blockDone:
-						// wait and process the timeout
-						<-exclusiveLock.timedOut
-
-						if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
-							exclusiveLock.timedOut <- true
-							return nil
-						} else {
-							exclusiveLock.timedOut <- false
-						}
-					default:
-					}
-
+					// NOTE: a timeout that is processing is told about this through the done channel. It cannot be waited for, since
+					// it needs the tree's locks that heartbeats and releases hold until they are answered
 					return nil
 
 				// processed a client lost
@@ -373,8 +360,12 @@ func (exclusiveLock *exclusiveLock) LostClient() bool {
 //
 // TimeOut a currently held lock and allow for another client to process the request
 func (exclusiveLock *exclusiveLock) TimeOut() bool {
-	exclusiveLock.timedOut <- true
-	return <-exclusiveLock.timedOut
+	select {
+	case exclusiveLock.timedOut <- true:
+		return <-exclusiveLock.timedOut
+	case <-exclusiveLock.done:
+		return false
+	}
 }
 
 func (exclusiveLock *exclusiveLock) getLastHeartbeatTime() time.Time {
-- 
2.43.0


From d32be34c43b1d3e76eb225a9e9ca19e975528239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 24/59] fix: a lock claimed for a client that already left is
 given back

---
 internal/locker/lock_manager/exclusive_locker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index 45f87f2..03715c2 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -118,6 +118,13 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 			logger.Info("claimed the lock")
 			sessionID := processClaim(*createLockRequest.Spec.Properties.Timeout)
 
+			// the client disconnected at the same time the lock could be claimed. Nothing would use or release the lock
+			if ctx.Err() != nil {
+				logger.Info("client disconnected")
+				_ = exclusiveLocker.Release(ctx, lockID, &v1locker.LockClaim{SessionID: sessionID})
+				return nil
+			}
+
 			return &v1locker.Lock{
 				Spec: createLockRequest.Spec,
 				State: &v1locker.LockState{
-- 
2.43.0


From a6600dc32afe4b8b002c998b9ca16abc940313f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 25/59] fix: an increment of several units cannot go over a
 limit

---
 .../limiter/counters/counter_client_local.go  | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..1310d6a 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -197,7 +197,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						continue
 					}
 
-					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit); counterErr != nil {
+					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit, *counter.Spec.Properties.Counters); counterErr != nil {
 						return counterErr
 					}
 				} else {
@@ -208,7 +208,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						}
 
 						// 2. check the limt
-						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit); counterErr != nil {
+						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit, *counter.Spec.Properties.Counters); counterErr != nil {
 							return counterErr
 						}
 					}
@@ -234,7 +234,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 	return nil
 }
 
-func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64) *errors.ServerError {
+func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64, increment int64) *errors.ServerError {
 	_, logger := middleware.GetNamedMiddlewareLogger(ctx, "checkCounters")
 
 	// construct the query for all possible rules that need to be found
@@ -255,20 +255,23 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 		}
 	}
 
-	counter := int64(0)
+	// what is left of the limit once the increment is applied
+	remaining := limit - increment
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		counter += item.Value().(Counter).Load()
-		return counter < limit // check to exit query early if this fails
+		remaining -= item.Value().(Counter).Load()
+		return remaining >= 0 // check to exit query early if this fails
 	}
 
-	if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
-		logger.Error("Failed to query the current counters", zap.Error(err))
-		return errors.InternalServerError
+	if remaining >= 0 {
+		if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
+			logger.Error("Failed to query the current counters", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	// final check of the counters
-	if counter >= limit {
-		logger.Info("Limit already reached")
+	if remaining < 0 {
+		logger.Info("Limit already reached or would be exceeded")
 		return &errors.ServerError{Message: fmt.Sprintf("Limit has already been reached for rule"), StatusCode: http.StatusConflict}
 	}
 
-- 
2.43.0


From 81855c53113203e303b51c93bf0588418ffd5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 26/59] fix: an increment canceled while waiting for a lock is
 refused instead of crashing

---
 internal/limiter/counters/counter_client_local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 1310d6a..01dde01 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -159,6 +159,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					return errors.InternalServerError
 				}
 
+				// no lock and no error, the request was canceled while waiting for the lock
+				if lockerLock == nil {
+					logger.Info("canceled while obtaining a lock from the locker service", zap.Any("key values", lockKeyValues))
+					return errors.ServerShutdown
+				}
+
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
 				if err := channelOps.MergeOrToOne(lockerLock.Done()); err != nil {
-- 
2.43.0


From 6a604392ba6d322f74d7bb98c77edcc3218e01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 27/59] fix: negative lock timeouts are rejected

---
 pkg/models/api/locker/v1/lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..ef1a287 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -121,6 +121,10 @@ func (lockProperties *LockProperties) Validate() *errors.ModelError {
 		if *lockProperties.Timeout == 0 {
 			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
 		}
+
+		if *lockProperties.Timeout < 0 {
+			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a negative timeout duration. Requires a valid time duration represented as int64 nanosecond")}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 84674c2e363344729f090f001629197ee78b9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 28/59] fix: the locker client reports locks it cannot
 heartbeat and failures to save them

---
 pkg/clients/locker_client/lock.go          |  2 +-
 pkg/clients/locker_client/locker_client.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..c329153 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -87,7 +87,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
 		timeoutTicker := time.NewTicker(lock.timeout)
 
 		for {
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..35b4949 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -167,6 +167,12 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 					return nil
 				}
 
+				// without the timeout there is no way to know when to heartbeat
+				if createLockResponse.Spec.Properties == nil || createLockResponse.Spec.Properties.Timeout == nil {
+					lockErr = fmt.Errorf("received a lock without a timeout from the locker service")
+					return nil
+				}
+
 				// wrapper is needed so we ensure that the lock is removed from the tree on removal
 				lostLockWrapper := func() {
 					canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
@@ -214,7 +220,9 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 	}
 
 	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+	if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil && lockErr == nil {
+		lockErr = err
+	}
 
 	return returnLock, lockErr
 }
-- 
2.43.0


From 49ab19e858c727a96b9b2d9013be8ee3d8c88e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 29/59] fix: clients waiting for an item block no other request
 and are released when the queue is deleted

---
 .../queue_channels_client_local.go            |  11 +-
 .../brokers/queues/queues_client_local.go     | 118 ++++++++++++++++--
 2 files changed, 116 insertions(+), 13 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..640473a 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -241,8 +241,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// The queue is being destroyed, which cancels this client
+				logger.Debug("not looking for channels, the queue is being destroyed")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
@@ -259,6 +260,12 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 			// pulled something from the queue
 			repeatableReader.Stop()
 
+			if ctx.Err() != nil {
+				// the client left or the queue is being deleted, so there is nobody to process the item
+				failureCallback()
+				return nil, nil, nil, &errors.ServerError{Message: "Client closed", StatusCode: http.StatusConflict}
+			}
+
 			return dequeueItem, successCallback, failureCallback, nil
 		}
 
diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index b87556a..6911c50 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/DanLavine/willow/internal/datastructures/btree"
 	"github.com/DanLavine/willow/internal/helpers"
@@ -22,6 +23,16 @@ func errorMissingQueueName(name string) *errors.ServerError {
 	return &errors.ServerError{Message: fmt.Sprintf("failed to find queue '%s' by name", name), StatusCode: http.StatusNotFound}
 }
 
+func errorQueueDestroying(name string) *errors.ServerError {
+	return &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed", name), StatusCode: http.StatusConflict}
+}
+
+// dequeues are the clients currently waiting for an item of a queue
+type dequeues struct {
+	waiting sync.WaitGroup
+	cancels map[*context.CancelFunc]struct{}
+}
+
 type queueClientLocal struct {
 	// queue constructor for creating and managing queues
 	queueConstructor QueueConstructor
@@ -33,6 +44,10 @@ type queueClientLocal struct {
 	queueChannelsClient queuechannels.QueueChannelsClient
 
 	limiterRuleID string
+
+	// clients that are waiting for an item, by the name of the queue
+	dequeuesLock *sync.Mutex
+	dequeues     map[string]*dequeues
 }
 
 func NewLocalQueueClient(queueConstructor QueueConstructor, queueChannelsClient queuechannels.QueueChannelsClient, limiterRuleID string) *queueClientLocal {
@@ -46,6 +61,8 @@ func NewLocalQueueClient(queueConstructor QueueConstructor, queueChannelsClient
 		queues:              tree,
 		queueChannelsClient: queueChannelsClient,
 		limiterRuleID:       limiterRuleID,
+		dequeuesLock:        new(sync.Mutex),
+		dequeues:            map[string]*dequeues{},
 	}
 }
 
@@ -185,6 +202,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 	var deleteQueueError *errors.ServerError
 	destroyQueue := func(key datatypes.EncapsulatedValue, item any) bool {
 		queue := item.(Queue)
+
+		// unblock the clients waiting for an item, there won't be any
+		qcl.cancelDequeues(queueName)
+
 		if deleteQueueError = qcl.queueChannelsClient.DestroyChannelsForQueue(ctx, queueName); deleteQueueError == nil {
 			if deleteQueueError = queue.Destroy(ctx, qcl.limiterRuleID, queueName); deleteQueueError == nil {
 				return true
@@ -242,8 +263,14 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to enqueue an item. Queue by that name is currenly destroying")
+			return errorQueueDestroying(queueName)
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return enqueueQueueError
@@ -253,23 +280,86 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Dequeue")
 	dequeueQueueError := errorMissingQueueName(queueName)
 
-	// nothing for the item to do. but use the bTree as a guard to ensure no delete operations are happening at the same time
-	var dequeueItem *v1willow.Item
-	var onSuccess func()
-	var onFailure func()
+	// the bTree guards that the queue exists and is not being deleted. But waiting for an item can take any amount of time, so
+	// that can not happen while holding on to the tree. Instead, a delete of the queue cancels everyone who is waiting
+	waitCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	var doneWaiting func()
 	onFind := func(key datatypes.EncapsulatedValue, item any) bool {
-		dequeueItem, onSuccess, onFailure, dequeueQueueError = qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
+		doneWaiting = qcl.addDequeue(queueName, &cancel)
+		dequeueQueueError = nil
 		return false
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return nil, nil, nil, errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to dequeue an item. Queue by that name is currenly destroying")
+			return nil, nil, nil, errorQueueDestroying(queueName)
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return nil, nil, nil, errors.InternalServerError
+		}
+	}
+
+	if dequeueQueueError != nil {
+		return nil, nil, nil, dequeueQueueError
+	}
+	defer doneWaiting()
+
+	dequeueItem, onSuccess, onFailure, dequeueQueueError := qcl.queueChannelsClient.DequeueQueueItem(waitCtx, queueName, dequeueQuery)
+	if dequeueQueueError != nil && waitCtx.Err() != nil && ctx.Err() == nil {
+		// the queue was deleted while waiting
+		return nil, nil, nil, errorQueueDestroying(queueName)
 	}
 
 	return dequeueItem, onSuccess, onFailure, dequeueQueueError
 }
 
+// addDequeue records a client that starts to wait. The returned function needs to be called when it stopped waiting
+func (qcl *queueClientLocal) addDequeue(queueName string, cancel *context.CancelFunc) func() {
+	qcl.dequeuesLock.Lock()
+	defer qcl.dequeuesLock.Unlock()
+
+	queueDequeues, ok := qcl.dequeues[queueName]
+	if !ok {
+		queueDequeues = &dequeues{cancels: map[*context.CancelFunc]struct{}{}}
+		qcl.dequeues[queueName] = queueDequeues
+	}
+
+	queueDequeues.waiting.Add(1)
+	queueDequeues.cancels[cancel] = struct{}{}
+
+	return func() {
+		qcl.dequeuesLock.Lock()
+		defer qcl.dequeuesLock.Unlock()
+
+		queueDequeues.waiting.Done()
+		delete(queueDequeues.cancels, cancel)
+
+		if len(queueDequeues.cancels) == 0 && qcl.dequeues[queueName] == queueDequeues {
+			delete(qcl.dequeues, queueName)
+		}
+	}
+}
+
+// cancelDequeues stops all the clients waiting for an item of the queue. No new clients can be added while this is called
+func (qcl *queueClientLocal) cancelDequeues(queueName string) {
+	qcl.dequeuesLock.Lock()
+	queueDequeues, ok := qcl.dequeues[queueName]
+	if ok {
+		for cancel := range queueDequeues.cancels {
+			(*cancel)()
+		}
+	}
+	qcl.dequeuesLock.Unlock()
+
+	if ok {
+		queueDequeues.waiting.Wait()
+	}
+}
+
 func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string, channelKeyValues datatypes.KeyValues) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "DeleteChannel")
 	deleteChannelsError := errorMissingQueueName(queueName)
@@ -280,8 +370,14 @@ func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to delete the channel. Queue by that name is currenly destroying")
+			return errorQueueDestroying(queueName)
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return deleteChannelsError
-- 
2.43.0


From 60bfbbf90ce8fa21b11b51b9ee84a1663e619d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 30/59] fix: deleting a channel and processing its items no
 longer interfere with each other

---
 .../memory/memory_queue_channel.go            | 144 ++++++++++++------
 .../memory/memory_queue_channel_item.go       |   8 +
 2 files changed, 104 insertions(+), 48 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..a2b432c 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -7,7 +7,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/DanLavine/goasync"
 	"github.com/DanLavine/gonotify"
 	"github.com/DanLavine/willow/internal/datastructures/btree"
 	"github.com/DanLavine/willow/internal/helpers"
@@ -27,8 +26,9 @@ import (
 )
 
 type memoryQueueChannel struct {
-	// heartbeat manager to run the tasks async
-	asyncManager goasync.AsyncTaskManager
+	// heartbeat processes of the items that are dequeued
+	heartbeatCtx context.Context
+	heartbeats   *sync.WaitGroup
 
 	// callback to delete this channel from the channel client's perspective
 	deleteChan     chan struct{}
@@ -55,8 +55,10 @@ type memoryQueueChannel struct {
 	idGenerator idgenerator.UniqueIDs
 	items       btree.BTree
 
+	// itemsLock guards the items, their order and the counters that are saved for them
 	itemsLock       *sync.RWMutex
 	itemIDsEnqueued []string
+	destroyed       bool
 }
 
 func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queueName string, channelKeyValues datatypes.KeyValues) *memoryQueueChannel {
@@ -70,7 +72,7 @@ func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queue
 	}
 
 	return &memoryQueueChannel{
-		asyncManager: goasync.NewTaskManager(goasync.RelaxedConfig()),
+		heartbeats: new(sync.WaitGroup),
 
 		deleteChan:     make(chan struct{}),
 		deleteOnce:     new(sync.Once),
@@ -115,14 +117,12 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 		close(mqc.deleteChan)
 	})
 
-	// delete the running and enqueued counters
-	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
-	}
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
 
-	if err := mqc.setLimterRunningValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
-	}
+	// any item that is being processed can no longer change the counters
+	mqc.destroyed = true
+	mqc.itemIDsEnqueued = nil
 
 	canDelete := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
@@ -137,19 +137,23 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 	if err := mqc.items.DestroyAll(canDelete); err != nil {
 		panic(err)
 	}
+
+	// delete the running and enqueued counters
+	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
+		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+	}
+
+	if err := mqc.setLimterRunningValue(ctx); err != nil {
+		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+	}
 }
 
 // Handler for the GoAsync manager to ensure this process stops processing when the server is shutdown
 func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
-	// run our own async manager for the heartbeats
-	asyncCtx, cancel := context.WithCancel(ctx)
+	// run all the heartbeats until this channel stops
+	heartbeatCtx, cancel := context.WithCancel(ctx)
 	defer cancel()
-
-	stoppedHeartbeating := make(chan struct{})
-	go func() {
-		defer close(stoppedHeartbeating)
-		_ = mqc.asyncManager.Run(asyncCtx)
-	}()
+	mqc.heartbeatCtx = heartbeatCtx
 
 	for {
 		select {
@@ -329,10 +333,14 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 BREAK_DEQUEUE:
 
 	close(mqc.dequeueChan)
+
+	// adding to a notifier while it stops is not safe
+	mqc.itemsLock.Lock()
 	mqc.notifier.ForceStop()
+	mqc.itemsLock.Unlock()
 
 	// wait for any heartbeat operations to finish
-	<-stoppedHeartbeating
+	mqc.heartbeats.Wait()
 
 	return nil
 }
@@ -429,6 +437,9 @@ func (mqc *memoryQueueChannel) ACK(ctx context.Context, ack *v1willow.ACK) (bool
 
 	switch ack.Passed {
 	case true:
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
 		canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
 
@@ -474,6 +485,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
+	// nothing is left to fail
+	if mqc.destroyed {
+		return false
+	}
+
 	attemptedDelete := false
 	backID := ""
 
@@ -590,6 +606,34 @@ func (mqc *memoryQueueChannel) Dequeue() <-chan func(ctx context.Context) (*v1wi
 func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, func(), func()) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dequeue")
 
+	// the counters need to be updated even if the client closes the connection
+	ctx = context.WithoutCancel(ctx)
+
+	dequeueItem, itemID, limitReached := mqc.startItem(ctx, logger)
+	if dequeueItem == nil {
+		// resond to the queue forwarder. If there is a limit then it needs to check that the limit is no longer reached
+		mqc.dequeueResponseChan <- limitReached
+		return nil, nil, nil
+	}
+
+	return dequeueItem, mqc.successfulDequeue(ctx, itemID), mqc.failedDequeue(ctx, itemID)
+}
+
+// startItem takes the first item off of the queue and sets up its heartbeat process
+//
+//	RETURNS:
+//	- *v1willow.Item - item for the client, nil if there is no item or a limit was reached
+//	- string - id of the item
+//	- bool - TRUE if a limit was reached
+func (mqc *memoryQueueChannel) startItem(ctx context.Context, logger *zap.Logger) (*v1willow.Item, string, bool) {
+	mqc.itemsLock.Lock()
+	defer mqc.itemsLock.Unlock()
+
+	// the channel was deleted just before the client received the item
+	if mqc.destroyed || len(mqc.itemIDsEnqueued) == 0 {
+		return nil, "", false
+	}
+
 	// 1. ensure that the item can be dequeued when running. This just forwards the key values that define the channel
 	if err := mqc.limterUpdateRunningValue(ctx, 1); err != nil {
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
@@ -597,22 +641,20 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 		// re-add to the notifier since we failed to process this item properly
 		_ = mqc.notifier.Add()
 
-		// resond to the queue forwarder that there is work to do checking that this limit is no longer reached
-		mqc.dequeueResponseChan <- true
-		return nil, nil, nil
+		return nil, "", true
 	}
 
 	// drop the first index since we are now processing it
-	mqc.itemsLock.Lock()
 	firtItemID := mqc.itemIDsEnqueued[0]
 	mqc.itemIDsEnqueued = mqc.itemIDsEnqueued[1:]
-	mqc.itemsLock.Unlock()
 
 	// 2. successfully incremented the counters, pull an item off for the client
-	dequeueItem := &v1willow.Item{}
+	var dequeueItem *v1willow.Item
 
 	onFind := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
+		queueItem.lock.RLock()
+		defer queueItem.lock.RUnlock()
 
 		dequeueItem = &v1willow.Item{
 			Spec: &v1willow.ItemSpec{
@@ -621,10 +663,10 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 				},
 				Properties: &v1willow.ItemProperties{
 					Data:            queueItem.data,
-					Updateable:      &queueItem.updateable,
-					RetryAttempts:   &queueItem.maxRetryAttempts,
-					RetryPosition:   &queueItem.retryPosition,
-					TimeoutDuration: &queueItem.heartbeatTimeout,
+					Updateable:      helpers.PointerOf(queueItem.updateable),
+					RetryAttempts:   helpers.PointerOf(queueItem.maxRetryAttempts),
+					RetryPosition:   helpers.PointerOf(queueItem.retryPosition),
+					TimeoutDuration: helpers.PointerOf(queueItem.heartbeatTimeout),
 				},
 			},
 			State: &v1willow.ItemState{
@@ -647,11 +689,13 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 			mqc.deleteCallback()
 		}
 
-		if err := mqc.asyncManager.AddExecuteTask(firtItemID, queueItem.CreateHeartbeater(onShutdown, onTimeout)); err != nil {
-			// failing to add happens if shutting down the server or destroying the queue happens async. In that case
-			// we want to ensure our resources are cleaned up properly
-			queueItem.UnsetHeartbeater()
-		}
+		// Execute waits for a response before it could wait for the heartbeats, so this never races with the shutdown
+		heartbeatProcess := queueItem.CreateHeartbeater(onShutdown, onTimeout)
+		mqc.heartbeats.Add(1)
+		go func() {
+			defer mqc.heartbeats.Done()
+			_ = heartbeatProcess.Execute(mqc.heartbeatCtx)
+		}()
 
 		return false
 	}
@@ -660,7 +704,7 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 		panic(err)
 	}
 
-	return dequeueItem, mqc.successfulDequeue(ctx, firtItemID), mqc.failedDequeue(ctx, firtItemID)
+	return dequeueItem, firtItemID, false
 }
 
 // callback passed to the 'dequeueChan' and called when the client successfully recieved the item
@@ -668,6 +712,12 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 	return func() {
 		_, logger := middleware.GetNamedMiddlewareLogger(ctx, "successfulDequeue")
 
+		// resond to the queue forwarder that it can start processing the next item in the queue
+		defer func() { mqc.dequeueResponseChan <- false }()
+
+		mqc.itemsLock.Lock()
+		defer mqc.itemsLock.Unlock()
+
 		// start the heartbeater process
 		onfindBTree := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
@@ -685,9 +735,6 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil {
 			panic(err)
 		}
-
-		// resond to the queue forwarder that it can start processing the next item in the queue
-		mqc.dequeueResponseChan <- false
 	}
 }
 
@@ -696,10 +743,8 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
-		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
-		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-			panic(err)
-		}
+		// resond to the queue forwarder that it can start processing the next item in the queue
+		defer func() { mqc.dequeueResponseChan <- false }()
 
 		mqc.itemsLock.Lock()
 		defer mqc.itemsLock.Unlock()
@@ -714,6 +759,11 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			if queueItem.StopHeartbeater() {
 				logger.Debug("stopped the heartbeat process")
 
+				// update the running counter that we are no longer processing since we failed to dequeue to the remote client
+				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				// if the queue item is updateable, check to see if there is something else in the queeu
 				if queueItem.updateable {
 					if len(mqc.itemIDsEnqueued) >= 1 {
@@ -730,7 +780,7 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 				mqc.itemIDsEnqueued = append([]string{itemID}, mqc.itemIDsEnqueued...)
 				mqc.notifier.Add() // indicate to the notifier that there is something to process
 			} else {
-				// this should never happen!
+				// This can happen if a call to ACK processes before the failure callback is called in the API controller
 				logger.Debug("failed to stop the heartbeat process")
 			}
 
@@ -740,9 +790,6 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 		if err := mqc.items.Delete(datatypes.String(itemID), canDelete); err != nil {
 			panic(err)
 		}
-
-		// resond to the queue forwarder that it can start processing the next item in the queue
-		mqc.dequeueResponseChan <- false
 	}
 }
 
@@ -761,7 +808,8 @@ func (mqc *memoryQueueChannel) Heartbeat(ctx context.Context, heartbeat *v1willo
 	}
 
 	if err := mqc.items.Find(datatypes.String(heartbeat.ItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Fatal("failed to lookup item to heartbeat", zap.Error(err))
+		// the item is being removed together with the channel
+		logger.Debug("failed to lookup item to heartbeat", zap.Error(err))
 	}
 
 	// at this point, if this is an error, there should be a debug log that this timed out previously
diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go
index e1c1c69..ff8bff4 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go
@@ -20,6 +20,7 @@ type item struct {
 	// heartbeater is used to setup and manage the heartbeat process
 	heartbeatLock    *sync.RWMutex
 	heartbeatProcess heartbeater.Heartbeater
+	heartbeatStarted bool
 }
 
 func newItem(data []byte, updateable bool, maxRetryAttempts uint64, retryPosition string, heartbeatTimeout time.Duration) *item {
@@ -52,6 +53,7 @@ func (item *item) CreateHeartbeater(onShutdown, onTimeout func()) heartbeater.He
 	}
 
 	item.heartbeatProcess = heartbeatProcess
+	item.heartbeatStarted = false
 	return heartbeatProcess
 }
 
@@ -68,6 +70,7 @@ func (item *item) StartHeartbeater() bool {
 	defer item.heartbeatLock.Unlock()
 
 	if item.heartbeatProcess != nil {
+		item.heartbeatStarted = true
 		return item.heartbeatProcess.Start()
 	}
 
@@ -92,6 +95,11 @@ func (item *item) Heartbeat() bool {
 	defer item.heartbeatLock.Unlock()
 
 	if item.heartbeatProcess != nil {
+		// the item is on the way to the client, so there is no timeout to extend until the process starts
+		if !item.heartbeatStarted {
+			return true
+		}
+
 		return item.heartbeatProcess.Heartbeat()
 	}
 
-- 
2.43.0


From 2c4128b5223d777879958b37c63165bc1a53d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 31/59] fix: a rejected enqueue leaves no goroutine of its
 channel behind

---
 .../memory/memory_queue_channel.go            | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index a2b432c..c8fc3c0 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -45,7 +45,8 @@ type memoryQueueChannel struct {
 	limiterClient limiterclient.LimiterClient
 
 	// notifieer is used to indicate that there is something to process
-	notifier *gonotify.Notify
+	notifier     *gonotify.Notify
+	notifierOnce *sync.Once
 
 	// channel all items will be dequeued from
 	dequeueChan         chan func(ctx context.Context) (*v1willow.Item, func(), func()) // func() (*v1willow.DequeueQueueItem, func(), func())
@@ -82,7 +83,7 @@ func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queue
 		channelKeyValues: channelKeyValues,
 
 		limiterClient:       limiterClient,
-		notifier:            gonotify.New(),
+		notifierOnce:        new(sync.Once),
 		dequeueChan:         make(chan func(ctx context.Context) (*v1willow.Item, func(), func())),
 		dequeueResponseChan: make(chan bool),
 
@@ -164,7 +165,7 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 			// delete of the channel itself because there are no more items, or the queue is being destroyed
 			cancel()
 			goto BREAK_DEQUEUE
-		case <-mqc.notifier.Ready():
+		case <-mqc.getNotifier().Ready():
 			// we received an item to enqueue, so try to send on this channel
 		}
 
@@ -336,7 +337,7 @@ BREAK_DEQUEUE:
 
 	// adding to a notifier while it stops is not safe
 	mqc.itemsLock.Lock()
-	mqc.notifier.ForceStop()
+	mqc.getNotifier().ForceStop()
 	mqc.itemsLock.Unlock()
 
 	// wait for any heartbeat operations to finish
@@ -345,6 +346,16 @@ BREAK_DEQUEUE:
 	return nil
 }
 
+// the notifier runs in the background, so it must only be created for channels that also Execute and stop it. This is not
+// the case for a new channel where the first item is rejected
+func (mqc *memoryQueueChannel) getNotifier() *gonotify.Notify {
+	mqc.notifierOnce.Do(func() {
+		mqc.notifier = gonotify.New()
+	})
+
+	return mqc.notifier
+}
+
 // Try to Enqueue an item and record on the limiter what is being saved
 func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willow.Item) *errors.ServerError {
 	ctx, _ = middleware.GetNamedMiddlewareLogger(ctx, "Enqueue")
@@ -415,7 +426,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 	mqc.itemIDsEnqueued = append(mqc.itemIDsEnqueued, newId)
 
 	// signal to the notifier that we have something to process
-	_ = mqc.notifier.Add() // in the case of an error we are shutting down so just drop it
+	_ = mqc.getNotifier().Add() // in the case of an error we are shutting down so just drop it
 
 	return nil
 }
@@ -539,7 +550,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 				// always append to the front
 				mqc.itemIDsEnqueued = append([]string{itemID}, mqc.itemIDsEnqueued...)
-				mqc.notifier.Add()
+				mqc.getNotifier().Add()
 
 				return false
 			case "back":
@@ -547,7 +558,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 					backID = mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1]
 				} else {
 					mqc.itemIDsEnqueued = append(mqc.itemIDsEnqueued, itemID)
-					mqc.notifier.Add()
+					mqc.getNotifier().Add()
 				}
 			}
 		}
@@ -575,7 +586,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			} else {
 				// "append" to the list the item that failed
 				mqc.itemIDsEnqueued = append(mqc.itemIDsEnqueued, itemID)
-				mqc.notifier.Add()
+				mqc.getNotifier().Add()
 				return false
 			}
 		}
@@ -639,7 +650,7 @@ func (mqc *memoryQueueChannel) startItem(ctx context.Context, logger *zap.Logger
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
 
 		// re-add to the notifier since we failed to process this item properly
-		_ = mqc.notifier.Add()
+		_ = mqc.getNotifier().Add()
 
 		return nil, "", true
 	}
@@ -778,7 +789,7 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 
 				// always put the item at the front of the queue to process again
 				mqc.itemIDsEnqueued = append([]string{itemID}, mqc.itemIDsEnqueued...)
-				mqc.notifier.Add() // indicate to the notifier that there is something to process
+				mqc.getNotifier().Add() // indicate to the notifier that there is something to process
 			} else {
 				// This can happen if a call to ACK processes before the failure callback is called in the API controller
 				logger.Debug("failed to stop the heartbeat process")
-- 
2.43.0


From 51c3ce878a7c48007ade32835bc3faa75cc8b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 32/59] fix: updating the last enqueued item also updates its
 timeout

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index c8fc3c0..473f7e8 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -383,6 +383,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From 034ca9e9e7828ec4d171198aba7516ae5775a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 33/59] fix: a failed ack of an item that is not processing is
 reported as not found

---
 .../brokers/queue_channels/memory/memory_queue_channel.go  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 473f7e8..1795ef1 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -502,12 +502,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		return false
 	}
 
-	attemptedDelete := false
+	failed := false
 	backID := ""
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -516,6 +515,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			failed = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
@@ -597,7 +598,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		}
 	}
 
-	return attemptedDelete
+	return failed
 }
 
 // Dequeue returns a read only channel that can be cast to 'func(logger *zap.Logger) (*v1willow.DequeueQueueItem, func(), func())'
-- 
2.43.0


From d01f048e9aa704c70317ae298b003a3ea4f90918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 34/59] fix: items dropped when an item is retried no longer
 count as enqueued

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 1795ef1..bc35685 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -546,6 +546,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -583,6 +587,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 			if queueItemToCheck.updateable {
 				// "update" the last item by simply dropping it
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
 			} else {
-- 
2.43.0


From 560018a29a282fa83cc64768d2ccf6d86a5b5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 35/59] fix: an invalid request to delete a channel is only
 answered with the error

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From 93b1505a66af54eab8703960181a104a79c7d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 36/59] fix: a channel held back by a limit counts its own
 group and survives Limiter errors

---
 .../memory/memory_queue_channel.go            | 207 ++++++++----------
 1 file changed, 91 insertions(+), 116 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index bc35685..93448d5 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -195,123 +195,11 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 				}
 
 				for {
-					// find any rules we might be at the limit for
-					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-					if err != nil {
-						panic(err)
-					}
-
-					// for each rule, query the counters to know if there is an issue
-					underLimit := true
-					for _, rule := range rules {
-						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-						if err != nil {
-							panic(err)
-						}
-
-						switch len(overrides) {
-						case 0:
-							// check the rule itsel
-
-							// somethign is at a limit of 0 so just stop processing
-							if *rule.Spec.Properties.Limit == 0 {
-								underLimit = false
-								break
-							}
-
-							// unlimited so skip this one
-							if *rule.Spec.Properties.Limit == -1 {
-								continue
-							}
-
-							// setup query for the counters based off of the Rule's key values we are looking at
-							query := &queryassociatedaction.AssociatedActionQuery{
-								Selection: &queryassociatedaction.Selection{
-									KeyValues: queryassociatedaction.SelectionKeyValues{},
-								},
-							}
-
-							for key, value := range rule.Spec.DBDefinition.GroupByKeyValues {
-								query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
-									Value:      value,
-									Comparison: v1common.Equals,
-									TypeRestrictions: v1common.TypeRestrictions{
-										MinDataType: value.Type,
-										MaxDataType: value.Type,
-									},
-								}
-							}
-
-							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
-							if err != nil {
-								panic(err)
-							}
-
-							totalCount := int64(0)
-							for _, counter := range counters {
-								totalCount += *counter.Spec.Properties.Counters
-								if totalCount >= *rule.Spec.Properties.Limit {
-									underLimit = false
-									break
-								}
-							}
-						default:
-							// check all the overrides
-
-							for _, override := range overrides {
-								// somethign is at a limit of 0 so just stop processing
-								if *override.Spec.Properties.Limit == 0 {
-									underLimit = false
-									break
-								}
-
-								// unlimited so skip this one
-								if *override.Spec.Properties.Limit == -1 {
-									continue
-								}
-
-								// setup query for the counters based off of the Rule's key values we are looking at
-								query := &queryassociatedaction.AssociatedActionQuery{
-									Selection: &queryassociatedaction.Selection{
-										KeyValues: queryassociatedaction.SelectionKeyValues{},
-									},
-								}
-
-								for key, value := range override.Spec.DBDefinition.GroupByKeyValues {
-									query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
-										Value:      value,
-										Comparison: v1common.Equals,
-										TypeRestrictions: v1common.TypeRestrictions{
-											MinDataType: value.Type,
-											MaxDataType: value.Type,
-										},
-									}
-								}
-
-								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
-								if err != nil {
-									panic(err)
-								}
-
-								totalCount := int64(0)
-								for _, counter := range counters {
-									totalCount += *counter.Spec.Properties.Counters
-									if totalCount >= *override.Spec.Properties.Limit {
-										underLimit = false
-										break
-									}
-								}
-							}
-						}
+					limitReached, err := mqc.runningLimitReached(erroredKeyValues)
 
-						// can stop processing, still over the limit
-						if !underLimit {
-							break
-						}
-					}
-
-					// if under the limit, break out of this loop and try to dequeue an item again
-					if underLimit {
+					// under the limit, break out of this loop and try to dequeue an item again. On an error, the Limiter might be
+					// temporarily unavailable so try again later
+					if err == nil && !limitReached {
 						break
 					}
 
@@ -346,6 +234,93 @@ BREAK_DEQUEUE:
 	return nil
 }
 
+//	PARAMETERS:
+//	- runningKeyValues - key values of the running counter for this channel
+//
+//	RETURNS:
+//	- bool - TRUE if any Rule or Override does not allow for another running item
+//	- error - error asking the Limiter
+//
+// runningLimitReached checks all the Rules and Overrides that limit the running items of this channel
+func (mqc *memoryQueueChannel) runningLimitReached(runningKeyValues datatypes.KeyValues) (bool, error) {
+	// find any rules we might be at the limit for
+	rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(runningKeyValues))
+	if err != nil {
+		return false, err
+	}
+
+	// for each rule, query the counters to know if there is an issue
+	for _, rule := range rules {
+		overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(runningKeyValues))
+		if err != nil {
+			return false, err
+		}
+
+		// the overrides take precedence over the rule itself
+		if len(overrides) == 0 {
+			reached, err := mqc.groupLimitReached(runningKeyValues, rule.Spec.DBDefinition.GroupByKeyValues, *rule.Spec.Properties.Limit)
+			if err != nil || reached {
+				return reached, err
+			}
+		}
+
+		for _, override := range overrides {
+			reached, err := mqc.groupLimitReached(runningKeyValues, override.Spec.DBDefinition.GroupByKeyValues, *override.Spec.Properties.Limit)
+			if err != nil || reached {
+				return reached, err
+			}
+		}
+	}
+
+	return false, nil
+}
+
+// groupLimitReached counts everything that is in the same group as the running counter of this channel
+func (mqc *memoryQueueChannel) groupLimitReached(runningKeyValues, groupByKeyValues datatypes.KeyValues, limit int64) (bool, error) {
+	switch limit {
+	case 0:
+		// somethign is at a limit of 0 so just stop processing
+		return true, nil
+	case -1:
+		// unlimited so skip this one
+		return false, nil
+	}
+
+	// setup query for the counters with our own values for the group. The group could be defined with the Any type, which counters never have
+	query := &queryassociatedaction.AssociatedActionQuery{
+		Selection: &queryassociatedaction.Selection{
+			KeyValues: queryassociatedaction.SelectionKeyValues{},
+		},
+	}
+
+	for key, value := range groupByKeyValues {
+		if runningValue, ok := runningKeyValues[key]; ok {
+			value = runningValue
+		}
+
+		query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
+			Value:      value,
+			Comparison: v1common.Equals,
+			TypeRestrictions: v1common.TypeRestrictions{
+				MinDataType: value.Type,
+				MaxDataType: value.Type,
+			},
+		}
+	}
+
+	counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
+	if err != nil {
+		return false, err
+	}
+
+	totalCount := int64(0)
+	for _, counter := range counters {
+		totalCount += *counter.Spec.Properties.Counters
+	}
+
+	return totalCount >= limit, nil
+}
+
 // the notifier runs in the background, so it must only be created for channels that also Execute and stop it. This is not
 // the case for a new channel where the first item is rejected
 func (mqc *memoryQueueChannel) getNotifier() *gonotify.Notify {
-- 
2.43.0


From 0926f7097a20b8b5d1eea4e6c4aa8774d512f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 37/59] fix: a Limiter failure while an item finishes or a
 channel is deleted does not stop willow

---
 .../memory/memory_queue_channel.go            | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 93448d5..9f36d7b 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -141,11 +141,11 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 
 	// delete the running and enqueued counters
 	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+		logger.Error("failed to remove the counters. TODO use a queue of Limiter values to retry", zap.Error(err))
 	}
 
 	if err := mqc.setLimterRunningValue(ctx); err != nil {
-		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
+		logger.Error("failed to remove the counters. TODO use a queue of Limiter values to retry", zap.Error(err))
 	}
 }
 
@@ -433,16 +433,10 @@ func (mqc *memoryQueueChannel) ACK(ctx context.Context, ack *v1willow.ACK) (bool
 			// if the queue item was stopped here, then we know there was no async timeout processed for this item
 			if queueItem.StopHeartbeater() {
 				// 2. always update counters that the item is no loger running
-				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-					// what should be the actual course of action here?
-					panic(err)
-				}
+				mqc.releaseRunning(ctx)
 
 				// 3. update counters that an enqueued item completed
-				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
-					// what should we really do here? the limiter would be out of sync in this case
-					panic(err)
-				}
+				mqc.releaseEnqueued(ctx)
 
 				logger.Debug("removed item from the channel")
 				ackErr = nil
@@ -493,10 +487,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			failed = true
 
 			// always update counters that the item is no longer running
-			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-				// what should be the actual course of action here?
-				panic(err)
-			}
+			mqc.releaseRunning(ctx)
 
 			queueItemToDelete := treeItem.(*item)
 			queueItemToDelete.lock.Lock()
@@ -507,10 +498,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			// hit the max retry attempts for the queue item, so remove the item from the queue
 			if queueItemToDelete.retryCount > queueItemToDelete.maxRetryAttempts {
 				// when removing an item. we need to delete the total number of enqueued item
-				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
-					// what should we really do here? the limiter would be out of sync in this case
-					panic(err)
-				}
+				mqc.releaseEnqueued(ctx)
 
 				return true
 			}
@@ -521,9 +509,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
-						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
-							panic(err)
-						}
+						mqc.releaseEnqueued(ctx)
 
 						return true
 					}
@@ -562,9 +548,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 			if queueItemToCheck.updateable {
 				// "update" the last item by simply dropping it
-				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
-					panic(err)
-				}
+				mqc.releaseEnqueued(ctx)
 
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
@@ -756,17 +740,13 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 				logger.Debug("stopped the heartbeat process")
 
 				// update the running counter that we are no longer processing since we failed to dequeue to the remote client
-				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-					panic(err)
-				}
+				mqc.releaseRunning(ctx)
 
 				// if the queue item is updateable, check to see if there is something else in the queeu
 				if queueItem.updateable {
 					if len(mqc.itemIDsEnqueued) >= 1 {
 						// in this case there is something else in the queue that would have updated the item. so just toss this item away
-						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
-							panic(err)
-						}
+						mqc.releaseEnqueued(ctx)
 
 						return true
 					}
@@ -812,6 +792,26 @@ func (mqc *memoryQueueChannel) Heartbeat(ctx context.Context, heartbeat *v1willo
 	return heartbeatErr
 }
 
+// releaseEnqueued removes 1 item from the enqueued counter. If the Limiter fails, the counter is out of sync but that is no reason
+// to not remove the item. TODO use a queue of Limiter values to retry
+func (mqc *memoryQueueChannel) releaseEnqueued(ctx context.Context) {
+	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "releaseEnqueued")
+
+	if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+		logger.Error("failed to decrement the enqueued counter", zap.Error(err))
+	}
+}
+
+// releaseRunning removes 1 item from the running counter. If the Limiter fails, the counter is out of sync but that is no reason
+// to not stop processing the item. TODO use a queue of Limiter values to retry
+func (mqc *memoryQueueChannel) releaseRunning(ctx context.Context) {
+	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "releaseRunning")
+
+	if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+		logger.Error("failed to decrement the running counter", zap.Error(err))
+	}
+}
+
 // limiterUpdateEnqueuedValue is used when an item is enqueued or removed from the channel. This keeps track
 // of the total 'enqueued' items for a queue and rejects when to many items are being added to the queue
 func (mqc *memoryQueueChannel) limiterUpdateEnqueuedValue(ctx context.Context, counterUpdate int64) *errors.ServerError {
-- 
2.43.0


From d0a24436d297948f88b6402c1e87ae05d92b68c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 38/59] fix: the limit of a queue is reported as saved in the
 Limiter and Limiter errors are returned

---
 .../brokers/queues/memory/memory_queue.go     | 77 +++++++++----------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..2ba3c24 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -2,6 +2,8 @@ package memory
 
 import (
 	"context"
+	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/DanLavine/willow/internal/helpers"
@@ -23,6 +25,9 @@ type memoryQueue struct {
 	// 2. update a queue limits, need to update the overrides
 	limiterClient limiterclient.LimiterClient
 
+	// updateLock guards that the configured limit is always the one saved in the limiter
+	updateLock *sync.Mutex
+
 	// queue details
 	configuredLimit *atomic.Int64
 	queueName       string
@@ -56,6 +61,7 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 
 	return &memoryQueue{
 		limiterClient:   limiterClient,
+		updateLock:      new(sync.Mutex),
 		configuredLimit: limit,
 		queueName:       *queue.Spec.DBDefinition.Name,
 	}, nil
@@ -67,42 +73,19 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
+
+	mq.updateLock.Lock()
+	defer mq.updateLock.Unlock()
 
 	// get the original override id
-	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
-		Selection: &queryassociatedaction.Selection{
-			KeyValues: queryassociatedaction.SelectionKeyValues{
-				"_willow_queue_name": queryassociatedaction.ValueQuery{
-					Value:      datatypes.String(mq.queueName),
-					Comparison: v1common.Equals,
-					TypeRestrictions: v1common.TypeRestrictions{
-						MinDataType: datatypes.T_string,
-						MaxDataType: datatypes.T_string,
-					},
-				},
-				"_willow_enqueued": queryassociatedaction.ValueQuery{
-					Value:      datatypes.String("true"),
-					Comparison: v1common.Equals,
-					TypeRestrictions: v1common.TypeRestrictions{
-						MinDataType: datatypes.T_string,
-						MaxDataType: datatypes.T_string,
-					},
-				},
-			},
-			MinNumberOfKeyValues: helpers.PointerOf(2),
-			MaxNumberOfKeyValues: helpers.PointerOf(2),
-		},
-	})
+	overrideID, err := mq.findOverrideID(ctx, limiterRuleID)
 	if err != nil {
-		panic(err)
-	}
-	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the Limiter override", zap.Error(err))
+		return errors.InternalServerError
 	}
 
 	// need to create an override for the willow Rules in the limiter
-	err = mq.limiterClient.UpdateOverride(ctx, limiterRuleID, overrides[0].State.ID, &v1.OverrideProperties{
+	err = mq.limiterClient.UpdateOverride(ctx, limiterRuleID, overrideID, &v1.OverrideProperties{
 		Limit: updateReq.MaxItems,
 	})
 	if err != nil {
@@ -110,12 +93,31 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		return errors.InternalServerError
 	}
 
+	mq.configuredLimit.Store(*updateReq.MaxItems)
 	return nil
 }
 
 func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID string) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Destroy")
 
+	overrideID, err := mq.findOverrideID(ctx, limiterRuleID)
+	if err != nil {
+		logger.Error("Failed to find the Limiter override", zap.Error(err))
+		return errors.InternalServerError
+	}
+
+	// need to delete the override for the willow Rules in the limiter
+	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, overrideID)
+	if err != nil {
+		logger.Error("Failed to delete the Limiter override", zap.Error(err))
+		return errors.InternalServerError
+	}
+
+	return nil
+}
+
+// findOverrideID looks up the override for this queue in the limiter
+func (mq *memoryQueue) findOverrideID(ctx context.Context, limiterRuleID string) (string, error) {
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
 			KeyValues: queryassociatedaction.SelectionKeyValues{
@@ -136,21 +138,16 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-		panic(err)
+		return "", err
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		return "", fmt.Errorf("expected a single override for the queue, but found %d", len(overrides))
 	}
 
-	// need to delete the override for the willow Rules in the limiter
-	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, overrides[0].State.ID)
-	if err != nil {
-		logger.Error("Failed to delete the Limiter override", zap.Error(err))
-		return errors.InternalServerError
-	}
-
-	return nil
+	return overrides[0].State.ID, nil
 }
-- 
2.43.0


From 362c6cbb9ad1b14f7ecf87e9318752c495bbbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 39/59] fix: a queue can be created or deleted again when the
 response of the Limiter was lost

---
 .../brokers/queues/memory/memory_queue.go     | 50 +++++++++++++------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 2ba3c24..d138a4e 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -39,6 +39,13 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 	limit := new(atomic.Int64)
 	limit.Store(*queue.Spec.Properties.MaxItems)
 
+	newQueue := &memoryQueue{
+		limiterClient:   limiterClient,
+		updateLock:      new(sync.Mutex),
+		configuredLimit: limit,
+		queueName:       *queue.Spec.DBDefinition.Name,
+	}
+
 	// need to create an override for the willow Rules in the limiter
 	_, err := limiterClient.CreateOverride(ctx, limiterRuleID, &v1.Override{
 		Spec: &v1.OverrideSpec{
@@ -55,16 +62,14 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 	})
 
 	if err != nil {
-		logger.Error("Failed to create a Limiter override", zap.Error(err))
-		return nil, errors.InternalServerError
+		// the override can be left over from a previous request, where the response of the limiter was lost
+		if updateErr := newQueue.Update(ctx, limiterRuleID, queue.Spec.Properties); updateErr != nil {
+			logger.Error("Failed to create a Limiter override", zap.Error(err))
+			return nil, errors.InternalServerError
+		}
 	}
 
-	return &memoryQueue{
-		limiterClient:   limiterClient,
-		updateLock:      new(sync.Mutex),
-		configuredLimit: limit,
-		queueName:       *queue.Spec.DBDefinition.Name,
-	}, nil
+	return newQueue, nil
 }
 
 func (mq *memoryQueue) ConfiguredLimit() int64 {
@@ -79,18 +84,22 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 
 	// get the original override id
 	overrideID, err := mq.findOverrideID(ctx, limiterRuleID)
-	if err != nil {
+	if err != nil || overrideID == "" {
 		logger.Error("Failed to find the Limiter override", zap.Error(err))
 		return errors.InternalServerError
 	}
 
-	// need to create an override for the willow Rules in the limiter
+	// need to update an override for the willow Rules in the limiter
 	err = mq.limiterClient.UpdateOverride(ctx, limiterRuleID, overrideID, &v1.OverrideProperties{
 		Limit: updateReq.MaxItems,
 	})
 	if err != nil {
-		logger.Error("Failed to update the Limiter override", zap.Error(err))
-		return errors.InternalServerError
+		// the update is saved if only the response of the limiter was lost
+		override, getErr := mq.limiterClient.GetOverride(ctx, limiterRuleID, overrideID)
+		if getErr != nil || *override.Spec.Properties.Limit != *updateReq.MaxItems {
+			logger.Error("Failed to update the Limiter override", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	mq.configuredLimit.Store(*updateReq.MaxItems)
@@ -106,6 +115,11 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 		return errors.InternalServerError
 	}
 
+	// the override was already deleted by a previous request, where the response of the limiter was lost
+	if overrideID == "" {
+		return nil
+	}
+
 	// need to delete the override for the willow Rules in the limiter
 	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, overrideID)
 	if err != nil {
@@ -116,7 +130,7 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 	return nil
 }
 
-// findOverrideID looks up the override for this queue in the limiter
+// findOverrideID looks up the override for this queue in the limiter. The ID is empty if there is no override
 func (mq *memoryQueue) findOverrideID(ctx context.Context, limiterRuleID string) (string, error) {
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
@@ -145,9 +159,13 @@ func (mq *memoryQueue) findOverrideID(ctx context.Context, limiterRuleID string)
 	if err != nil {
 		return "", err
 	}
-	if len(overrides) != 1 {
+
+	switch len(overrides) {
+	case 0:
+		return "", nil
+	case 1:
+		return overrides[0].State.ID, nil
+	default:
 		return "", fmt.Errorf("expected a single override for the queue, but found %d", len(overrides))
 	}
-
-	return overrides[0].State.ID, nil
 }
-- 
2.43.0


From 38a08eacdde855e12c8f50262dbd368777d6052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 40/59] fix: queues without properties or a negative limit are
 rejected

---
 pkg/models/api/willow/v1/queue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..776467c 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -59,8 +59,6 @@ type QueueSpec struct {
 	DBDefinition *QueueDBDefinition `json:"DBDefinition,omitempty"`
 
 	// Properties are the configurable/updateable fields for the Rule
-	//
-	// This is an optional field as all the properties are currently optional
 	Properties *QueueProperties `json:"Properties,omitempty"`
 }
 
@@ -73,7 +71,9 @@ func (queueSpec *QueueSpec) Validate() *errors.ModelError {
 		}
 	}
 
-	if queueSpec.Properties != nil {
+	if queueSpec.Properties == nil {
+		return &errors.ModelError{Field: "Properties", Err: fmt.Errorf("received a null value")}
+	} else {
 		if err := queueSpec.Properties.Validate(); err != nil {
 			return &errors.ModelError{Field: "Properties", Child: err}
 		}
@@ -108,6 +108,10 @@ type QueueProperties struct {
 func (queueProperties *QueueProperties) Validate() *errors.ModelError {
 	if queueProperties.MaxItems == nil {
 		return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("recevied a null value")}
+	} else {
+		if *queueProperties.MaxItems < -1 {
+			return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("requires a minimum value of '-1', but recieved '%d'", *queueProperties.MaxItems)}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 9003565b48e2fb275848e72247d7cf1288968ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 41/59] fix: items without a positive timeout are rejected

---
 pkg/models/api/willow/v1/item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..15bc4db 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -139,6 +139,10 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 
 	if itemProperties.TimeoutDuration == nil {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
+	} else {
+		if *itemProperties.TimeoutDuration <= 0 {
+			return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("must be greater than 0, but received '%s'", *itemProperties.TimeoutDuration)}
+		}
 	}
 
 	return nil
-- 
2.43.0


From dc909f5be4b3750d7c0bc3c5a4fe7e4a8a833c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 42/59] fix: items with key values reserved for the counters of
 willow are rejected

---
 pkg/models/api/willow/v1/item.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index 15bc4db..cace88d 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -93,9 +93,18 @@ func (itemDBDefinition *ItemDBDefinition) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "KeyValues", Child: err}
 	}
 
+	for _, key := range reservedItemKeys {
+		if _, ok := itemDBDefinition.KeyValues[key]; ok {
+			return &errors.ModelError{Field: "KeyValues", Err: fmt.Errorf("contains the reserved key '%s'", key)}
+		}
+	}
+
 	return nil
 }
 
+// reservedItemKeys would be mixed up with the keys Willow uses itself to count the enqueued and running items
+var reservedItemKeys = []string{"_associated_id", "_willow_queue_name", "_willow_enqueued", "_willow_running", "queue_name", "enqueued", "running"}
+
 type ItemProperties struct {
 	// Raw data that the end user clients know how to parse
 	Data []byte
-- 
2.43.0


From cd212d5f69322a8c6cb2a1a12a5b8fc107163722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 43/59] fix: a timeout while a queue is being deleted does not
 stop willow

---
 .../queue_channels/queue_channels_client_local.go      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index 640473a..252ba0c 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -95,7 +95,7 @@ func (qccl *queueChannelsClientLocal) DestroyChannelsForQueue(ctx context.Contex
 
 	if err := qccl.queueChannels.DestroyOne(queueName, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 			return &errors.ServerError{Message: "queue channels already destroying", StatusCode: http.StatusNoContent}
 		default:
@@ -119,7 +119,7 @@ func (qccl *queueChannelsClientLocal) DeleteChannel(ctx context.Context, queueNa
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel")
 			return &errors.ServerError{Message: "Already destroying the queue's channel", StatusCode: http.StatusConflict}
 		default:
@@ -141,7 +141,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -313,7 +313,7 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 
 		if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, ack.KeyValues, deleteChannel); err != nil {
 			switch err {
-			case btreeonetomany.ErrorManyIDDestroying:
+			case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 				logger.Debug("Not deleting the channel after ack as queue is being deleted")
 			default:
 				logger.Fatal("Failed to delete queue after ack", zap.Error(err))
@@ -406,7 +406,7 @@ func (qccl *queueChannelsClientLocal) Channels(ctx context.Context, queueName st
 
 	if err := qccl.queueChannels.QueryAction(queueName, query, queryChannels); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 		default:
 			logger.Fatal("Failed to query channels", zap.Error(err))
-- 
2.43.0


From be57ab24b153c0bb1bd0fd7ff136909ccba33cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 44/59] fix: willow stops when new channels are created during
 a shutdown

---
 .../queue_channels_client_local.go            | 47 +++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index 252ba0c..a74c5d2 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -152,6 +152,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queueName string, enqueueItem *v1willow.Item) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "EnqueueQueueItem")
 	var enqueueError *errors.ServerError
+	var newChannel constructor.QueueChannel
 
 	//create a new channel to enqueue items to
 	bTreeOneToManyOnCreate := func() any {
@@ -167,13 +168,7 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 			return nil
 		}
 
-		// when a new channel is created, need to add it to the async task manager. if there is an error, that means the
-		// server is shutting down so don't add it to any waiting clients.
-		if err := qccl.asyncManager.AddExecuteTask(queueName, queueChannel); err == nil {
-			// when a new channel is created, inform any clients currently waiting to process that there is something they might care about
-			qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, queueChannel.Dequeue())
-		}
-
+		newChannel = queueChannel
 		return queueChannel
 	}
 
@@ -193,9 +188,45 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		}
 	}
 
+	if newChannel != nil {
+		// when a new channel is created, need to add it to the async task manager. This waits for all the running channels if the server
+		// is shutting down. Their timeouts need to find the channels, so it cannot be done from within a callback
+		if err := qccl.asyncManager.AddExecuteTask(queueName, newChannel); err != nil {
+			// nothing will ever process the item. The client needs to retry
+			qccl.dropChannel(ctx, queueName, enqueueItem.Spec.DBDefinition.KeyValues, newChannel)
+			return errors.ServerShutdown
+		}
+
+		// when a new channel is created, inform any clients currently waiting to process that there is something they might care about
+		qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, newChannel.Dequeue())
+	}
+
 	return enqueueError
 }
 
+// remove a channel that never ran
+func (qccl *queueChannelsClientLocal) dropChannel(ctx context.Context, queueName string, channelKeyValues datatypes.KeyValues, queueChannel constructor.QueueChannel) {
+	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dropChannel")
+
+	deleteChannel := func(oneToManyItem btreeonetomany.OneToManyItem) bool {
+		if oneToManyItem.Value().(constructor.QueueChannel) != queueChannel {
+			return false
+		}
+
+		queueChannel.ForceDelete(ctx)
+		return true
+	}
+
+	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
+		logger.Debug("Already destroying the queue's channel", zap.Error(err))
+	}
+
+	// release what the channel runs in the background
+	stoppedCtx, cancel := context.WithCancel(ctx)
+	cancel()
+	_ = queueChannel.Execute(stoppedCtx)
+}
+
 //	PARAMETERS:
 //	- logger - general logger for this operation
 //	- cancelContext - context that can be canceled to stop processing this function
@@ -376,7 +407,7 @@ func (qccl *queueChannelsClientLocal) updateClientsWaiting(queueName string, cha
 	for _, clientWaiting := range qccl.clientsWaiting {
 		if clientWaiting.queueName == queueName {
 			if clientWaiting.query.MatchTags(channelTags) {
-				clientWaiting.channelOPS.MergeOrToOne(channel)
+				_ = clientWaiting.channelOPS.MergeOrToOneIgnoreDuplicates(channel)
 			}
 		}
 	}
-- 
2.43.0


From 6e016286fe54f99c97ac66782265dd21649dd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 45/59] fix: locks of the Locker client no longer block each
 other, cancellations or releases

---
 pkg/clients/locker_client/lock.go          |  61 +++++-
 pkg/clients/locker_client/locker_client.go | 224 +++++++++++++--------
 2 files changed, 190 insertions(+), 95 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c329153..c78ebb6 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -44,6 +44,10 @@ type lock struct {
 	heartbeating chan struct{}
 	released     *atomic.Bool
 
+	// stops a heartbeat that is waiting for its response
+	heartbeatContext context.Context
+	stopHeartbeat    context.CancelFunc
+
 	// remote server client configuration
 	url    string
 	client *http.Client
@@ -60,7 +64,10 @@ type lock struct {
 	timeout time.Duration
 }
 
+// newLock starts the heartbeats of a lock that was just obtained
 func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heartbeatErrorCallback func(err error), releaseLockCallback func()) *lock {
+	heartbeatContext, stopHeartbeat := context.WithCancel(context.Background())
+
 	lock := &lock{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
@@ -68,6 +75,9 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		heartbeating: make(chan struct{}),
 		released:     new(atomic.Bool),
 
+		heartbeatContext: heartbeatContext,
+		stopHeartbeat:    stopHeartbeat,
+
 		client: client,
 		url:    url,
 
@@ -88,25 +98,37 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
 		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
-		timeoutTicker := time.NewTicker(lock.timeout)
+		defer ticker.Stop()
+
+		// the lock can be trusted until a full timeout passes since sending the last heartbeat that was successful
+		expires := time.Now().Add(lock.timeout)
+		timeoutTimer := time.NewTimer(lock.timeout)
+		defer timeoutTimer.Stop()
 
 		for {
 			select {
 			case <-lock.done:
 				// release was called. can just escape
 				return
-			case <-timeoutTicker.C:
+			case <-timeoutTimer.C:
 				// the timeout was reached. can just escape
 				return
 			case <-ticker.C:
 				lockClaimData, err := api.ModelEncodeRequest(&v1locker.LockClaim{SessionID: lockResponse.State.SessionID})
 				if err != nil {
-					heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					if heartbeatErrorCallback != nil {
+						heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					}
 					return
 				}
 
-				req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
+				// a heartbeat that isn't answered must not outlive the lock
+				sent := time.Now()
+				ctx, cancel := context.WithDeadline(lock.heartbeatContext, expires)
+
+				req, err := http.NewRequestWithContext(ctx, "POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
 				if err != nil {
+					cancel()
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to setup heartbeat request: %w", err))
 					}
@@ -116,6 +138,13 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 				resp, err := client.Do(req)
 				if err != nil {
+					cancel()
+
+					if lock.heartbeatContext.Err() != nil {
+						// release was called. can just escape
+						return
+					}
+
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to heartbeat: %w", err))
 					}
@@ -126,8 +155,9 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
-					timeoutTicker.Reset(lock.timeout)
-				case http.StatusConflict, http.StatusBadRequest:
+					expires = sent.Add(lock.timeout)
+					timeoutTimer.Reset(time.Until(expires))
+				case http.StatusConflict, http.StatusBadRequest, http.StatusNotFound:
 					// there was an error with the request body or session id
 					apiError := &errors.Error{}
 					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
@@ -141,12 +171,17 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 					}
 
 					// release the lock
+					resp.Body.Close()
+					cancel()
 					return
 				default:
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("received an unexpected status code: %d", resp.StatusCode))
 					}
 				}
+
+				resp.Body.Close()
+				cancel()
 			}
 		}
 	}()
@@ -177,7 +212,12 @@ func (l *lock) Release(ctx context.Context) error {
 			return fmt.Errorf("failed to encode release request. Server will need to timeout: %w", err)
 		}
 
-		req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/locks/%s", l.url, l.lockID), bytes.NewBuffer(lockClaimData))
+		// a lock that is not released within the timeout expires on its own. NOTE: this is not bound to the client's context. The
+		// lock is given up, even if the client is already canceled
+		releaseCtx, cancel := context.WithTimeout(context.Background(), l.timeout)
+		defer cancel()
+
+		req, err := http.NewRequestWithContext(releaseCtx, "DELETE", fmt.Sprintf("%s/v1/locks/%s", l.url, l.lockID), bytes.NewBuffer(lockClaimData))
 		if err != nil {
 			return err
 		}
@@ -189,12 +229,14 @@ func (l *lock) Release(ctx context.Context) error {
 			return err
 		}
 
+		defer resp.Body.Close()
+
 		// parse the release response
 		switch resp.StatusCode {
 		case http.StatusNoContent:
 			// this is the success case and the Lock was deleted
 			return nil
-		case http.StatusConflict, http.StatusBadRequest:
+		case http.StatusConflict, http.StatusBadRequest, http.StatusNotFound:
 			// there was an error with the request body or seession id
 			apiError := &errors.Error{}
 			if err := api.ModelDecodeResponse(resp, apiError); err != nil {
@@ -224,6 +266,9 @@ func (l *lock) stop() {
 
 		// close done
 		close(l.done)
+
+		// stop waiting for a heartbeat that is being sent
+		l.stopHeartbeat()
 	})
 }
 
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 35b4949..55a8eff 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"maps"
 	"net/http"
 	"time"
 
@@ -121,108 +122,157 @@ func (lc *LockClient) Healthy() error {
 // The returned lock will automatically heartbeat to ensure that the lock remains valid. If the heartbeat fails for some reason,
 // the channel returned from the `lock.Done()` call will be closed. It is up to the clients to monitor for a lock being lost
 func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
-	var returnLock Lock
-	var lockErr error
-
-	// obtain the desired lock
-	onCreate := func() any {
-		for {
-			// encode and validate the model
-			data, err := api.ObjectEncodeRequest(lockRequest)
-			if err != nil {
-				lockErr = err
-				return nil
-			}
+	// encode and validate the model
+	data, err := api.ObjectEncodeRequest(lockRequest)
+	if err != nil {
+		return nil, err
+	}
 
-			// setup the http request
-			obtainLockReq, err := http.NewRequestWithContext(ctx, "POST", fmt.Sprintf("%s/v1/locks", lc.url), bytes.NewBuffer(data))
-			if err != nil {
-				lockErr = err
-				return nil
-			}
-			clients.AddHeadersFromContext(obtainLockReq, ctx)
-			obtainLockReq.Header.Set("Content-Type", "application/json")
-
-			// Obtain the lock
-			resp, err := lc.client.Do(obtainLockReq)
-			if err != nil {
-				select {
-				case <-ctx.Done():
-					// request was canceled
-				default:
-					// failed to obtain the lock
-					lockErr = fmt.Errorf("unable to make request to locker service: %w", err)
-				}
+	// the lock is kept after this call, so the client can already be using the request for something else
+	keyValues := maps.Clone(lockRequest.Spec.DBDefinition.KeyValues)
 
-				// don't save anything for create since there was an error obtaining the lock
-				return nil
-			}
+	for {
+		// create or find the lock if we already have it, or another client is currently obtaining it
+		created := false
+		var obtaining *sharedLock
 
-			switch resp.StatusCode {
-			case http.StatusOK:
-				// created the lock, need to record the session id and start hearbeating
-				createLockResponse := &v1locker.Lock{}
-				if err := api.ModelDecodeResponse(resp, createLockResponse); err != nil {
-					lockErr = err
-					return nil
-				}
+		onCreate := func() any {
+			created = true
+			obtaining = &sharedLock{done: make(chan struct{})}
+			return obtaining
+		}
 
-				// without the timeout there is no way to know when to heartbeat
-				if createLockResponse.Spec.Properties == nil || createLockResponse.Spec.Properties.Timeout == nil {
-					lockErr = fmt.Errorf("received a lock without a timeout from the locker service")
-					return nil
-				}
+		onFind := func(item btreeassociated.AssociatedKeyValues) {
+			obtaining = item.Value().(*sharedLock)
+		}
 
-				// wrapper is needed so we ensure that the lock is removed from the tree on removal
-				lostLockWrapper := func() {
-					canDelete := func(_ btreeassociated.AssociatedKeyValues) bool {
-						return true
-					}
+		if _, err := lc.locks.CreateOrFind(keyValues, onCreate, onFind); err != nil {
+			return nil, err
+		}
 
-					if err = lc.locks.Delete(lockRequest.Spec.DBDefinition.KeyValues, canDelete); err != nil {
-						panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
-					}
-				}
+		if created {
+			// NOTE: the requests must not be made in the create callback. It would block all other locks of the client
+			lock, err := lc.obtainLock(ctx, data, obtaining, keyValues, heartbeatErrorCallback)
+			if lock == nil {
+				// let other clients that are waiting for the lock try on their own
+				lc.forget(keyValues, obtaining)
+				close(obtaining.done)
 
-				if heartbeatErrorCallback != nil {
-					errCallback := func(err error) {
-						heartbeatErrorCallback(lockRequest.Spec.DBDefinition.KeyValues, err)
-					}
-					returnLock = newLock(createLockResponse, lc.url, lc.client, errCallback, lostLockWrapper)
-				} else {
-					returnLock = newLock(createLockResponse, lc.url, lc.client, nil, lostLockWrapper)
-				}
+				return nil, err
+			}
 
-				return returnLock
-			case http.StatusBadRequest, http.StatusInternalServerError:
-				// there was an error with the request. possibly a mismatch on client server versions
-				apiError := &errors.Error{}
-				if err := api.ModelDecodeResponse(resp, apiError); err != nil {
-					lockErr = err
-				} else {
-					lockErr = apiError
-				}
+			return lock, nil
+		}
 
-				return nil
-			case http.StatusServiceUnavailable:
-				// server is restarting so retry the request
-				time.Sleep(time.Second)
-			default:
-				lockErr = fmt.Errorf("received an unexpected status code: %d", resp.StatusCode)
-				return nil
+		select {
+		case <-obtaining.done:
+			if obtaining.lock != nil {
+				// just return the instance of the found lock
+				return obtaining.lock, nil
 			}
+		case <-ctx.Done():
+			// request was canceled
+			return nil, nil
 		}
 	}
+}
+
+// sharedLock is saved for each lock that is obtained, or currently being obtained
+type sharedLock struct {
+	// closed once the request to obtain the lock finished
+	done chan struct{}
+
+	// set before done is closed if the lock was obtained
+	lock Lock
+}
 
-	onFind := func(item btreeassociated.AssociatedKeyValues) {
-		// just return the instance of the found lock
-		returnLock = item.Value().(Lock)
+// remove a lock from the client. This does not affect any newer lock for the same key values
+func (lc *LockClient) forget(keyValues datatypes.KeyValues, obtained *sharedLock) {
+	canDelete := func(item btreeassociated.AssociatedKeyValues) bool {
+		return item.Value() == obtained
 	}
 
-	// create or find the lock if we already have it
-	if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil && lockErr == nil {
-		lockErr = err
+	if err := lc.locks.Delete(keyValues, canDelete); err != nil {
+		panic(fmt.Sprintf("failed to relase the lock's memeory footprint: %s", err.Error()))
 	}
+}
 
-	return returnLock, lockErr
+// obtainLock makes the requests to the Locker service until there is a lock, an error, or the context is canceled
+func (lc *LockClient) obtainLock(ctx context.Context, data []byte, obtaining *sharedLock, keyValues datatypes.KeyValues, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
+	for {
+		// setup the http request
+		obtainLockReq, err := http.NewRequestWithContext(ctx, "POST", fmt.Sprintf("%s/v1/locks", lc.url), bytes.NewBuffer(data))
+		if err != nil {
+			return nil, err
+		}
+		clients.AddHeadersFromContext(obtainLockReq, ctx)
+		obtainLockReq.Header.Set("Content-Type", "application/json")
+
+		// Obtain the lock
+		resp, err := lc.client.Do(obtainLockReq)
+		if err != nil {
+			select {
+			case <-ctx.Done():
+				// request was canceled
+				return nil, nil
+			default:
+				// failed to obtain the lock
+				return nil, fmt.Errorf("unable to make request to locker service: %w", err)
+			}
+		}
+
+		switch resp.StatusCode {
+		case http.StatusOK:
+			defer resp.Body.Close()
+
+			// created the lock, need to record the session id and start hearbeating
+			createLockResponse := &v1locker.Lock{}
+			if err := api.ModelDecodeResponse(resp, createLockResponse); err != nil {
+				return nil, err
+			}
+
+			// without the timeout there is no way to know when to heartbeat
+			if createLockResponse.Spec.Properties == nil || createLockResponse.Spec.Properties.Timeout == nil {
+				return nil, fmt.Errorf("received a lock without a timeout from the locker service")
+			}
+
+			var errCallback func(err error)
+			if heartbeatErrorCallback != nil {
+				errCallback = func(err error) {
+					heartbeatErrorCallback(keyValues, err)
+				}
+			}
+
+			// the lock is removed from the tree once it is lost or released
+			lock := newLock(createLockResponse, lc.url, lc.client, errCallback, func() { lc.forget(keyValues, obtaining) })
+
+			obtaining.lock = lock
+			close(obtaining.done)
+
+			return lock, nil
+		case http.StatusBadRequest, http.StatusInternalServerError:
+			defer resp.Body.Close()
+
+			// there was an error with the request. possibly a mismatch on client server versions
+			apiError := &errors.Error{}
+			if err := api.ModelDecodeResponse(resp, apiError); err != nil {
+				return nil, err
+			}
+
+			return nil, apiError
+		case http.StatusServiceUnavailable:
+			resp.Body.Close()
+
+			// server is restarting so retry the request
+			select {
+			case <-ctx.Done():
+				return nil, nil
+			case <-time.After(time.Second):
+			}
+		default:
+			resp.Body.Close()
+
+			return nil, fmt.Errorf("received an unexpected status code: %d", resp.StatusCode)
+		}
+	}
 }
-- 
2.43.0


From a946c53a6b18f578aee38b9913c0aa2b34f71612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 46/59] fix: an increment canceled after obtaining its locks is
 told to retry

---
 internal/limiter/counters/counter_client_local.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 01dde01..ecd1852 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -179,6 +179,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 			defer close(successChan)
 
 			if err := channelOps.MergeOrToOne(successChan); err != nil {
+				// canceled after obtaining the last lock
+				if ctx.Err() != nil {
+					logger.Info("canceled while obtaining the locks from the locker service")
+					return errors.ServerShutdown
+				}
+
 				// lock is already lost so bail early
 				logger.Error("a lock was released unexpedily")
 				return errors.InternalServerError
@@ -188,7 +194,13 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 			// but that is such a rare race condition I don't see it happening for real.
 			_, ok := <-chanReceiver
 			if !ok {
-				// lost a lock or canceled obtaining the locks
+				// canceled after obtaining the last lock
+				if ctx.Err() != nil {
+					logger.Info("canceled while obtaining the locks from the locker service")
+					return errors.ServerShutdown
+				}
+
+				// lost a lock
 				logger.Error("a lock was released unexpedily")
 				return errors.InternalServerError
 			}
-- 
2.43.0


From 4e93db35ff7902efcea28af96bbcd680851c29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 47/59] fix: a dequeued item ends when it can't be trusted
 anymore, and acking reports unexpected answers

---
 pkg/clients/willow_client/item.go | 174 ++++++++++++++++++------------
 1 file changed, 108 insertions(+), 66 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..34fca2c 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -39,11 +39,17 @@ type Item struct {
 	queueName        string
 	heartbeatTimeout time.Duration
 
+	// stops a heartbeat that is waiting for its response
+	heartbeatContext context.Context
+	stopHeartbeat    context.CancelFunc
+
 	heartbeatErrorLock     *sync.RWMutex
 	heartbeatErrorCallback func(err error)
 }
 
 func newItem(url string, client *http.Client, queueName string, dequeueItem *v1willow.Item) *Item {
+	heartbeatContext, stopHeartbeat := context.WithCancel(context.Background())
+
 	item := &Item{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
@@ -57,6 +63,9 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		queueName:        queueName,
 		heartbeatTimeout: *dequeueItem.Spec.Properties.TimeoutDuration,
 
+		heartbeatContext: heartbeatContext,
+		stopHeartbeat:    stopHeartbeat,
+
 		heartbeatErrorLock: new(sync.RWMutex),
 	}
 
@@ -64,77 +73,34 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		defer item.stop()
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
-		lastHeartbeat := time.Now()
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
+		defer ticker.Stop()
+
+		// the item can be trusted until a full timeout passes since sending the last heartbeat that was successful
+		expires := time.Now().Add(item.heartbeatTimeout)
+		timeoutTimer := time.NewTimer(item.heartbeatTimeout)
+		defer timeoutTimer.Stop()
 
 		for {
 			select {
 			case <-item.done:
 				// ack was called can just escape
 				return
-			case <-ticker.C:
+			case <-timeoutTimer.C:
 				// in this case, we know that we have timed out and don't need to heartbeat anymore
-				if time.Since(lastHeartbeat) >= adjustedTimeout {
-					return
-				}
-
-				data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
-					ItemID:    item.itemID,
-					KeyValues: item.keyValues,
-				})
-				if err != nil {
-					item.forwardError(err)
-					continue
-				}
-
-				req, err := http.NewRequest(
-					"POST",
-					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
-					bytes.NewBuffer(data),
-				)
-				if err != nil {
-					item.forwardError(err)
-					continue
-				}
+				return
+			case <-ticker.C:
+				sent := time.Now()
 
-				resp, err := client.Do(req)
-				// error making the request. This should not happen
-				if err != nil {
-					select {
-					case <-item.done:
-						//nothing to do here. race between ack and heartbeat
-					default:
-						item.forwardError(err)
-						continue
-					}
+				passed, lost := item.heartbeat(expires)
+				if lost {
+					return
 				}
 
-				// parse the response
-				switch resp.StatusCode {
-				case http.StatusOK:
-					// sent a heartbeat
-					lastHeartbeat = time.Now()
-				case http.StatusBadRequest, http.StatusConflict, http.StatusInternalServerError:
-					// faild to heartbeat for some reason
-					apiError := &errors.Error{}
-					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
-						select {
-						case <-item.done:
-							//nothing to do here. race between ack and heartbeat
-						default:
-							item.forwardError(err)
-						}
-					} else {
-						select {
-						case <-item.done:
-							//nothing to do here. race between ack and heartbeat
-						default:
-							item.forwardError(apiError)
-						}
-					}
-				default:
-					item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+				if passed {
+					expires = sent.Add(item.heartbeatTimeout)
+					timeoutTimer.Reset(time.Until(expires))
 				}
 			}
 		}
@@ -143,6 +109,69 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 	return item
 }
 
+//	PARAMETERS:
+//	- expires - time when the item is lost if there is no response
+//
+//	RETURNS:
+//	- passed - the service is still waiting for this item to be processed
+//	- lost - the service is no longer waiting for this item. Or the item has been acked
+//
+// heartbeat sends 1 heartbeat for the item
+func (item *Item) heartbeat(expires time.Time) (passed bool, lost bool) {
+	data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
+		ItemID:    item.itemID,
+		KeyValues: item.keyValues,
+	})
+	if err != nil {
+		item.forwardError(err)
+		return false, false
+	}
+
+	// a heartbeat that isn't answered must not outlive the item
+	ctx, cancel := context.WithDeadline(item.heartbeatContext, expires)
+	defer cancel()
+
+	req, err := http.NewRequestWithContext(
+		ctx,
+		"POST",
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
+		bytes.NewBuffer(data),
+	)
+	if err != nil {
+		item.forwardError(err)
+		return false, false
+	}
+	clients.AddHeadersFromContext(req, ctx)
+
+	resp, err := item.client.Do(req)
+	if err != nil {
+		item.forwardHeartbeatError(err)
+		return false, false
+	}
+	defer resp.Body.Close()
+
+	// parse the response
+	switch resp.StatusCode {
+	case http.StatusOK:
+		// sent a heartbeat
+		return true, false
+	case http.StatusBadRequest, http.StatusNotFound, http.StatusConflict, http.StatusInternalServerError:
+		// faild to heartbeat for some reason
+		apiError := &errors.Error{}
+		if err := api.ModelDecodeResponse(resp, apiError); err != nil {
+			item.forwardHeartbeatError(err)
+		} else {
+			item.forwardHeartbeatError(apiError)
+		}
+
+		// the service does not know about the item being processed anymore
+		return false, resp.StatusCode == http.StatusBadRequest || resp.StatusCode == http.StatusNotFound
+	default:
+		item.forwardHeartbeatError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return false, false
+	}
+}
+
 // add or update the callback function for when a heartbeat happens
 func (item *Item) SetHeartbeatErrorCallback(callback func(err error)) {
 	item.heartbeatErrorLock.Lock()
@@ -192,6 +221,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -207,10 +237,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code while acking: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
@@ -219,17 +247,31 @@ func (item *Item) Data() []byte {
 }
 
 func (item *Item) forwardError(err error) {
+	// don't hold the lock while calling back. The callback might set a new callback
 	item.heartbeatErrorLock.RLock()
-	defer item.heartbeatErrorLock.RUnlock()
+	heartbeatErrorCallback := item.heartbeatErrorCallback
+	item.heartbeatErrorLock.RUnlock()
+
+	if heartbeatErrorCallback != nil {
+		heartbeatErrorCallback(err)
+	}
+}
 
-	if item.heartbeatErrorCallback != nil {
-		item.heartbeatErrorCallback(err)
+func (item *Item) forwardHeartbeatError(err error) {
+	select {
+	case <-item.done:
+		//nothing to do here. race between ack and heartbeat
+	default:
+		item.forwardError(err)
 	}
 }
 
 func (item *Item) stop() {
 	item.doneOnce.Do(func() {
 		close(item.done)
+
+		// stop waiting for a heartbeat that is being sent
+		item.stopHeartbeat()
 	})
 }
 
-- 
2.43.0


From 171871e9d1ae5e230fbb6904ba9ce143f2ca83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 48/59] fix: the clients escape the names they put into a
 request's path

---
 pkg/clients/limiter_client/override.go | 13 +++++++------
 pkg/clients/limiter_client/rule.go     |  7 ++++---
 pkg/clients/willow_client/channel.go   |  7 ++++---
 pkg/clients/willow_client/item.go      |  5 +++--
 pkg/clients/willow_client/queue.go     |  7 ++++---
 5 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/pkg/clients/limiter_client/override.go b/pkg/clients/limiter_client/override.go
index 6428f3a..22ea0b2 100644
--- a/pkg/clients/limiter_client/override.go
+++ b/pkg/clients/limiter_client/override.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -33,7 +34,7 @@ func (lc *LimitClient) CreateOverride(ctx context.Context, ruleName string, over
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides", lc.url, ruleName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides", lc.url, url.PathEscape(ruleName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -82,7 +83,7 @@ func (lc *LimitClient) QueryOverrides(ctx context.Context, ruleName string, quer
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/query", lc.url, ruleName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/query", lc.url, url.PathEscape(ruleName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +132,7 @@ func (lc *LimitClient) MatchOverrides(ctx context.Context, ruleName string, matc
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/match", lc.url, ruleName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/match", lc.url, url.PathEscape(ruleName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -176,7 +177,7 @@ func (lc *LimitClient) MatchOverrides(ctx context.Context, ruleName string, matc
 // that they should be for a specific grouping of KeyValue items.
 func (lc *LimitClient) GetOverride(ctx context.Context, ruleName string, overrideName string) (*v1limiter.Override, error) {
 	// setup and make the reques
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/%s", lc.url, ruleName, overrideName), nil)
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/%s", lc.url, url.PathEscape(ruleName), url.PathEscape(overrideName)), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -227,7 +228,7 @@ func (lc *LimitClient) UpdateOverride(ctx context.Context, ruleName string, over
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/%s", lc.url, ruleName, overrideName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/%s", lc.url, url.PathEscape(ruleName), url.PathEscape(overrideName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -265,7 +266,7 @@ func (lc *LimitClient) UpdateOverride(ctx context.Context, ruleName string, over
 // DeleteOverride removes a particual override for a Rule
 func (lc *LimitClient) DeleteOverride(ctx context.Context, ruleName, overrideName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/%s", lc.url, ruleName, overrideName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/limiter/rules/%s/overrides/%s", lc.url, url.PathEscape(ruleName), url.PathEscape(overrideName)), nil)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/limiter_client/rule.go b/pkg/clients/limiter_client/rule.go
index 518fc82..570c3c0 100644
--- a/pkg/clients/limiter_client/rule.go
+++ b/pkg/clients/limiter_client/rule.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -73,7 +74,7 @@ func (lc *LimitClient) CreateRule(ctx context.Context, rule *v1limiter.Rule) (*v
 // GetRule is used to find a specific Rule and any optional Overrides that match the query
 func (lc *LimitClient) GetRule(ctx context.Context, ruleName string) (*v1limiter.Rule, error) {
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s", lc.url, ruleName), nil)
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/limiter/rules/%s", lc.url, url.PathEscape(ruleName)), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -218,7 +219,7 @@ func (lc *LimitClient) UpdateRule(ctx context.Context, ruleName string, ruleUpda
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/limiter/rules/%s", lc.url, ruleName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/limiter/rules/%s", lc.url, url.PathEscape(ruleName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -255,7 +256,7 @@ func (lc *LimitClient) UpdateRule(ctx context.Context, ruleName string, ruleUpda
 // DeleteRule deletes a Rule and all Overrides for the associated Rule
 func (lc *LimitClient) DeleteRule(ctx context.Context, ruleName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/limiter/rules/%s", lc.url, ruleName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/limiter/rules/%s", lc.url, url.PathEscape(ruleName)), nil)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index e4e0d3a..583956e 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -33,7 +34,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -79,7 +80,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -132,7 +133,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 34fca2c..6861da5 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"net/url"
 	"sync"
 	"time"
 
@@ -134,7 +135,7 @@ func (item *Item) heartbeat(expires time.Time) (passed bool, lost bool) {
 	req, err := http.NewRequestWithContext(
 		ctx,
 		"POST",
-		fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, url.PathEscape(item.queueName)),
 		bytes.NewBuffer(data),
 	)
 	if err != nil {
@@ -209,7 +210,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, item.queueName),
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, url.PathEscape(item.queueName)),
 		bytes.NewBuffer(data),
 	)
 	if err != nil {
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index 6740f32..ec33cd2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -115,7 +116,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +166,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -202,7 +203,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 // Delete a queue and any channels associated with the Queue
 func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6be7af0d8b75e3892d910e30194aa07d807be919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 49/59] fix: the clients close the responses they received

---
 pkg/clients/limiter_client/counter.go        | 3 +++
 pkg/clients/limiter_client/limiter_client.go | 1 +
 pkg/clients/limiter_client/override.go       | 6 ++++++
 pkg/clients/limiter_client/rule.go           | 6 ++++++
 pkg/clients/locker_client/locker_client.go   | 1 +
 pkg/clients/willow_client/channel.go         | 3 +++
 pkg/clients/willow_client/queue.go           | 5 +++++
 pkg/clients/willow_client/willow_client.go   | 1 +
 8 files changed, 26 insertions(+)

diff --git a/pkg/clients/limiter_client/counter.go b/pkg/clients/limiter_client/counter.go
index 025652f..9dcc32d 100644
--- a/pkg/clients/limiter_client/counter.go
+++ b/pkg/clients/limiter_client/counter.go
@@ -43,6 +43,7 @@ func (lc *LimitClient) UpdateCounter(ctx context.Context, counter *v1limiter.Cou
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -87,6 +88,7 @@ func (lc *LimitClient) QueryCounters(ctx context.Context, query *queryassociated
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -135,6 +137,7 @@ func (lc *LimitClient) SetCounters(ctx context.Context, counters *v1limiter.Coun
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/limiter_client/limiter_client.go b/pkg/clients/limiter_client/limiter_client.go
index ace62a0..a82bb8f 100644
--- a/pkg/clients/limiter_client/limiter_client.go
+++ b/pkg/clients/limiter_client/limiter_client.go
@@ -95,6 +95,7 @@ func (lc *LimitClient) Healthy() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/limiter_client/override.go b/pkg/clients/limiter_client/override.go
index 22ea0b2..de65b04 100644
--- a/pkg/clients/limiter_client/override.go
+++ b/pkg/clients/limiter_client/override.go
@@ -44,6 +44,7 @@ func (lc *LimitClient) CreateOverride(ctx context.Context, ruleName string, over
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -93,6 +94,7 @@ func (lc *LimitClient) QueryOverrides(ctx context.Context, ruleName string, quer
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -142,6 +144,7 @@ func (lc *LimitClient) MatchOverrides(ctx context.Context, ruleName string, matc
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -187,6 +190,7 @@ func (lc *LimitClient) GetOverride(ctx context.Context, ruleName string, overrid
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -238,6 +242,7 @@ func (lc *LimitClient) UpdateOverride(ctx context.Context, ruleName string, over
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -276,6 +281,7 @@ func (lc *LimitClient) DeleteOverride(ctx context.Context, ruleName, overrideNam
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/limiter_client/rule.go b/pkg/clients/limiter_client/rule.go
index 570c3c0..d75f8ad 100644
--- a/pkg/clients/limiter_client/rule.go
+++ b/pkg/clients/limiter_client/rule.go
@@ -41,6 +41,7 @@ func (lc *LimitClient) CreateRule(ctx context.Context, rule *v1limiter.Rule) (*v
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -84,6 +85,7 @@ func (lc *LimitClient) GetRule(ctx context.Context, ruleName string) (*v1limiter
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the responseEncodedRequest
 	switch resp.StatusCode {
@@ -132,6 +134,7 @@ func (lc *LimitClient) QueryRules(ctx context.Context, query *queryassociatedact
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -180,6 +183,7 @@ func (lc *LimitClient) MatchRules(ctx context.Context, match *querymatchaction.M
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -229,6 +233,7 @@ func (lc *LimitClient) UpdateRule(ctx context.Context, ruleName string, ruleUpda
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -266,6 +271,7 @@ func (lc *LimitClient) DeleteRule(ctx context.Context, ruleName string) error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 55a8eff..a466320 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -97,6 +97,7 @@ func (lc *LockClient) Healthy() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index 583956e..2733e93 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -44,6 +44,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -90,6 +91,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -143,6 +145,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index ec33cd2..b2061a2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -41,6 +41,7 @@ func (wc *WillowClient) CreateQueue(ctx context.Context, queue *v1willow.Queue)
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -77,6 +78,7 @@ func (wc *WillowClient) ListQueues(ctx context.Context) (v1willow.Queues, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -126,6 +128,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -176,6 +179,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
@@ -213,6 +217,7 @@ func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
diff --git a/pkg/clients/willow_client/willow_client.go b/pkg/clients/willow_client/willow_client.go
index 600d010..033fb12 100644
--- a/pkg/clients/willow_client/willow_client.go
+++ b/pkg/clients/willow_client/willow_client.go
@@ -80,6 +80,7 @@ func (wc *WillowClient) Healthy() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 
 	// parse the response
 	switch resp.StatusCode {
-- 
2.43.0


From a081f7a2096ec27b7e00e65999cac0b454803140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 50/59] fix: Willow can be interrupted while waiting for the
 Limiter

---
 cmd/willow/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/willow/main.go b/cmd/willow/main.go
index 603f072..dea880f 100644
--- a/cmd/willow/main.go
+++ b/cmd/willow/main.go
@@ -56,7 +56,12 @@ func main() {
 	for i := 0; i < 10; i++ {
 		if err := limiterClient.Healthy(); err != nil {
 			logger.Error("error checking health of limiter service", zap.Error(err))
-			time.Sleep(10 * time.Second)
+
+			select {
+			case <-time.After(10 * time.Second):
+			case <-shutdown.Done():
+				os.Exit(1)
+			}
 
 			if i == 9 {
 				logger.Fatal("Failed to setup the limiter client which is required")
-- 
2.43.0


From 7368216d74280fb164047f3365fafa15085fc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:43 +0000
Subject: [PATCH 51/59] fix: client certs do not need to be server certs

---
 pkg/clients/client_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/clients/client_config.go b/pkg/clients/client_config.go
index 1817151..d3566d5 100644
--- a/pkg/clients/client_config.go
+++ b/pkg/clients/client_config.go
@@ -78,7 +78,7 @@ func (cfg *Config) Validate() error {
 				return fmt.Errorf("faled to parse ClientCRTFile: %w", err)
 			}
 
-			if _, err = cert.Verify(x509.VerifyOptions{Roots: rootCAs}); err != nil {
+			if _, err = cert.Verify(x509.VerifyOptions{Roots: rootCAs, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
 				return fmt.Errorf("failed to verify certs: %w", err)
 			}
 
-- 
2.43.0


From 024806da87f29ab20784e670218104abde4435f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 52/59] fix: the clients use their certs without a custom CA,
 and don't write to a shared config

---
 pkg/clients/http_client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/clients/http_client.go b/pkg/clients/http_client.go
index f280856..8208245 100644
--- a/pkg/clients/http_client.go
+++ b/pkg/clients/http_client.go
@@ -9,17 +9,20 @@ import (
 
 // Genreate a new HTTP Client from a valid configuration
 func NewHTTPClient(cfg *Config) (*http.Client, error) {
-	if err := cfg.Validate(); err != nil {
+	// validating parses the certs into the config. So use a copy since the config can be shared
+	validCfg := *cfg
+	if err := validCfg.Validate(); err != nil {
 		return nil, err
 	}
 
 	client := &http.Client{}
 
-	if cfg.CAFile != "" {
+	// NOTE: without a CA, the system's CAs are used to verify the server
+	if validCfg.ClientCRTFile != "" {
 		client.Transport = &http2.Transport{
 			TLSClientConfig: &tls.Config{
-				Certificates: []tls.Certificate{cfg.Cert()},
-				RootCAs:      cfg.RootCAs(),
+				Certificates: []tls.Certificate{validCfg.Cert()},
+				RootCAs:      validCfg.RootCAs(),
 			},
 		}
 	}
-- 
2.43.0


From 21cdb12f079e4ccf806fe2ce94a96145d1b2b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 53/59] fix: the Limiter closes the connections to the Locker
 for each counter increment

---
 internal/limiter/api/v1/handlers/counters_handler.go | 2 ++
 pkg/clients/locker_client/locker_client.go           | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/internal/limiter/api/v1/handlers/counters_handler.go b/internal/limiter/api/v1/handlers/counters_handler.go
index 2ac453b..7865d47 100644
--- a/internal/limiter/api/v1/handlers/counters_handler.go
+++ b/internal/limiter/api/v1/handlers/counters_handler.go
@@ -42,6 +42,8 @@ func (grh *groupRuleHandler) UpsertCounters(w http.ResponseWriter, r *http.Reque
 			return
 		}
 
+		defer lockerClient.Close()
+
 		ctx, cancel := contextops.MergeDone(ctx, grh.shutdownContext)
 		defer cancel()
 
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index a466320..49445c3 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -82,6 +82,14 @@ func NewLockClient(cfg *clients.Config) (*LockClient, error) {
 	return lockerClient, nil
 }
 
+// Close the connections of the client that are not in use. This should be called when the client is not needed anymore
+func (lc *LockClient) Close() {
+	// without a custom transport, the connections are shared with other clients
+	if lc.client.Transport != nil {
+		lc.client.CloseIdleConnections()
+	}
+}
+
 //	RETURNS:
 //	- error - error if the Locker service cannot be reached
 //
-- 
2.43.0


From 87f46841de244ca7db30824c8ba90a5509b13248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 54/59] fix: the documented env vars of the Limiter and Willow
 configs are read

---
 internal/config/config.go         | 13 +++++++++++++
 internal/config/limiter_config.go |  6 +++---
 internal/config/willow_config.go  |  2 +-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 6ccd7c3..9d4acf7 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -1,5 +1,18 @@
 package config
 
+import "os"
+
 type Config interface {
 	LogLevel() string
 }
+
+// firstEnv returns the value of the first env var that is set
+func firstEnv(names ...string) string {
+	for _, name := range names {
+		if value := os.Getenv(name); value != "" {
+			return value
+		}
+	}
+
+	return ""
+}
diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index e166f76..b3ad052 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -73,7 +73,7 @@ All flags will use the env vars if they are set instead of command line paramete
 func (lc *LimiterConfig) parseEnv() {
 	// logs
 	//// logLevel
-	if logLevel := os.Getenv("LOG_LEVEL"); logLevel != "" {
+	if logLevel := firstEnv("LIMITER_LOG_LEVEL", "LOG_LEVEL"); logLevel != "" {
 		lc.logLevel = &logLevel
 	}
 
@@ -85,7 +85,7 @@ func (lc *LimiterConfig) parseEnv() {
 
 	// server keys
 	//// ca key
-	if limiterCA := os.Getenv("LIMITER_SERVER_CA"); limiterCA != "" {
+	if limiterCA := firstEnv("LIMITER_CA", "LIMITER_SERVER_CA"); limiterCA != "" {
 		lc.ServerCA = &limiterCA
 	}
 	//// tls key
@@ -105,7 +105,7 @@ func (lc *LimiterConfig) parseEnv() {
 
 	//// http
 	//// ca key
-	if lockerCA := os.Getenv("LIMITER_LOCKER_CA"); lockerCA != "" {
+	if lockerCA := firstEnv("LIMITER_LOCKER_CLIENT_CA", "LIMITER_LOCKER_CA"); lockerCA != "" {
 		lc.LockerClientCA = &lockerCA
 	}
 	//// tls key
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 38ca504..f485c93 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -132,7 +132,7 @@ func (wc *WillowConfig) parseEnv() error {
 		wc.LimiterURL = &limiterURL
 	}
 	//// ca key
-	if limiterCA := os.Getenv("WILLOW_LIMITER_CA"); limiterCA != "" {
+	if limiterCA := firstEnv("WILLOW_LIMITER_CLIENT_CA", "WILLOW_LIMITER_CA"); limiterCA != "" {
 		wc.LimiterClientCA = &limiterCA
 	}
 	//// tls key
-- 
2.43.0


From cb522b448c73f5f3c669f4af3dc509bcc3bbc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 55/59] fix: a match with contradicting numbers of keys is
 invalid instead of a panic

---
 .../api/common/v1/query_match_action/match_query.go  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..5761b4c 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,18 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	// ensure the number of keys that make up a permutation are proper
+	if matchActionQuery.MaxNumberOfPermutationKeyValues != nil {
+		minKeys := 0
+		if matchActionQuery.MinNumberOfPermutationKeyValues != nil {
+			minKeys = *matchActionQuery.MinNumberOfPermutationKeyValues
+		}
+
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < minKeys {
+			return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0e0202395fb69a13a5aa21417f8b84ead089b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:54 +0000
Subject: [PATCH 56/59] fix: willow can be restarted while its limiter keeps
 running

---
 cmd/willow/main.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/willow/main.go b/cmd/willow/main.go
index dea880f..938ce3d 100644
--- a/cmd/willow/main.go
+++ b/cmd/willow/main.go
@@ -23,6 +23,7 @@ import (
 	v1router "github.com/DanLavine/willow/internal/willow/api/v1/router"
 	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
 	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
+	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
 	v1 "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
 	"github.com/DanLavine/willow/pkg/models/datatypes"
 )
@@ -74,13 +75,14 @@ func main() {
 	}
 
 	// setup the rule if it does not exist for the willow limits
+	ruleKeyValues := datatypes.KeyValues{
+		"_willow_queue_name": datatypes.Any(),
+		"_willow_enqueued":   datatypes.Any(),
+	}
 	ruleResp, err := limiterClient.CreateRule(context.Background(), &v1.Rule{
 		Spec: &v1.RuleSpec{
 			DBDefinition: &v1.RuleDBDefinition{
-				GroupByKeyValues: datatypes.KeyValues{
-					"_willow_queue_name": datatypes.Any(),
-					"_willow_enqueued":   datatypes.Any(),
-				},
+				GroupByKeyValues: ruleKeyValues,
 			},
 			Properties: &v1.RuleProperties{
 				Limit: helpers.PointerOf[int64](0), // by default, all queues have a limit of 0
@@ -88,7 +90,13 @@ func main() {
 		},
 	})
 	if err != nil {
-		logger.Fatal("Failed to setup Limiter enqueue rule", zap.Error(err))
+		// the rule already exists if willow was restarted while the limiter kept running
+		rules, queryErr := limiterClient.QueryRules(context.Background(), queryassociatedaction.KeyValuesToExactAssociatedActionQuery(ruleKeyValues))
+		if queryErr != nil || len(rules) != 1 {
+			logger.Fatal("Failed to setup Limiter enqueue rule", zap.Error(err))
+		}
+
+		ruleResp = rules[0]
 	}
 
 	// setup async handlers
-- 
2.43.0


From 746ced8ce66075c05f93ec1a9c761a91a7d37ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:54 +0000
Subject: [PATCH 57/59] fix: *_INSECURE_HTTP=false turns the insecure-http flag
 off

---
 internal/config/limiter_config.go | 6 ++----
 internal/config/locker_config.go  | 6 ++----
 internal/config/willow_config.go  | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index b3ad052..a1cd914 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -120,10 +120,8 @@ func (lc *LimiterConfig) parseEnv() {
 	// Insecure settings
 	//// http
 	if limiterInsecureHTTP := os.Getenv("LIMITER_INSECURE_HTTP"); limiterInsecureHTTP != "" {
-		if strings.ToLower(limiterInsecureHTTP) == "true" {
-			trueValue := true
-			lc.InsecureHttp = &trueValue
-		}
+		insecureHTTPValue := strings.ToLower(limiterInsecureHTTP) == "true"
+		lc.InsecureHttp = &insecureHTTPValue
 	}
 }
 
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 25e2f8f..2371417 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -90,10 +90,8 @@ func (lc *LockerConfig) parseEnv() error {
 
 	// insecure http
 	if insecureHTTP := os.Getenv("LOCKER_INSECURE_HTTP"); insecureHTTP != "" {
-		if insecureHTTP == "true" {
-			trueValue := true
-			lc.InsecureHttp = &trueValue
-		}
+		insecureHTTPValue := insecureHTTP == "true"
+		lc.InsecureHttp = &insecureHTTPValue
 	}
 
 	// defaults
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index f485c93..71d3f3c 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -108,10 +108,8 @@ func (wc *WillowConfig) parseEnv() error {
 	}
 	//// insecure http
 	if willowInsecureHTTP := os.Getenv("WILLOW_INSECURE_HTTP"); willowInsecureHTTP != "" {
-		if willowInsecureHTTP == "true" {
-			trueValue := true
-			wc.InsecureHttp = &trueValue
-		}
+		insecureHTTPValue := willowInsecureHTTP == "true"
+		wc.InsecureHttp = &insecureHTTPValue
 	}
 	//// ca key
 	if willowCA := os.Getenv("WILLOW_CA"); willowCA != "" {
-- 
2.43.0


From cfa421ccbc78e9cc03e22a07b3e83d3f3cf2e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:23 +0000
Subject: [PATCH 58/59] fix: a counter that can no longer be represented
 refuses increments instead of turning negative

---
 internal/limiter/counters/constructor.go          |  3 +++
 internal/limiter/counters/counter_client_local.go |  8 +++++++-
 internal/limiter/counters/memory/counter.go       | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/limiter/counters/constructor.go b/internal/limiter/counters/constructor.go
index f128919..a59a5f0 100644
--- a/internal/limiter/counters/constructor.go
+++ b/internal/limiter/counters/constructor.go
@@ -12,6 +12,9 @@ import (
 type Counter interface {
 	Update(counterProperties *v1limiter.CounteProperties) int64
 
+	// Increment returns false if the total would overflow. In that case nothing is added
+	Increment(counterProperties *v1limiter.CounteProperties) bool
+
 	Set(counterProperties *v1limiter.CounteProperties)
 
 	Load() int64
diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index ecd1852..fb1a713 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -240,8 +240,9 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 		return cm.counterConstructor.New(counter.Spec.Properties)
 	}
 
+	incremented := true
 	incrementCounter := func(item btreeassociated.AssociatedKeyValues) {
-		item.Value().(Counter).Update(counter.Spec.Properties)
+		incremented = item.Value().(Counter).Increment(counter.Spec.Properties)
 	}
 
 	if _, err := cm.counters.CreateOrFind(counter.Spec.DBDefinition.KeyValues, createCounter, incrementCounter); err != nil {
@@ -249,6 +250,11 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 		return errors.InternalServerError
 	}
 
+	if !incremented {
+		logger.Info("Counter already at the maximum value or would exceed it")
+		return &errors.ServerError{Message: "Counter would exceed the maximum value", StatusCode: http.StatusConflict}
+	}
+
 	return nil
 }
 
diff --git a/internal/limiter/counters/memory/counter.go b/internal/limiter/counters/memory/counter.go
index ac225b1..a4e7a63 100644
--- a/internal/limiter/counters/memory/counter.go
+++ b/internal/limiter/counters/memory/counter.go
@@ -1,6 +1,7 @@
 package memory
 
 import (
+	"math"
 	"sync"
 
 	"github.com/DanLavine/willow/internal/helpers"
@@ -30,6 +31,19 @@ func (c *Counter) Update(counterProperties *v1limiter.CounteProperties) int64 {
 	return *c.properties.Counters
 }
 
+// Increment adds to the counter, unless the total can no longer be represented
+func (c *Counter) Increment(counterProperties *v1limiter.CounteProperties) bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if *counterProperties.Counters > 0 && *c.properties.Counters > math.MaxInt64-*counterProperties.Counters {
+		return false
+	}
+
+	*c.properties.Counters += *counterProperties.Counters
+	return true
+}
+
 func (c *Counter) Set(counterProperties *v1limiter.CounteProperties) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-- 
2.43.0


From b55a309fa4035cbc656fd99206c25f161e27cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:23 +0000
Subject: [PATCH 59/59] fix: Willow's API description names the paths of its
 operations, its viewer is titled Willow

---
 docs/openapi/willow/openapi.yaml                   | 5 +++--
 internal/willow/api/v1/router/willow_url_router.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/docs/openapi/willow/openapi.yaml b/docs/openapi/willow/openapi.yaml
index 96bacf6..89cfb7f 100644
--- a/docs/openapi/willow/openapi.yaml
+++ b/docs/openapi/willow/openapi.yaml
@@ -308,6 +308,7 @@ paths:
                     $ref: "../common/components.yaml#/components/schemas/ApiError"
         503:
           description: Service has gone down for a restart and the client should retry the reuest
+  /v1/queues/:queue_name/channels:
     delete:
       operationId: delete Channel
       description: |
@@ -358,7 +359,7 @@ paths:
                     $ref: "../common/components.yaml#/components/schemas/ApiError"
         503:
           description: Service has gone down for a restart and the client should retry the reuest
-  /v1/queus/:queue_name/channels/items/ack:
+  /v1/queues/:queue_name/channels/items/ack:
     post:
       operationId: ack Item
       description: |
@@ -402,7 +403,7 @@ paths:
                 properties:
                   ApiError:
                     $ref: "../common/components.yaml#/components/schemas/ApiError"
-  /v1/queus/:queue_name/channels/items/heartbeat:
+  /v1/queues/:queue_name/channels/items/heartbeat:
     post:
       operationId: heartbeat Item
       description: |
diff --git a/internal/willow/api/v1/router/willow_url_router.go b/internal/willow/api/v1/router/willow_url_router.go
index 83cc078..7105648 100644
--- a/internal/willow/api/v1/router/willow_url_router.go
+++ b/internal/willow/api/v1/router/willow_url_router.go
@@ -27,7 +27,7 @@ func AddV1WillowRoutes(baseLogger *zap.Logger, mux *urlrouter.Router, v1QueueHan
 			BasePath: "/",
 			Path:     "v1/docs",
 			SpecURL:  "/v1/docs/openapi/willow/openapi.yaml",
-			Title:    "Locker API Documentation",
+			Title:    "Willow API Documentation",
 		}, nil).ServeHTTP(w, r)
 	})
 
-- 
2.43.0

