From eefc5553269b24a14c406df0259fd22d3b3d82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 01/49] fix: report an unknown leaf hash in an inclusion proof
 request as not found

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..5d42382 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -74,6 +74,9 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		} else {
 			// Then we must fetch the index
 			ei, err := lookupIndexByLeafHash(ctx, kr, req.Log.LogType, req.MtlHash)
+			if err == ErrNoSuchKey {
+				return status.Errorf(codes.NotFound, "cannot find it")
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From d4947588bd8349a7dbb588eb2fd30db70f999868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 02/49] fix: return errors from MapTreeHash, and the empty head
 for an empty map

---
 verifiable/service_map_tree_hash.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..40cc95b 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -57,9 +57,12 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		}
 
 		// Need this for response
-		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
-		if err != nil {
-			return err
+		mutHead := &pb.LogTreeHash{} // an empty map has an empty mutation log
+		if treeSize > 0 {
+			mutHead, err = lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Get the root node for tree size
@@ -87,6 +90,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From 0d802d4c81ef493edb7ba143092340d0e91dc9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 03/49] fix: do not let map values overwrite mutation log
 entries with the same leaf input

---
 verifiable/insertion_map.go         |  2 +-
 verifiable/service_map_get_value.go |  2 +-
 verifiable/util_service_data.go     | 22 ++++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..b045571 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -154,7 +154,7 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 
 	// Time to start writing our data
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		err = writeMapValueByLeafHash(ctx, db, nextLeafHash, mut.Value)
 		if err != nil {
 			return nil, err
 		}
diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..63b9287 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -97,7 +97,7 @@ func (s *localServiceImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueR
 				if bytes.Equal(cur.LeafHash, nullLeafHash) {
 					dataRv = &pb.LeafData{} // empty value
 				} else {
-					dataRv, err = lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, cur.LeafHash)
+					dataRv, err = lookupMapValueByLeafHash(ctx, kr, cur.LeafHash)
 					if err != nil {
 						return err
 					}
diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index 31bebb5..4462a72 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -67,6 +67,9 @@ var (
 
 	objSizeKey    = []byte("metadata/size")
 	mapNodeBucket = []byte("map_node/")
+
+	// values of a map are kept apart from the entries of its mutation log
+	mapValueBucket = []byte("map_value/")
 )
 
 // Start pair
@@ -94,6 +97,25 @@ func lookupDataByLeafHash(ctx context.Context, kr KeyReader, lt pb.LogType, lh [
 
 // Start pair
 
+func writeMapValueByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
+	return kr.Set(ctx, makeStorageKey(mapValueBucket, lh), data)
+}
+
+func lookupMapValueByLeafHash(ctx context.Context, kr KeyReader, lh []byte) (*pb.LeafData, error) {
+	var m pb.LeafData
+	err := kr.Get(ctx, makeStorageKey(mapValueBucket, lh), &m)
+	if err == ErrNoSuchKey {
+		// values written by earlier versions share a bucket with the mutation log
+		return lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, lh)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return &m, nil
+}
+
+// Start pair
+
 func writeLeafNodeByIndex(ctx context.Context, kr KeyWriter, lt pb.LogType, idx int64, data *pb.LeafNode) error {
 	return kr.Set(ctx, makeStorageKey(buckets[leafNodeByIndex][lt], toIntBinary(uint64(idx))), data)
 }
-- 
2.43.0


From 758d26e4bf3e753644a654c4f283954794fd315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 04/49] fix: keep the extra data of stored map values when the
 same leaf input is set again

---
 verifiable/util_service_data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index 4462a72..f7dd901 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -97,7 +97,14 @@ func lookupDataByLeafHash(ctx context.Context, kr KeyReader, lt pb.LogType, lh [
 
 // Start pair
 
+// writeMapValueByLeafHash stores a value, unless one with this hash is there already: that one is
+// what reads at earlier tree sizes return, and so must not change.
 func writeMapValueByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
+	var m pb.LeafData
+	err := kr.Get(ctx, makeStorageKey(mapValueBucket, lh), &m)
+	if err != ErrNoSuchKey {
+		return err
+	}
 	return kr.Set(ctx, makeStorageKey(mapValueBucket, lh), data)
 }
 
-- 
2.43.0


From 552dc54ba4300dfa160cd371d1e4c1849770d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 05/49] fix: reject log inclusion proofs that are longer than
 RFC 9162 allows

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 5d42382..87821ac 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -145,6 +145,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 { // path is too long
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From 903f0df7551f8e7c0a32c4569fb88b39122f3442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 06/49] fix: do not loop forever in CalcK and IsPow2 above 2^62

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..08ee4bd 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < n/2+n%2 { // that is 2k < n, which could overflow
 		k <<= 1
 	}
 	return k
-- 
2.43.0


From fb6d67070a81e22b9cf995324c1346d17ae0fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 07/49] fix: do not panic on short audit paths or incomplete
 heads when verifying a map value

---
 verifiable/service_map_get_value.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 63b9287..c259fbf 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,14 +150,17 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if head.MutationLog == nil || self.TreeSize != head.MutationLog.TreeSize {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
-		p := self.AuditPath[i]
+		var p []byte
+		if i < len(self.AuditPath) { // a server may send fewer
+			p = self.AuditPath[i]
+		}
 		if len(p) == 0 { // some transport layers change nil to zero length, so we handle either in the same way
 			p = defaultLeafValues[i+1]
 		}
-- 
2.43.0


From 7049354ec0837969d5a2d4e58ba52a300f0ec368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 08/49] fix: call the map audit function only for mutations
 that change the map

---
 verifiable/util_map_audit.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..92ef88b 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -260,17 +260,18 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 
 			// Finally, if we actually made a change (ie the mutation did something)
 			// then call the underlying audit function provided by the client.
-			if a.MapAuditFunction != nil && !bytes.Equal(lastRootHash, rh) {
+			changed := !bytes.Equal(lastRootHash, rh)
+
+			// Save for next time
+			lastRootHash = rh
+
+			if a.MapAuditFunction != nil && changed {
 				err = a.MapAuditFunction(ctx, idx, mutation.Key, mutation.Value)
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
-			// Save for next time
-			lastRootHash = rh
-
 			return nil
 		})
 		if err != nil {
-- 
2.43.0


From c569ba27a915823e1dc62d8db8079cf062c973af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 09/49] fix: do not call the leaf data audit function for
 mutations without a value

---
 verifiable/util_map_audit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 92ef88b..2ec3795 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -225,7 +225,7 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				return err
 			}
 
-			if a.LeafDataAuditFunction != nil {
+			if a.LeafDataAuditFunction != nil && mutation.Value != nil { // a delete has no value
 				err = a.LeafDataAuditFunction(ctx, mutation.Value)
 				if err != nil {
 					return err
-- 
2.43.0


From 4e1c662b57de37c66d894f015b568d9fff3726c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 10/49] fix: look for the leaf hash of a map head in the
 previous tree head log head

---
 verifiable/api_highlevel_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..c5e7322 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -136,7 +136,7 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		if err != nil {
 			return nil, err
 		}
-		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, lh.LeafInput)
+		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, merkle.LeafHash(lh.LeafInput))
 		if err == nil {
 			verifiedInTreeHeadLog = true
 			thlth = prevThlth
-- 
2.43.0


From 0f57295c34b65080d39d68759757b0bbaebd95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 11/49] fix: do not panic when auditing entries without the
 fields they must have

---
 verifiable/util_json.go      | 6 +++---
 verifiable/util_map_audit.go | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..792da5e 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -116,7 +116,7 @@ func CreateJSONLeafDataFromObject(o interface{}) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	var o interface{}
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
@@ -183,8 +183,8 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
-	err := json.Unmarshal(entry.ExtraData, &o)
-	if err != nil {
+	err := json.Unmarshal(entry.GetExtraData(), &o)
+	if err != nil || o == nil {
 		return ErrVerificationFailed
 	}
 	if o.Value != nil {
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 2ec3795..e17b2ea 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -152,6 +152,10 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 		head = child
 	}
 
+	if mut.Value == nil && (mut.Action == "set" || mut.Action == "update") {
+		return nil, ErrVerificationFailed
+	}
+
 	switch mut.Action {
 	case "set":
 		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
@@ -306,6 +310,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// A tree head entry is only ever written for a map that has mutations
+	if mth.GetMutationLog().GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From 0532e8a294b111733f0c01a2c4926877643b1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 12/49] fix: require an audit path of the right shape when
 auditing from a previous head

---
 verifiable/api_highlevel_log.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..b17d270 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -18,6 +18,7 @@ package verifiable
 
 import (
 	"bytes"
+	"math/bits"
 	"time"
 
 	"github.com/continusec/verifiabledatastructures/merkle"
@@ -206,6 +207,10 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// one node for each complete subtree that makes up prev
+		if len(p.AuditPath) != bits.OnesCount64(uint64(prev.TreeSize)) {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
 			if firstHash == nil {
-- 
2.43.0


From 787386eb8d48b6dc675857cbc99dfba3b2bd7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 13/49] fix: ignore negative positions in X-Verified-Proof
 headers

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From 8d79364ef8469d673ffb3a9c5056358e566b647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 14/49] fix: start the next batch with the mutation that ended
 the previous one

---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..bb56259 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil // starts the next batch
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 705cde9cadc083fe2851fe4e30f78b1829184539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 15/49] fix: let field-restricted readers read absent map keys
 and deletes

---
 verifiable/util_permissions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..631c7c8 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -75,6 +75,9 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	if len(ld.GetLeafInput()) == 0 && len(ld.GetExtraData()) == 0 {
+		return ld, nil // no value, nothing to filter
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From 669af03df3caadba2e845a5bfc681f34c0f34530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 16/49] fix: report Badger read errors instead of treating them
 as an absent key

---
 storage/badger/storage_badger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..8ac55d3 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,9 +129,12 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return verifiable.ErrNoSuchKey
 	}
+	if err != nil {
+		return err
+	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
 	})
-- 
2.43.0


From 26ad405e73825f48a87e27f8d4f8616406ee4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 17/49] fix: execute updates of one Badger namespace one after
 another

---
 storage/badger/storage_badger.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 8ac55d3..f05b0da 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -37,6 +37,8 @@ type Storage struct {
 
 	dbLock sync.RWMutex
 	dbs    map[string]*badger.DB
+
+	updateLocks sync.Map // namespace to *sync.Mutex, as Badger refuses conflicting concurrent updates
 }
 
 // Close calls the underlying Close method on the BoltDBs which releases file locks.
@@ -112,12 +114,15 @@ func (bbs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 	})
 }
 
-// ExecuteUpdate executes an update query
+// ExecuteUpdate executes an update query. Updates of one namespace are executed one after another.
 func (bbs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
 	db, err := bbs.getOrCreateDB(namespace)
 	if err != nil {
 		return err
 	}
+	lock, _ := bbs.updateLocks.LoadOrStore(string(namespace), &sync.Mutex{})
+	lock.(*sync.Mutex).Lock()
+	defer lock.(*sync.Mutex).Unlock()
 	return db.Update(func(tx *badger.Txn) error {
 		return f(ctx, &badgerReaderWriter{Tx: tx})
 	})
-- 
2.43.0


From 0f146cddd353d32c630b7093e0e7616ff0e921f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 18/49] fix: treat a PUT with an empty X-Previous-LeafHash
 header as a conditional update

---
 server/httprest/server_http_handler.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..e9bd803 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -640,15 +640,11 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 }
 
 func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[string]string, w http.ResponseWriter, r *http.Request) {
-	prevLeafHashString := strings.TrimSpace(r.Header.Get("X-Previous-LeafHash"))
-	var prevLeafHash []byte
-	if len(prevLeafHashString) > 0 {
-		var err error
-		prevLeafHash, err = hex.DecodeString(prevLeafHashString)
-		if err != nil {
-			writeResponseHeader(as.logger, w, verifiable.ErrInvalidRequest)
-			return
-		}
+	_, isUpdate := r.Header[http.CanonicalHeaderKey("X-Previous-LeafHash")]
+	prevLeafHash, err := hex.DecodeString(strings.TrimSpace(r.Header.Get("X-Previous-LeafHash")))
+	if err != nil {
+		writeResponseHeader(as.logger, w, verifiable.ErrInvalidRequest)
+		return
 	}
 
 	body, err := io.ReadAll(r.Body)
@@ -664,7 +660,7 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if !isUpdate {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
-- 
2.43.0


From 9aae52acc3542612029d1eece2e5d8132ed24571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 19/49] fix: queue a copy of the log entry, as the caller may
 reuse the request

---
 verifiable/service_log_add_entry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..61a745e 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -24,6 +24,7 @@ import (
 	"golang.org/x/net/context"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 )
 
 // LogAddEntry adds an entry to a log
@@ -43,7 +44,7 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 	}
 
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
-		LogAddEntry: req,
+		LogAddEntry: proto.Clone(req).(*pb.LogAddEntryRequest), // may be applied after we return
 	})
 	if err != nil {
 		return nil, status.Errorf(codes.Internal, "error queuing mutation: %s", err)
-- 
2.43.0


From 63b8352af9dd2eee3a16d283d12bc84bbf40a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 20/49] fix: refuse incomplete and unknown requests instead of
 panicking

---
 verifiable/service_log_add_entry.go         | 12 ++++++++++++
 verifiable/service_log_consistency_proof.go |  4 ++++
 verifiable/service_log_fetch_entries.go     |  4 ++++
 verifiable/service_log_inclusion_proof.go   |  4 ++++
 verifiable/service_log_tree_hash.go         |  4 ++++
 verifiable/service_map_get_value.go         |  4 ++++
 verifiable/service_map_set_value.go         | 19 +++++++++++++++++++
 verifiable/service_map_tree_hash.go         |  4 ++++
 8 files changed, 55 insertions(+)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index 61a745e..98ac0f8 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -29,6 +29,10 @@ import (
 
 // LogAddEntry adds an entry to a log
 func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
+	if req.GetLog().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing log or account")
+	}
+
 	_, err := s.verifyAccessForLogOperation(ctx, req.Log, operationRawAdd)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
@@ -38,6 +42,14 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing value")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.PermissionDenied, "service is read-only")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_log_consistency_proof.go b/verifiable/service_log_consistency_proof.go
index 8c46eb0..97c1b2e 100644
--- a/verifiable/service_log_consistency_proof.go
+++ b/verifiable/service_log_consistency_proof.go
@@ -30,6 +30,10 @@ import (
 
 // LogConsistencyProof verifies the consisitency of a log
 func (s *localServiceImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
+	if req.GetLog().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing log or account")
+	}
+
 	_, err := s.verifyAccessForLogOperation(ctx, req.Log, operationReadHash)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
diff --git a/verifiable/service_log_fetch_entries.go b/verifiable/service_log_fetch_entries.go
index 2b4ad75..c186af5 100644
--- a/verifiable/service_log_fetch_entries.go
+++ b/verifiable/service_log_fetch_entries.go
@@ -29,6 +29,10 @@ import (
 
 // LogFetchEntries returns the log entries
 func (s *localServiceImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
+	if req.GetLog().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing log or account")
+	}
+
 	am, err := s.verifyAccessForLogOperation(ctx, req.Log, operationReadEntry)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 87821ac..24cbe33 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -39,6 +39,10 @@ func wrapClientError(err error) error {
 
 // LogInclusionProof returns an inclusion proof
 func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
+	if req.GetLog().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing log or account")
+	}
+
 	_, err := s.verifyAccessForLogOperation(ctx, req.Log, operationProveInclusion)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
diff --git a/verifiable/service_log_tree_hash.go b/verifiable/service_log_tree_hash.go
index 066616b..03d2abd 100644
--- a/verifiable/service_log_tree_hash.go
+++ b/verifiable/service_log_tree_hash.go
@@ -27,6 +27,10 @@ import (
 
 // LogTreeHash returns the log tree hash
 func (s *localServiceImpl) LogTreeHash(ctx context.Context, req *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
+	if req.GetLog().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing log or account")
+	}
+
 	_, err := s.verifyAccessForLogOperation(ctx, req.Log, operationReadHash)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index c259fbf..08167fd 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -30,6 +30,10 @@ import (
 
 // MapGetValue returns a value from a map
 func (s *localServiceImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
+	if req.GetMap().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing map or account")
+	}
+
 	am, err := s.verifyAccessForMap(ctx, req.Map, pb.Permission_PERM_MAP_GET_VALUE)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..46831b6 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -46,11 +46,30 @@ func makeJSONMutationEntry(req *pb.MapSetValueRequest) (*pb.MapMutation, error)
 
 // MapSetValue sets a value in a map
 func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
+	if req.GetMap().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing map or account")
+	}
+
 	_, err := s.verifyAccessForMap(ctx, req.Map, pb.Permission_PERM_MAP_SET_VALUE)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	// Refuse what could not be applied later
+	switch req.Mutation.GetAction() {
+	case "set", "update":
+		if req.Mutation.Value == nil {
+			return nil, status.Errorf(codes.InvalidArgument, "missing value")
+		}
+	case "delete":
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "missing mutation or unknown action")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.PermissionDenied, "service is read-only")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index 40cc95b..b9f3089 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -27,6 +27,10 @@ import (
 
 // MapTreeHash returns the tree hash for a map
 func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
+	if req.GetMap().GetAccount() == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing map or account")
+	}
+
 	_, err := s.verifyAccessForMap(ctx, req.Map, pb.Permission_PERM_MAP_GET_VALUE)
 	if err != nil {
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
-- 
2.43.0


From fc8415b26475d662b61760d17f51e6b5fda7e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 21/49] fix: create Bolt files whole

The first use of a namespace initializes its Bolt file. When the process was
killed within that, the file could be left without all of its first pages,
and opening it then crashed the process (SIGBUS in bbolt) on each later use of
that log or map. Initialize under a temporary name and link it into place.
---
 storage/bolt/storage_bolt.go | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/storage/bolt/storage_bolt.go b/storage/bolt/storage_bolt.go
index d34ae1d..f4d6de8 100644
--- a/storage/bolt/storage_bolt.go
+++ b/storage/bolt/storage_bolt.go
@@ -20,6 +20,7 @@ package bolt
 
 import (
 	"encoding/hex"
+	"os"
 	"path/filepath"
 	"sync"
 	"time"
@@ -93,7 +94,12 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*bolt.DB, error) {
 	}
 
 	// Get or create on distk
-	db, err := bolt.Open(filepath.Join(bbs.Path, key), 0600, &bolt.Options{Timeout: 1 * time.Second})
+	path := filepath.Join(bbs.Path, key)
+	err := ensureExists(path)
+	if err != nil {
+		return nil, err
+	}
+	db, err := bolt.Open(path, 0600, &bolt.Options{Timeout: 1 * time.Second})
 	if err != nil {
 		return nil, err
 	}
@@ -102,6 +108,38 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*bolt.DB, error) {
 	return db, nil
 }
 
+// ensureExists creates an empty database at path, unless there is a file already. It is
+// initialized under a temporary name first, since Bolt is unable to open (and crashes on)
+// a file that was left partially initialized, say by the process being killed.
+func ensureExists(path string) error {
+	_, err := os.Stat(path)
+	if !os.IsNotExist(err) {
+		return err
+	}
+	f, err := os.CreateTemp(filepath.Dir(path), "new-*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	err = f.Close()
+	if err != nil {
+		return err
+	}
+	db, err := bolt.Open(f.Name(), 0600, nil)
+	if err != nil {
+		return err
+	}
+	err = db.Close()
+	if err != nil {
+		return err
+	}
+	err = os.Link(f.Name(), path)
+	if os.IsExist(err) { // then another process got there first
+		return nil
+	}
+	return err
+}
+
 // ExecuteReadOnly executes a read only query
 func (bbs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
 	db, err := bbs.getOrCreateDB(namespace)
-- 
2.43.0


From 0c692e09e3060833637a469c65e0a5b57f2018f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 22/49] fix: the REST client refuses requests it cannot carry,
 as the service does

A nil log, map or account caused a panic, and a nil value was sent as an
empty one, which was then stored, where the service refuses it.
---
 server/httprest/client_http_rest.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 5427b01..0a4ba63 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -66,7 +66,14 @@ func (c *Client) MustDial() pb.VerifiableDataStructuresServiceServer {
 
 type httpRestImpl Client
 
+// errInvalidArgument is the answer, as that of the service, to requests that lack a part or have
+// an unknown action. They cannot be carried over HTTP, where they would look like another request.
+var errInvalidArgument = status.Error(codes.InvalidArgument, "incomplete request")
+
 func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if log.GetAccount() == nil {
+		return nil, nil, errInvalidArgument
+	}
 	prefix := ""
 	switch log.LogType {
 	case pb.LogType_STRUCT_TYPE_LOG:
@@ -82,6 +89,9 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 }
 
 func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if vmap.GetAccount() == nil {
+		return nil, nil, errInvalidArgument
+	}
 	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
@@ -131,6 +141,9 @@ func (c *httpRestImpl) makeRequest(account *pb.AccountRef, method, path string,
 
 // LogAddEntry adds an entry to the log.
 func (c *httpRestImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
+	if req.Value == nil {
+		return nil, errInvalidArgument
+	}
 	reqData, err := json.Marshal(req.Value)
 	if err != nil {
 		return nil, err
@@ -218,6 +231,9 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 
 // MapSetValue sets a value in the map
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
+	if req.Mutation == nil || (req.Mutation.Value == nil && req.Mutation.Action != "delete") {
+		return nil, errInvalidArgument
+	}
 	switch req.Mutation.Action {
 	case "delete":
 		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
@@ -263,7 +279,7 @@ func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueReque
 		}
 		return &rv, nil
 	default:
-		return nil, verifiable.ErrInvalidRequest
+		return nil, errInvalidArgument
 	}
 }
 
-- 
2.43.0


From 4962980d3d0e798fcf138cef70b32ee79fe99b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:17 +0000
Subject: [PATCH 23/49] fix: carry messages over 4 MB over gRPC

The entries of a log could not be read over gRPC when those asked for came to
more than 4 MB (as 500 of 10 kB do, which is what streaming asks for at a
time), nor larger entries be added, while both work in process and over REST.
---
 server/grpc/client_grpc.go | 6 +++++-
 server/grpc/server_grpc.go | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/grpc/client_grpc.go b/server/grpc/client_grpc.go
index 8bbc05d..f54e82e 100644
--- a/server/grpc/client_grpc.go
+++ b/server/grpc/client_grpc.go
@@ -21,6 +21,7 @@ import (
 	"crypto/x509"
 	"errors"
 	"log"
+	"math"
 
 	"golang.org/x/net/context"
 
@@ -52,7 +53,10 @@ type Client struct {
 // Dial connects to the server and returns an object to communicate with it.
 // Most users will wrap this with the higher-level API.
 func (g *Client) Dial() (pb.VerifiableDataStructuresServiceServer, error) {
-	var dialOptions []grpc.DialOption
+	dialOptions := []grpc.DialOption{
+		// The default is to refuse responses over 4 MB, as the entries of a log can well be
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(math.MaxInt32)),
+	}
 	if g.NoGrpcSecurity {
 		log.Println("WARNING: Disabling TLS  when connecting to gRPC server")
 		dialOptions = append(dialOptions, grpc.WithInsecure())
diff --git a/server/grpc/server_grpc.go b/server/grpc/server_grpc.go
index d493805..cdbfffd 100644
--- a/server/grpc/server_grpc.go
+++ b/server/grpc/server_grpc.go
@@ -20,6 +20,7 @@ package grpc
 
 import (
 	"log"
+	"math"
 	"net"
 
 	"google.golang.org/grpc"
@@ -35,16 +36,18 @@ func StartServer(conf *pb.ServerConfig, server pb.VerifiableDataStructuresServic
 	if err != nil {
 		log.Fatalf("Error establishing server listener: %s\n", err)
 	}
+	// The default is to refuse requests over 4 MB, which are fine in process and over REST
+	maxSize := grpc.MaxRecvMsgSize(math.MaxInt32)
 	var grpcServer *grpc.Server
 	if conf.InsecureServerForTesting {
 		log.Println("WARNING: InsecureServerForTesting is set, your connections will not be encrypted")
-		grpcServer = grpc.NewServer()
+		grpcServer = grpc.NewServer(maxSize)
 	} else {
 		tc, err := credentials.NewServerTLSFromFile(conf.ServerCertPath, conf.ServerKeyPath)
 		if err != nil {
 			log.Fatalf("Error reading server keys/certs: %s\n", err)
 		}
-		grpcServer = grpc.NewServer(grpc.Creds(tc))
+		grpcServer = grpc.NewServer(maxSize, grpc.Creds(tc))
 	}
 
 	pb.RegisterVerifiableDataStructuresServiceServer(grpcServer, server)
-- 
2.43.0


From 7459dcb49be0207f1d5d836e6350ac7500209605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 24/49] fix: answer malformed REST requests with 400

---
 server/httprest/server_http_handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index e9bd803..b3d2157 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -286,7 +286,11 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 
 	s, ok := status.FromError(err)
 	if !ok {
-		w.WriteHeader(http.StatusInternalServerError)
+		if err == verifiable.ErrInvalidRequest {
+			w.WriteHeader(http.StatusBadRequest)
+		} else {
+			w.WriteHeader(http.StatusInternalServerError)
+		}
 		return
 	}
 
-- 
2.43.0


From 928af89f5d4138b454f5d39d27cf09f77add2d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 25/49] fix: follow a log from its empty head

VerifiedTreeHead and VerifiedLatestTreeHead failed for ever when given the
head they had returned for an empty log, as consistency was asked for
between it and the next.
---
 verifiable/api_highlevel_log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index b17d270..67b55fa 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -151,7 +151,8 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, err
 	}
 
-	if prev != nil {
+	// every log is consistent with an empty one
+	if prev != nil && prev.TreeSize > 0 {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 87b2266734356da9f112067a751cb7a4699304e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 26/49] fix: accept the gRPC client's certificate as DER

---
 server/grpc/client_grpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/grpc/client_grpc.go b/server/grpc/client_grpc.go
index f54e82e..4586a00 100644
--- a/server/grpc/client_grpc.go
+++ b/server/grpc/client_grpc.go
@@ -63,7 +63,9 @@ func (g *Client) Dial() (pb.VerifiableDataStructuresServiceServer, error) {
 	} else if len(g.CertDer) != 0 {
 		// use baked in cert
 		cp := x509.NewCertPool()
-		if !cp.AppendCertsFromPEM([]byte(g.CertDer)) {
+		if cert, err := x509.ParseCertificate(g.CertDer); err == nil {
+			cp.AddCert(cert)
+		} else if !cp.AppendCertsFromPEM(g.CertDer) { // PEM has always been accepted too
 			return nil, ErrNoCertsFound
 		}
 		dialOptions = append(dialOptions, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: cp})))
-- 
2.43.0


From a819cf4f33ccd5834787213a43cab4d0b4316d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 27/49] fix: let the Postgres storage use a pool of connections

---
 storage/postgres/storage-postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..278bb0b 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -16,7 +16,8 @@ import (
 // Storage implements a Postgresql backed storage layer, suitable for use with the
 // verifiabledatastructures library.
 type Storage struct {
-	Pool *pgxpool.Conn
+	// Pool of connections to the database. Each transaction uses a connection of its own.
+	Pool *pgxpool.Pool
 
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
-- 
2.43.0


From 01aee9f6ffaf4157d55cdc352da4f1a5e845e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 28/49] fix: read from Postgres at one moment

---
 storage/postgres/storage-postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 278bb0b..7a66938 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -118,7 +118,8 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	// All that is read must be of one moment, updates may commit meanwhile.
+	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{IsoLevel: pgx.RepeatableRead, AccessMode: pgx.ReadOnly})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From dd3ed0556526a479a53dc2ea0ec44668592f2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 29/49] fix: JavaScript client: send bytes as they are, and
 read JSON as UTF-8

---
 assets/static/continusec.js | 39 ++++++++++++++++++++++++++++++++-----
 assets/static/index.html    |  6 +++---
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index ca09554..a5c3495 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -163,7 +163,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, success,
     req.open(method, this.baseURL + "/v2/account/" + this.account + path, true);
     req.responseType = "arraybuffer";
     req.setRequestHeader("Authorization", 'Key ' + this.apiKey);
-    req.send(data);
+    req.send(data === null ? null : stringToBinaryArray(data));
 };
 
 /**
@@ -1261,7 +1261,7 @@ JsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {JsonEntry} the new entry.
  */
-JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : atob(b.extra_data)); };
+JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : bytesToText(atob(b.extra_data))); };
 
 /**
  * Singleton instance of JsonEntryFactory ready for your use.
@@ -1288,7 +1288,7 @@ RedactedJsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {RedactedJsonEntry} the new entry.
  */
-RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(atob(b.extra_data)); };
+RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(b.extra_data == undefined ? "" : bytesToText(atob(b.extra_data))); };
 
 /**
  * Singleton instance of RedactedJsonEntryFactory ready for your use.
@@ -1367,7 +1367,7 @@ JsonEntry.prototype.getFormat = function () {
  * @return {string} the data
  */
 JsonEntry.prototype.getDataForUpload = function () {
-	return this.data;
+	return textToBytes(this.data);
 }
 
 /**
@@ -1412,7 +1412,7 @@ RedactableJsonEntry.prototype.getFormat = function () {
  * @return {string} the data
  */
 RedactableJsonEntry.prototype.getDataForUpload = function () {
-	return this.data;
+	return textToBytes(this.data);
 }
 
 /**
@@ -1577,6 +1577,35 @@ function binaryArrayToString(d) {
     return rv;
 }
 
+/**
+ * @private
+ */
+function stringToBinaryArray(s) {
+    var rv = new Uint8Array(s.length);
+    for (var j = 0; j < s.length; j++) {
+        rv[j] = s.charCodeAt(j);
+    }
+    return rv;
+}
+
+/**
+ * Encode text as UTF-8, in the form used for raw data: a string with one character per byte.
+ * @param {string} s the text
+ * @return {string} the UTF-8 bytes of the text, one character per byte.
+ */
+function textToBytes(s) {
+    return unescape(encodeURIComponent(s));
+}
+
+/**
+ * Inverse of textToBytes.
+ * @param {string} b UTF-8 bytes, one character per byte.
+ * @return {string} the text.
+ */
+function bytesToText(b) {
+    return new TextDecoder("utf-8").decode(stringToBinaryArray(b));
+}
+
 /**
  * @private
  */
diff --git a/assets/static/index.html b/assets/static/index.html
index 75a9394..b4875c0 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -269,7 +269,7 @@
                 });
 
                 $("#addRawLog").click(function () {
-                    addToLog(new RawDataEntry($("#logEntryText").val()));
+                    addToLog(new RawDataEntry(textToBytes($("#logEntryText").val())));
                     return false;
                 });
                 $("#addJSONLog").click(function () {
@@ -289,7 +289,7 @@
                     return false;
                 });
                 $("#inclRawLog").click(function () {
-                    getLogInclusion(new RawDataEntry($("#inclEntryText").val()));
+                    getLogInclusion(new RawDataEntry(textToBytes($("#inclEntryText").val())));
                     return false;
                 });
                 $("#inclJSONLog").click(function () {
@@ -298,7 +298,7 @@
                 });
 
                 $("#addRawMap").click(function () {
-                    addToMap(new RawDataEntry($("#mapEntryText").val()));
+                    addToMap(new RawDataEntry(textToBytes($("#mapEntryText").val())));
                     return false;
                 });
                 $("#addJSONMap").click(function () {
-- 
2.43.0


From 42e300cf20d82db23405875be974a3774700cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 30/49] fix: JavaScript client: find the audit path of proofs
 by index, and allow empty ones

---
 assets/static/continusec.js | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index a5c3495..f889867 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -673,10 +673,7 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
 	var lh = leaf.getLeafHash();
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/h/" + hexString(lh), null, function (data, req) {
         var obj = JSON.parse(data);
-        var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
-        }
+        var auditPath = decodeAuditPath(obj.audit_path);
         success(new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
         failure(reason);
@@ -694,10 +691,7 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
 VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/" + leafIndex, null, function (data, req) {
         var obj = JSON.parse(data);
-        var auditPath = [];
-        for (var i = 0; i < obj.proof.length; i++) {
-            auditPath.push(atob(obj.proof[i]));
-        }
+        var auditPath = decodeAuditPath(obj.audit_path);
         success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
         failure(reason);
@@ -736,10 +730,7 @@ VerifiableLog.prototype.verifyInclusion = function (head, leaf, success, failure
 VerifiableLog.prototype.getConsistencyProof = function (firstSize, secondSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + secondSize + "/consistency/" + firstSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
-        }
+        var auditPath = decodeAuditPath(obj.audit_path);
         success(new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), auditPath));
     }, function (reason) {
         failure(reason);
@@ -1606,6 +1597,20 @@ function bytesToText(b) {
     return new TextDecoder("utf-8").decode(stringToBinaryArray(b));
 }
 
+/**
+ * An empty audit path is left out of the response.
+ * @private
+ */
+function decodeAuditPath(p) {
+    var rv = [];
+    if ((p !== undefined) && (p !== null)) {
+        for (var i = 0; i < p.length; i++) {
+            rv.push(atob(p[i]));
+        }
+    }
+    return rv;
+}
+
 /**
  * @private
  */
-- 
2.43.0


From feb20378aae34ace86cfe91f9fab299eec204f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 31/49] fix: JavaScript client: decode the entry that getEntry
 fetches

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index f889867..1f4ffe1 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -549,7 +549,7 @@ VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
  */
 VerifiableLog.prototype.getEntry = function (idx, factory, success, failure) {
     this.client.makeRequest("GET", this.path + "/entry/" + idx + "/extra", null, function (data, req) {
-        success(factory.createFromLeafData(data, idx));
+        success(factory.createFromLeafData(JSON.parse(data)));
     }, function (reason) {
         failure(reason);
     });
-- 
2.43.0


From 6304df8628e0ce801444b9eabe3c2f38de4e1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 32/49] fix: JavaScript client: read the head of an empty log

---
 assets/static/continusec.js | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 1f4ffe1..7d7b9bd 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -395,7 +395,7 @@ VerifiableMap.prototype.deleteValue = function (key, success, failure) {
 VerifiableMap.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), atob(obj.mutation_log.root_hash)), atob(obj.root_hash)));
+        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), decodeRootHash(obj.mutation_log.root_hash)), atob(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -533,7 +533,7 @@ VerifiableLog.prototype.add = function (value, success, failure) {
 VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogTreeHead(protoNumber(obj.tree_size), obj.root_hash === null ? null : atob(obj.root_hash)));
+        success(new LogTreeHead(protoNumber(obj.tree_size), decodeRootHash(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -1611,6 +1611,14 @@ function decodeAuditPath(p) {
     return rv;
 }
 
+/**
+ * The root hash of an empty log is left out of the response.
+ * @private
+ */
+function decodeRootHash(h) {
+    return ((h === undefined) || (h === null)) ? null : atob(h);
+}
+
 /**
  * @private
  */
-- 
2.43.0


From f7d7c3be7793735066cff9db5518219a5e40f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 33/49] fix: JavaScript client: follow a log from its empty
 head, and only to the size asked for

---
 assets/static/continusec.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 7d7b9bd..50cb4be 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -817,7 +817,9 @@ VerifiableLog.prototype.getVerifiedTreeHead = function (prev, treeSize, success,
     } else {
         var log = this;
         this.getTreeHead(treeSize, function (head) {
-            if (prev == null) {
+            if ((treeSize != 0) && (head.getTreeSize() != treeSize)) {
+                failure(CONTINUSEC_VERIFICATION_ERROR);
+            } else if ((prev == null) || (prev.getTreeSize() == 0)) { // every log is consistent with an empty one
                 success(head);
             } else {
                 log.verifyConsistency(prev, head, function () {
-- 
2.43.0


From a8e52b8d6da1e4c7f3c4cebdf8b6a42ef6f9e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 34/49] fix: JavaScript client: allow asking for the state of
 an empty map, and check the size of others

---
 assets/static/continusec.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 50cb4be..3065ee7 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -456,6 +456,8 @@ VerifiableMap.prototype.getVerifiedLatestMapState = function (prev, success, fai
  * as all future LogTreeHeads can also be proven to contain the MapTreeHead.
  *
  * Typical clients that only need to access current data will instead use getVerifiedLatestMapState()
+ * The state of an empty map is null.
+ *
  * @param {MapTreeState} prev previously held MapTreeState, may be null to skip consistency checks.
  * @param {treeSize} treeSize the tree size to retrieve the hash for. Pass HEAD (0) to get the
  * latest tree size.
@@ -468,7 +470,11 @@ VerifiableMap.prototype.getVerifiedMapState = function (prev, treeSize, success,
     } else {
         var map = this;
         map.getTreeHead(treeSize, function (mapHead) {
-            if (prev != null) {
+            if ((treeSize != 0) && (mapHead.getTreeSize() != treeSize)) {
+                failure(CONTINUSEC_VERIFICATION_ERROR);
+            } else if ((prev == null) && (mapHead.getTreeSize() == 0)) {
+                success(null);
+            } else if (prev != null) {
                 map.getMutationLog().verifyConsistency(prev.getMapHead().getMutationLogTreeHead(), mapHead.getMutationLogTreeHead(), function () {
                     secondStageMapVerified(map, prev, mapHead, success, failure);
                 }, failure);
-- 
2.43.0


From 6c99920a2c043073793e34c989647867c91d6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 35/49] fix: JavaScript client: audit an empty log

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 3065ee7..a260cc9 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -601,7 +601,7 @@ VerifiableLog.prototype.getEntries = function (startIdx, endIdx, factory, each,
  * @param {failureCallback} failure called on failure
  */
 VerifiableLog.prototype.verifyEntries = function (prev, head, factory, each, success, failure) {
-    if ((prev == null) || (prev.getTreeSize() < head.getTreeSize())) {
+    if (((prev == null) ? 0 : prev.getTreeSize()) < head.getTreeSize()) {
         var log = this;
         var stack = [];
         if ((prev != null) && (prev.getTreeSize() > 0)) {
-- 
2.43.0


From 104f2591a1b0a56db583daa4d3db16ee418b09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 36/49] fix: JavaScript client: tell a refused request from an
 internal error

---
 assets/static/continusec.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index a260cc9..26475a6 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -144,6 +144,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, success,
         case 400:
             failure(CONTINUSEC_INVALID_RANGE_ERROR);
             break;
+        case 401:
         case 403:
             failure(CONTINUSEC_UNAUTHORIZED_ERROR);
             break;
-- 
2.43.0


From 5c5fe64c3c263d9db444adf8265157a5e39776c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 37/49] fix: JavaScript client: reject proofs that cannot be
 valid instead of returning false

---
 assets/static/continusec.js | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 26475a6..4811403 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1019,14 +1019,14 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     }
 
     if (newProof.length === 0) {
-        return false;
+    	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fr = newProof[0];
     var sr = newProof[0];
     for (i = 1; i < newProof.length; i++) {
         if (sn === 0) {
-            return false;
+    	    throw CONTINUSEC_VERIFICATION_ERROR;
         }
         if (((fn & 1) == 1) || (fn == sn)) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
@@ -1108,7 +1108,7 @@ LogInclusionProof.prototype.verify = function (head) {
 	}
 
     if ((this.leafIndex >= this.treeSize) || (this.leafIndex < 0)) {
-        return false;
+    	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fn = this.leafIndex;
@@ -1116,6 +1116,9 @@ LogInclusionProof.prototype.verify = function (head) {
     var r = this.leafHash;
 
     for (var i = 0; i < this.auditPath.length; i++) {
+        if (sn === 0) {
+    	    throw CONTINUSEC_VERIFICATION_ERROR;
+        }
         if ((fn == sn) || ((fn & 1) == 1)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-- 
2.43.0


From a4457e43333c331610c49f7d05765832bd87ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 38/49] fix: JavaScript client: follow paths in trees of over
 2^31 leaves

---
 assets/static/continusec.js | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 4811403..70074e5 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -644,7 +644,7 @@ function secondStageVerifyEntries(stack, log, prev, head, factory, each, success
         each(idx, entry);
 
         stack.push(entry.getLeafHash());
-        for (var z = idx; (z & 1) == 1; z >>= 1) {
+        for (var z = idx; (z & 1) == 1; z = Math.floor(z / 2)) {
             var right = stack.pop();
             var left = stack.pop();
             stack.push(nodeMerkleTreeHash(left, right));
@@ -1014,8 +1014,8 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     var fn = this.firstSize - 1;
     var sn = this.secondSize - 1;
     while ((fn & 1) == 1) {
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (newProof.length === 0) {
@@ -1032,14 +1032,14 @@ LogConsistencyProof.prototype.verify = function (first, second) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
             sr = nodeMerkleTreeHash(newProof[i], sr);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+                fn = Math.floor(fn / 2);
+                sn = Math.floor(sn / 2);
             }
         } else {
             sr = nodeMerkleTreeHash(sr, newProof[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (sn != 0) {
@@ -1122,14 +1122,14 @@ LogInclusionProof.prototype.verify = function (head) {
         if ((fn == sn) || ((fn & 1) == 1)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+                fn = Math.floor(fn / 2);
+                sn = Math.floor(sn / 2);
             }
         } else {
             r = nodeMerkleTreeHash(r, this.auditPath[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (sn != 0) {
-- 
2.43.0


From e32627a23d4f9a62a045d8a419de7ca47686833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 39/49] fix: JavaScript client: audit on from the subtrees of
 the previous head only

---
 assets/static/continusec.js | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 70074e5..59f77af 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -607,6 +607,14 @@ VerifiableLog.prototype.verifyEntries = function (prev, head, factory, each, suc
         var stack = [];
         if ((prev != null) && (prev.getTreeSize() > 0)) {
             this.getInclusionProofByIndex(prev.getTreeSize()+1, prev.getTreeSize(), function (proof) {
+                var expected = 0; // one subtree for each bit set in the size
+                for (var n = prev.getTreeSize(); n > 0; n = Math.floor(n / 2)) {
+                    expected += n % 2;
+                }
+                if (proof.getAuditPath().length != expected) {
+                    failure(CONTINUSEC_VERIFICATION_ERROR);
+                    return;
+                }
                 var firstHash = null;
                 for (var i = 0; i < proof.getAuditPath().length; i++) {
                     if (firstHash == null) {
-- 
2.43.0


From 217c65cf053c0b070ec782d94e06284d2a19f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 40/49] fix: JavaScript client: do not hang on numbers too
 large to be represented

---
 assets/static/continusec.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 59f77af..c15dbc8 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1809,6 +1809,9 @@ function objectHashWithRedaction(o, prefix) {
 		if (o == 0.0) { // special case 0
 			return sha256('f+0:');
 		}
+		if ((o === Infinity) || (o === -Infinity)) { // a number in JSON that is too large
+			throw CONTINUSEC_VERIFICATION_ERROR;
+		}
 		var s = "+";
 		if (o < 0) {
 			s = "-";
-- 
2.43.0


From fe4753e68fc03771ad8a734ea3ece2d26cdb9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 41/49] fix: JavaScript client: keep waiting for an entry that
 is not there yet

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index c15dbc8..9a1c80e 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -889,7 +889,7 @@ function doBlockRound(log, lastHead, secsToSleep, leaf, success, failure) {
             log.verifyInclusion(lth, leaf, function () {
                 success(lth);
             }, function (reason) {
-                if (reason == CONTINUSEC_INVALID_RANGE_ERROR) {
+                if ((reason == CONTINUSEC_INVALID_RANGE_ERROR) || (reason == CONTINUSEC_NOT_FOUND_ERROR)) {
                     secsToSleep = 1;
                     setTimeout(function () { doBlockRound(log, lth.getTreeSize(), secsToSleep, leaf, success, failure); }, secsToSleep * 1000);
                 } else {
-- 
2.43.0


From b4bb6e152d6825a8892728db566b7a3a01e23b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 42/49] fix: JavaScript client: hash the mutations of a map as
 they are stored

---
 assets/static/continusec.js | 64 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 9a1c80e..cd3e218 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -180,7 +180,7 @@ var VerifiableMap = function (client, path) {
 /**
  * Get a pointer to the mutation log that underlies this verifiable map. Since the mutation log
  * is managed by the map, it cannot be directly modified, however all read operations are supported.
- * Note that mutations themselves are stored as {@link JsonEntry} format, so {@link JsonEntryFactory#getInstance()} should
+ * Note that mutations themselves are stored as {@link MutationEntry} format, so {@link MutationEntryFactory} should
  * be used for entry retrieval.
  * @return {VerifiableLog} the mutation log.
  */
@@ -1280,6 +1280,32 @@ JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEn
 var JSON_ENTRY_FACTORY = new JsonEntryFactory();
 
 
+/**
+ * Constructor - class is stateless so it takes no parameters.
+ * @constructor
+ * @classdesc
+ * Factory that produces MutationEntry instances upon request.
+ */
+var MutationEntryFactory = function () {};
+
+/**
+ * Returns the suffix added to calls to GET /entry/xxx
+ * @return {string} the suffix to add.
+ */
+MutationEntryFactory.prototype.getFormat = function () { return "/xjson"; };
+
+/**
+ * Instantiate a new entry from bytes as returned by server.
+ * @param {string} bytes the bytes as returned by the server.
+ * @return {MutationEntry} the new entry.
+ */
+MutationEntryFactory.prototype.createFromLeafData = function (b) { return new MutationEntry(b.extra_data == undefined ? "" : bytesToText(atob(b.extra_data))); };
+
+/**
+ * Singleton instance of MutationEntryFactory ready for your use.
+ */
+var MUTATION_ENTRY_FACTORY = new MutationEntryFactory();
+
 /**
  * Constructor - class is stateless so it takes no parameters.
  * @constructor
@@ -1397,6 +1423,42 @@ JsonEntry.prototype.getLeafHash = function () {
 	return leafMerkleTreeHash(this.data == "" ? "" : objectHashWithStdRedaction(JSON.parse(this.data)));
 }
 
+/**
+ * Constructor.
+ * @param {string} data the JSON for this mutation.
+ * @constructor
+ * @classdesc
+ * Class to represent the entries of the mutation log of a map. They are JSON, of which the
+ * extra data and the format of the value set are not part of what is hashed.
+ */
+var MutationEntry = function (data) {
+	this.data = data;
+}
+
+/**
+ * Get the data for processing.
+ * @return {string} the data
+ */
+MutationEntry.prototype.getData = function () {
+	return this.data;
+}
+
+/**
+ * Calculate the leaf hash for this entry.
+ * @return {string} the Merkle Tree leaf hash for this entry.
+ */
+MutationEntry.prototype.getLeafHash = function () {
+	if (this.data == "") {
+		return leafMerkleTreeHash("");
+	}
+	var o = JSON.parse(this.data);
+	if ((o !== null) && (o.value !== null) && ((typeof o.value) == "object")) {
+		delete o.value.extra_data;
+		delete o.value.format;
+	}
+	return leafMerkleTreeHash(objectHashWithStdRedaction(o));
+}
+
 /**
  * Constructor.
  * @param {string} data the raw data representing the JSON for this entry.
-- 
2.43.0


From c71f23b7ca6cb7f6c6730f202226d89a20593345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 43/49] fix: JavaScript client: keep a member called __proto__

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index cd3e218..9cbbeb6 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1954,7 +1954,7 @@ function shedRedacted(o, prefix) {
 			var v = o[k];
 			if (v instanceof Array) {
 				if (v.length == 2) {
-					rv[k] = shedRedacted(v[1], prefix);
+					Object.defineProperty(rv, k, {value: shedRedacted(v[1], prefix), writable: true, enumerable: true, configurable: true});
 				} else {
 					return undefined;
 				}
-- 
2.43.0


From a8a58dd3b4d4d788097ff6299820270efb47c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 44/49] fix: JavaScript client: reject sizes and indices that
 are not whole numbers

---
 assets/static/continusec.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 9cbbeb6..8163487 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -207,7 +207,8 @@ function protoNumber(n) {
     if (n == undefined) {
         return 0;
     } else {
-        return Number(n);
+        var rv = Number(n);
+        return Math.floor(rv) === rv ? rv : NaN;
     }
 }
 
@@ -1115,7 +1116,7 @@ LogInclusionProof.prototype.verify = function (head) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
 	}
 
-    if ((this.leafIndex >= this.treeSize) || (this.leafIndex < 0)) {
+    if (!((this.leafIndex < this.treeSize) && (this.leafIndex >= 0))) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
-- 
2.43.0


From 0f421f602c33bd2f2bd2c7a7e9c716aacd867531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 45/49] fix: JavaScript client: wait for the first entry of a
 log

---
 assets/static/continusec.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 8163487..46df793 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -886,7 +886,10 @@ VerifiableLog.prototype.blockUntilPresent = function (leaf, success, failure) {
  */
 function doBlockRound(log, lastHead, secsToSleep, leaf, success, failure) {
     log.getTreeHead(0, function (lth) {
-        if (lth.getTreeSize() > lastHead) {
+        if ((lth.getTreeSize() == 0) && (lastHead < 0)) { // nothing to be included in yet
+            secsToSleep = 1;
+            setTimeout(function () { doBlockRound(log, 0, secsToSleep, leaf, success, failure); }, secsToSleep * 1000);
+        } else if (lth.getTreeSize() > lastHead) {
             log.verifyInclusion(lth, leaf, function () {
                 success(lth);
             }, function (reason) {
-- 
2.43.0


From 4fe1823b84e62b959e731c773752327711395026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 46/49] fix: reject proofs with hashes that are not 32 bytes
 long

---
 verifiable/api_highlevel_log.go             | 3 +++
 verifiable/service_log_consistency_proof.go | 5 +++++
 verifiable/service_log_inclusion_proof.go   | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 67b55fa..b71682d 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -214,6 +214,9 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
+			if len(b) != 32 { // else what is hashed can be split into left and right in more than one way
+				return ErrVerificationFailed
+			}
 			if firstHash == nil {
 				firstHash = b
 			} else {
diff --git a/verifiable/service_log_consistency_proof.go b/verifiable/service_log_consistency_proof.go
index 97c1b2e..9daba97 100644
--- a/verifiable/service_log_consistency_proof.go
+++ b/verifiable/service_log_consistency_proof.go
@@ -139,6 +139,11 @@ func VerifyLogConsistencyProof(self *pb.LogConsistencyProofResponse, first, seco
 	if len(proof) == 0 {
 		return ErrVerificationFailed
 	}
+	for _, c := range proof {
+		if len(c) != 32 { // else what is hashed can be split into left and right in more than one way
+			return ErrVerificationFailed
+		}
+	}
 	fr := proof[0]
 	sr := proof[0]
 	for _, c := range proof[1:] {
diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 24cbe33..2786099 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -146,9 +146,16 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 		return ErrVerificationFailed
 	}
 
+	if len(leafHash) != 32 {
+		return ErrVerificationFailed
+	}
+
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if len(p) != 32 { // else what is hashed can be split into left and right in more than one way
+			return ErrVerificationFailed
+		}
 		if sn == 0 { // path is too long
 			return ErrVerificationFailed
 		}
-- 
2.43.0


From 5bf002695ded1312d86aed1425f9d37b48eaa214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 47/49] fix: JavaScript client: reject proofs with hashes that
 are not 32 bytes long

---
 assets/static/continusec.js | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 46df793..351f909 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -618,6 +618,10 @@ VerifiableLog.prototype.verifyEntries = function (prev, head, factory, each, suc
                 }
                 var firstHash = null;
                 for (var i = 0; i < proof.getAuditPath().length; i++) {
+                    if (proof.getAuditPath()[i].length != 32) { // else what is hashed can be split into left and right in more than one way
+                        failure(CONTINUSEC_VERIFICATION_ERROR);
+                        return;
+                    }
                     if (firstHash == null) {
                         firstHash = proof.getAuditPath()[i];
                     } else {
@@ -1034,6 +1038,12 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
+    for (i = 0; i < newProof.length; i++) {
+        if ((newProof[i] === null) || (newProof[i].length != 32)) { // else what is hashed can be split into left and right in more than one way
+    	    throw CONTINUSEC_VERIFICATION_ERROR;
+        }
+    }
+
     var fr = newProof[0];
     var sr = newProof[0];
     for (i = 1; i < newProof.length; i++) {
@@ -1127,7 +1137,14 @@ LogInclusionProof.prototype.verify = function (head) {
     var sn = this.treeSize - 1;
     var r = this.leafHash;
 
+    if ((r === null) || (r.length != 32)) {
+    	throw CONTINUSEC_VERIFICATION_ERROR;
+    }
+
     for (var i = 0; i < this.auditPath.length; i++) {
+        if (this.auditPath[i].length != 32) { // else what is hashed can be split into left and right in more than one way
+    	    throw CONTINUSEC_VERIFICATION_ERROR;
+        }
         if (sn === 0) {
     	    throw CONTINUSEC_VERIFICATION_ERROR;
         }
-- 
2.43.0


From f32c706a753d97eb91936840f5ca64c9a1c2eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 48/49] fix: end a wait when its context ends

---
 verifiable/api_highlevel_log.go | 6 +++++-
 verifiable/api_highlevel_map.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index b71682d..0dd7fbd 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -110,7 +110,11 @@ func (log *Log) BlockUntilPresent(ctx context.Context, leaf []byte) (*pb.LogTree
 			// no luck, snooze a bit longer
 			timeToSleep *= 2
 		}
-		time.Sleep(timeToSleep)
+		select {
+		case <-time.After(timeToSleep):
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		}
 	}
 }
 
diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index c5e7322..3df9bdf 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -62,7 +62,11 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 			// no luck, snooze a bit longer
 			timeToSleep *= 2
 		}
-		time.Sleep(timeToSleep)
+		select {
+		case <-time.After(timeToSleep):
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		}
 	}
 }
 
-- 
2.43.0


From 39d798eb8cff8ca9d6c9600c4af55eca3e574b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 49/49] fix: JavaScript client: reject redacted values whose
 hash is not 32 bytes long

---
 assets/static/continusec.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 351f909..c1a9839 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1884,7 +1884,11 @@ function objectHashWithRedaction(o, prefix) {
 		return sha256('l' + input);
 	} else if ((typeof o) == "string") {
 		if (prefix.length > 0 && o.startsWith(prefix)) {
-			return decodeHex(o.substring(prefix.length));
+			var h = decodeHex(o.substring(prefix.length));
+			if (h.length != 32) { // else it can stand for more or less than one value
+				throw CONTINUSEC_VERIFICATION_ERROR;
+			}
+			return h;
 		} else {
 			return sha256('u' + normalizeFunction(o));
 		}
-- 
2.43.0

