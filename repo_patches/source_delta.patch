From 6b6a82349d3acb31639f37f019ac1ad85d7bf066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 01/28] fix: batch mutator kept the wrong mutation when the
 target changed

When the next queued mutation was for another log or map, handleBatch handed
back the one that had started the batch instead of the one it just took off
the queue: the former was applied again and the latter was lost.
---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 508b19369079e4fd246a3980ca25ecee8a77df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 02/28] fix: batch mutator held a batch for as long as
 mutations kept arriving

The timeout was started afresh for every mutation added to a batch, so a
steady trickle with gaps below it kept accepted mutations invisible until the
batch was full. Start it once per batch.
---
 mutator/batch/mutator_batch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index d82938f..e52a54f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -119,6 +119,10 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	obj := seed
 	var ok bool
 	cnt := bm.Conf.BatchSize
+	// One timer for the whole batch: each mutation is held for at most Timeout, however much
+	// arrives in the meantime.
+	timer := time.NewTimer(bm.Conf.Timeout)
+	defer timer.Stop()
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
 			return curSize, obj, nil
@@ -136,7 +140,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 			if !ok {
 				return curSize, nil, nil
 			}
-		case <-time.After(bm.Conf.Timeout):
+		case <-timer.C:
 			return curSize, nil, nil
 		}
 	}
-- 
2.43.0


From afdb56fdad6d35ef29370036c51bea6e06dd28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:15 +0000
Subject: [PATCH 03/28] fix: MapTreeHash reported storage failures as success
 without a response

---
 verifiable/service_map_tree_hash.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..8355d16 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -57,9 +57,12 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		}
 
 		// Need this for response
-		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
-		if err != nil {
-			return err
+		mutHead := &pb.LogTreeHash{} // an empty mutation log has no root hash
+		if treeSize > 0 {
+			mutHead, err = lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Get the root node for tree size
@@ -87,6 +90,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From 4c1e52463102921ba05153d3ebb99c58e6fc66ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 04/28] fix: BlockUntilPresent waited for ever after a failed
 inclusion check

---
 verifiable/api_highlevel_log.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..1db9d83 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -91,18 +91,19 @@ func (log *Log) BlockUntilPresent(ctx context.Context, leaf []byte) (*pb.LogTree
 		if err != nil {
 			return nil, err
 		}
+		// Try on every poll: an earlier attempt at this size may have failed for a reason that has passed.
+		err = log.VerifyInclusion(ctx, lth, leaf)
+		switch err {
+		case nil: // we found it
+			return lth, nil
+		case ErrNotFound:
+			// no good, continue
+		default:
+			// Should return error, but we're struggling to differentiate not found vs other errors
+			//return nil, err
+		}
 		if lth.TreeSize > lastHead {
 			lastHead = lth.TreeSize
-			err = log.VerifyInclusion(ctx, lth, leaf)
-			switch err {
-			case nil: // we found it
-				return lth, nil
-			case ErrNotFound:
-				// no good, continue
-			default:
-				// Should return error, but we're struggling to differentiate not found vs other errors
-				//return nil, err
-			}
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
 		} else {
-- 
2.43.0


From c4d6b9cb0c29288c41a4702e8dba1ca6569d1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 05/28] fix: bolt reads could see a commit before it was
 durable

---
 storage/bolt/storage_bolt.go | 48 +++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/storage/bolt/storage_bolt.go b/storage/bolt/storage_bolt.go
index d34ae1d..8154e9d 100644
--- a/storage/bolt/storage_bolt.go
+++ b/storage/bolt/storage_bolt.go
@@ -37,7 +37,15 @@ type Storage struct {
 	Path string
 
 	dbLock sync.RWMutex
-	dbs    map[string]*bolt.DB
+	dbs    map[string]*database
+}
+
+type database struct {
+	*bolt.DB
+
+	// Held while a transaction commits. BoltDB makes a commit visible to new read transactions before
+	// it is durable - no-one may see it until it is.
+	committing sync.RWMutex
 }
 
 // Close calls the underlying Close method on the BoltDBs which releases file locks.
@@ -52,7 +60,7 @@ func (bbs *Storage) Close() {
 }
 
 // Returns nil if not found
-func (bbs *Storage) getDB(key string) *bolt.DB {
+func (bbs *Storage) getDB(key string) *database {
 	bbs.dbLock.RLock()
 	defer bbs.dbLock.RUnlock()
 
@@ -69,7 +77,7 @@ func (bbs *Storage) getDB(key string) *bolt.DB {
 }
 
 // getOrCreateDB gets and/or creates DB
-func (bbs *Storage) getOrCreateDB(ns []byte) (*bolt.DB, error) {
+func (bbs *Storage) getOrCreateDB(ns []byte) (*database, error) {
 	key := hex.EncodeToString(ns)
 
 	// First try with simple read lock
@@ -83,7 +91,7 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*bolt.DB, error) {
 	defer bbs.dbLock.Unlock()
 
 	if bbs.dbs == nil {
-		bbs.dbs = make(map[string]*bolt.DB)
+		bbs.dbs = make(map[string]*database)
 	}
 
 	// Check again, as may have been added since last
@@ -97,9 +105,11 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*bolt.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	bbs.dbs[key] = db
 
-	return db, nil
+	rv = &database{DB: db}
+	bbs.dbs[key] = rv
+
+	return rv, nil
 }
 
 // ExecuteReadOnly executes a read only query
@@ -108,9 +118,14 @@ func (bbs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 	if err != nil {
 		return err
 	}
-	return db.View(func(tx *bolt.Tx) error {
-		return f(ctx, &boltReaderWriter{Tx: tx})
-	})
+	db.committing.RLock()
+	tx, err := db.Begin(false)
+	db.committing.RUnlock()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	return f(ctx, &boltReaderWriter{Tx: tx})
 }
 
 // ExecuteUpdate executes an update query
@@ -119,9 +134,18 @@ func (bbs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(
 	if err != nil {
 		return err
 	}
-	return db.Update(func(tx *bolt.Tx) error {
-		return f(ctx, &boltReaderWriter{Tx: tx})
-	})
+	tx, err := db.Begin(true)
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback() // does nothing once committed
+	err = f(ctx, &boltReaderWriter{Tx: tx})
+	if err != nil {
+		return err
+	}
+	db.committing.Lock()
+	defer db.committing.Unlock()
+	return tx.Commit()
 }
 
 type boltReaderWriter struct {
-- 
2.43.0


From 677bbdfe3e440568d3b2bb7b7e368008a145c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 06/28] fix: bolt storage built on commits that a killed
 process never synced

---
 storage/bolt/storage_bolt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/bolt/storage_bolt.go b/storage/bolt/storage_bolt.go
index 8154e9d..5ff0796 100644
--- a/storage/bolt/storage_bolt.go
+++ b/storage/bolt/storage_bolt.go
@@ -106,6 +106,13 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*database, error) {
 		return nil, err
 	}
 
+	// What we just read may be a commit that a process before us wrote, but did not live to sync.
+	err = db.Sync()
+	if err != nil {
+		db.Close()
+		return nil, err
+	}
+
 	rv = &database{DB: db}
 	bbs.dbs[key] = rv
 
-- 
2.43.0


From 8c74103caef36999ea0f63f65fb5e6f6ca303587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 07/28] fix: bolt database files whose creation was interrupted
 could never be opened

---
 storage/bolt/storage_bolt.go | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/storage/bolt/storage_bolt.go b/storage/bolt/storage_bolt.go
index 5ff0796..ecc9479 100644
--- a/storage/bolt/storage_bolt.go
+++ b/storage/bolt/storage_bolt.go
@@ -20,6 +20,7 @@ package bolt
 
 import (
 	"encoding/hex"
+	"os"
 	"path/filepath"
 	"sync"
 	"time"
@@ -76,6 +77,41 @@ func (bbs *Storage) getDB(key string) *database {
 	return nil
 }
 
+// open opens the database at the given path, and creates it if there is none.
+func open(path string) (*bolt.DB, error) {
+	opts := &bolt.Options{Timeout: 1 * time.Second}
+
+	// BoltDB can't use a file whose creation was interrupted, so prepare a new one under another name.
+	_, err := os.Stat(path)
+	if os.IsNotExist(err) {
+		tmp := path + ".new"
+		err = os.Remove(tmp)
+		if err != nil && !os.IsNotExist(err) {
+			return nil, err
+		}
+		db, err := bolt.Open(tmp, 0600, opts)
+		if err != nil {
+			return nil, err
+		}
+		err = db.Close()
+		if err != nil {
+			return nil, err
+		}
+		err = os.Rename(tmp, path)
+		if err != nil {
+			return nil, err
+		}
+		dir, err := os.Open(filepath.Dir(path))
+		if err == nil {
+			// Make the new name durable too. Best effort, as not every platform can.
+			dir.Sync()
+			dir.Close()
+		}
+	}
+
+	return bolt.Open(path, 0600, opts)
+}
+
 // getOrCreateDB gets and/or creates DB
 func (bbs *Storage) getOrCreateDB(ns []byte) (*database, error) {
 	key := hex.EncodeToString(ns)
@@ -101,7 +137,7 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*database, error) {
 	}
 
 	// Get or create on distk
-	db, err := bolt.Open(filepath.Join(bbs.Path, key), 0600, &bolt.Options{Timeout: 1 * time.Second})
+	db, err := open(filepath.Join(bbs.Path, key))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f4a7ffed4bc1c54ca81dddee69c3e66b757a6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 08/28] fix: REST update with an empty previous leaf hash
 became an unconditional set

---
 server/httprest/server_http_handler.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..a87f677 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -641,6 +641,8 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 
 func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[string]string, w http.ResponseWriter, r *http.Request) {
 	prevLeafHashString := strings.TrimSpace(r.Header.Get("X-Previous-LeafHash"))
+	// An empty header still asks for an update, with an empty previous leaf hash.
+	isUpdate := len(r.Header.Values("X-Previous-LeafHash")) > 0
 	var prevLeafHash []byte
 	if len(prevLeafHashString) > 0 {
 		var err error
@@ -664,13 +666,13 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if !isUpdate {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
 			Value:  ld,
 		}, w, r)
-	} else { // must be an update
+	} else {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action:           "update",
 			Key:              key,
-- 
2.43.0


From ba8e94e2465ee9d52622a9f56c5b797862ccb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 09/28] fix: map audit reported mutations that changed nothing,
 and missed some that did

---
 verifiable/util_map_audit.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..92ef88b 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -260,17 +260,18 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 
 			// Finally, if we actually made a change (ie the mutation did something)
 			// then call the underlying audit function provided by the client.
-			if a.MapAuditFunction != nil && !bytes.Equal(lastRootHash, rh) {
+			changed := !bytes.Equal(lastRootHash, rh)
+
+			// Save for next time
+			lastRootHash = rh
+
+			if a.MapAuditFunction != nil && changed {
 				err = a.MapAuditFunction(ctx, idx, mutation.Key, mutation.Value)
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
-			// Save for next time
-			lastRootHash = rh
-
 			return nil
 		})
 		if err != nil {
-- 
2.43.0


From 7bf44b412cd4d2d1b4148259cf6a6a722a95f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 10/28] fix: map audit passed the missing value of a delete to
 the leaf audit function

---
 verifiable/util_map_audit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 92ef88b..5bf244c 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -225,7 +225,8 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				return err
 			}
 
-			if a.LeafDataAuditFunction != nil {
+			// A mutation that deletes has no value
+			if a.LeafDataAuditFunction != nil && mutation.Value != nil {
 				err = a.LeafDataAuditFunction(ctx, mutation.Value)
 				if err != nil {
 					return err
-- 
2.43.0


From 9582828dec951cfa5656021636f869588f6c495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 11/28] fix: field-restricted readers could not read deletes
 and absent map values

A mutation that deletes has no value, which crashed the server when a reader
limited to some fields fetched it. A key that is not in the map was refused
to such a reader with ErrNotImplemented.
---
 verifiable/util_permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..aab9af1 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -75,6 +75,10 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// No value at all (e.g. a mutation that deletes, or a key that is not in the map) has nothing to hide
+	if ld == nil || (len(ld.LeafInput) == 0 && len(ld.ExtraData) == 0) {
+		return ld, nil
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From e66a454dce67c690ad4318e96345d39ec8035430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 12/28] fix: map inclusion proofs of the wrong length crashed
 the client

A server could crash a verifying client with a proof of fewer than 256
entries, or a map head without a mutation log head.
---
 verifiable/service_map_get_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..818d6af 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,11 +150,14 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if self.TreeSize != head.GetMutationLog().GetTreeSize() {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
+	if len(self.AuditPath) != len(kp) {
+		return ErrVerificationFailed
+	}
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
 		p := self.AuditPath[i]
-- 
2.43.0


From 903603a0e4951fcf4646a33c2b1340f5d358cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 13/28] fix: a negative proof index in a header crashed the
 REST client

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From 7c17ca3ae0534a6bcee8de550dd7e22a4b9c26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 14/28] fix: log audit crashed on a starting proof of the wrong
 length

The stack that the audit continues from was only checked to hash to the
previous root, so a server could hand out the root itself as a single
subtree and crash the auditor.
---
 verifiable/api_highlevel_log.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 1db9d83..e36fcc8 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -18,6 +18,7 @@ package verifiable
 
 import (
 	"bytes"
+	"math/bits"
 	"time"
 
 	"github.com/continusec/verifiabledatastructures/merkle"
@@ -207,6 +208,10 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// There is one subtree per bit set in the size
+		if len(p.AuditPath) != bits.OnesCount64(uint64(prev.TreeSize)) {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
 			if firstHash == nil {
-- 
2.43.0


From 0c32cd3f6149f636ffc1ff23a7d10c82d2823cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 15/28] fix: verified heads and map states could be of another
 size than asked for

A server could answer a request for the head at one size with the
(consistent) head at another.
---
 verifiable/api_highlevel_log.go | 5 +++++
 verifiable/api_highlevel_map.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index e36fcc8..6d3cc99 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -152,6 +152,11 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, err
 	}
 
+	// Are we given the size that we asked for?
+	if treeSize != Head && head.TreeSize != treeSize {
+		return nil, ErrVerificationFailed
+	}
+
 	if prev != nil {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..4a0d8ba 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -105,6 +105,11 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		return nil, err
 	}
 
+	// Are we given the size that we asked for?
+	if treeSize != Head && mapHead.GetMutationLog().GetTreeSize() != treeSize {
+		return nil, ErrVerificationFailed
+	}
+
 	// Short-cut: If prev is nil, and we have no size yet, then we are nil too
 	// since while a map head may be valid, the logs can't be.
 	if prev == nil && mapHead.GetMutationLog().GetTreeSize() == 0 {
-- 
2.43.0


From b34fd443e6734c910a6bf1a85bf42a5a12ff42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 16/28] fix: map state with another root than the previous one
 of equal size was accepted

---
 verifiable/api_highlevel_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index 4a0d8ba..9062d23 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -17,6 +17,7 @@
 package verifiable
 
 import (
+	"bytes"
 	"time"
 
 	"github.com/continusec/verifiabledatastructures/merkle"
@@ -123,6 +124,11 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		if err != nil {
 			return nil, err
 		}
+
+		// The same mutations must give the same map
+		if mapHead.MutationLog.TreeSize == prev.TreeSize() && !bytes.Equal(mapHead.RootHash, prev.MapTreeHead.RootHash) {
+			return nil, ErrVerificationFailed
+		}
 	}
 
 	// Get the latest tree head for the tree head log
-- 
2.43.0


From 7e9f68f0a07baae1ba8585fc28397e51b24f3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 17/28] fix: map audit crashed on malformed entries

Null entries, mutations without a value and tree head entries without a
mutation log head (or of size zero) from a misbehaving server crashed the
auditor.
---
 verifiable/api_highlevel_log.go | 4 ++++
 verifiable/util_json.go         | 3 +++
 verifiable/util_map_audit.go    | 9 +++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 6d3cc99..7d8a2b2 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -239,6 +239,10 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 	ourCtx, canc := context.WithCancel(ctx)
 	defer canc()
 	for entry := range log.Entries(ourCtx, idx, head.TreeSize) {
+		if entry == nil {
+			return ErrVerificationFailed
+		}
+
 		// audit
 		if auditFunc != nil {
 			err := auditFunc(ctx, idx, entry)
diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..5b607e5 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -187,6 +187,9 @@ func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
+	if o == nil { // the JSON value null
+		return ErrVerificationFailed
+	}
 	if o.Value != nil {
 		o.Value.ExtraData = nil
 		o.Value.Format = 0
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 5bf244c..1335701 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,12 +154,12 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
-		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+		head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
-			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+			head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 		}
 	default:
 		return nil, ErrVerificationFailed
@@ -307,6 +307,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// The log is of map heads of size 1 or more
+	if mth.GetMutationLog().GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From f134a2781e3182ef9bacfdb215e51699a51a4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 18/28] fix: malformed requests crashed the server or its batch
 writer

Requests with a missing account, log, map or value crashed the server; a
mutation of unknown action was acknowledged and then ended the process when
the batch mutator came to apply it.
---
 verifiable/insertion_map.go         |  4 ++--
 verifiable/service_log_add_entry.go |  4 ++++
 verifiable/service_map_set_value.go | 21 +++++++++++++++++++++
 verifiable/util_permissions.go      |  8 +++++++-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..94b9dbe 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -35,12 +35,12 @@ var (
 func mutationLeafHash(mut *pb.MapMutation, prevLeafHash []byte) ([]byte, error) {
 	switch mut.Action {
 	case "set":
-		return merkle.LeafHash(mut.Value.LeafInput), nil
+		return merkle.LeafHash(mut.Value.GetLeafInput()), nil
 	case "delete":
 		return nullLeafHash, nil
 	case "update":
 		if bytes.Equal(prevLeafHash, mut.PreviousLeafHash) {
-			return merkle.LeafHash(mut.Value.LeafInput), nil
+			return merkle.LeafHash(mut.Value.GetLeafInput()), nil
 		}
 		return prevLeafHash, nil
 	default:
diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..1242f69 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -37,6 +37,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing value")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..fabc4bd 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -44,6 +44,22 @@ func makeJSONMutationEntry(req *pb.MapSetValueRequest) (*pb.MapMutation, error)
 	return &rv, nil
 }
 
+// checkMutation returns an error for a mutation that can't be applied, since by the time that is
+// attempted it may be too late to tell the client.
+func checkMutation(mut *pb.MapMutation) error {
+	switch mut.GetAction() {
+	case "set":
+		if mut.Value == nil {
+			return ErrInvalidRequest
+		}
+		return nil
+	case "update", "delete":
+		return nil
+	default:
+		return ErrInvalidRequest
+	}
+}
+
 // MapSetValue sets a value in a map
 func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
 	_, err := s.verifyAccessForMap(ctx, req.Map, pb.Permission_PERM_MAP_SET_VALUE)
@@ -51,6 +67,11 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	err = checkMutation(req.Mutation)
+	if err != nil {
+		return nil, status.Errorf(codes.InvalidArgument, "bad mutation: %s", err)
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index aab9af1..1171b68 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,15 +55,21 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
+	if vmap.GetAccount() == nil {
+		return nil, ErrInvalidRequest
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRef, perm pb.Permission) (*AccessModifier, error) {
+	if log.GetAccount() == nil {
+		return nil, ErrInvalidRequest
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
-	perm, ok := operationForLogType[log.LogType][op]
+	perm, ok := operationForLogType[log.GetLogType()][op]
 	if !ok {
 		return nil, ErrNotAuthorized
 	}
-- 
2.43.0


From eb1d5931375f8a5956275df444eb2e8f40e0fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 19/28] fix: writes to a read-only service crashed it

---
 verifiable/service_log_add_entry.go | 4 ++++
 verifiable/service_map_set_value.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index 1242f69..0be51ea 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -41,6 +41,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "missing value")
 	}
 
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is read only")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index fabc4bd..1bab863 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -84,6 +84,10 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.Internal, "bad leaf data creation: %s", err)
 	}
 
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is read only")
+	}
+
 	ns, err := mapBucket(req.Map)
 	if err != nil {
 		return nil, status.Errorf(codes.Internal, "unknown err: %s", err)
-- 
2.43.0


From 520c5f029dfe7b6d2162883422483775d79ec3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:47 +0000
Subject: [PATCH 20/28] fix: concurrent postgres transactions shared one
 connection

The storage has a single connection, so a transaction begun while another
was open became part of it: its end committed or rolled back the other's
writes too.
---
 storage/postgres/storage-postgres.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..6446b6b 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -18,6 +18,9 @@ import (
 type Storage struct {
 	Pool *pgxpool.Conn
 
+	// connMutex is held for each transaction, since a connection can only have one at a time.
+	connMutex sync.Mutex
+
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
 }
@@ -112,6 +115,9 @@ func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string
 // ExecuteReadOnly executes a read only query. Note this will have the side-effect of
 // creating a table for this namespace, if it doesn't already exist.
 func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
+	pgs.connMutex.Lock()
+	defer pgs.connMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
@@ -132,6 +138,9 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 // ExecuteUpdate executes an update query. Only one of these can execute per-namespace
 // at once, and this is enforced by a full table lock.
 func (pgs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
+	pgs.connMutex.Lock()
+	defer pgs.connMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
-- 
2.43.0


From 46f3af4eca36619921c3521fe096121f3abc0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 21/28] fix: postgres reads did not see a single snapshot

At the default isolation level every statement of a read transaction sees
what was committed before that statement, so a reader could see parts of
several states written by other servers.
---
 storage/postgres/storage-postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 6446b6b..27c58a2 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -123,7 +123,11 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	// All reads must be of the same snapshot
+	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{
+		IsoLevel:   pgx.RepeatableRead,
+		AccessMode: pgx.ReadOnly,
+	})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ea4cef4300a09ea1c6d8012fde926b45a5be1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 22/28] fix: badger storage reported any read error as a
 missing key

---
 storage/badger/storage_badger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..8ac55d3 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,9 +129,12 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return verifiable.ErrNoSuchKey
 	}
+	if err != nil {
+		return err
+	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
 	})
-- 
2.43.0


From 1b390dbd4aedad06f31755b446342ba5ee1a5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 23/28] fix: a map value could overwrite an entry of the
 mutation log

Map values and mutation log entries were stored by leaf hash in the same
bucket, so that setting a value with the leaf input of an earlier mutation
replaced the data of that mutation.
---
 verifiable/insertion_map.go         |  2 +-
 verifiable/service_map_get_value.go |  2 +-
 verifiable/util_service_data.go     | 22 ++++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index 94b9dbe..c224784 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -154,7 +154,7 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 
 	// Time to start writing our data
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		err = writeMapValueByLeafHash(ctx, db, nextLeafHash, mut.Value)
 		if err != nil {
 			return nil, err
 		}
diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 818d6af..e4d4783 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -97,7 +97,7 @@ func (s *localServiceImpl) MapGetValue(ctx context.Context, req *pb.MapGetValueR
 				if bytes.Equal(cur.LeafHash, nullLeafHash) {
 					dataRv = &pb.LeafData{} // empty value
 				} else {
-					dataRv, err = lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, cur.LeafHash)
+					dataRv, err = lookupMapValueByLeafHash(ctx, kr, cur.LeafHash)
 					if err != nil {
 						return err
 					}
diff --git a/verifiable/util_service_data.go b/verifiable/util_service_data.go
index 31bebb5..d6d7f09 100644
--- a/verifiable/util_service_data.go
+++ b/verifiable/util_service_data.go
@@ -67,6 +67,9 @@ var (
 
 	objSizeKey    = []byte("metadata/size")
 	mapNodeBucket = []byte("map_node/")
+
+	// separate from the data of the mutation log, else a value that hashes like a mutation overwrites it
+	mapValueBucket = []byte("map_value/")
 )
 
 // Start pair
@@ -212,6 +215,25 @@ func lookupMapHash(ctx context.Context, kr KeyReader, number int64, path BPath)
 	return &m, nil
 }
 
+// Start pair
+
+func writeMapValueByLeafHash(ctx context.Context, kr KeyWriter, lh []byte, data *pb.LeafData) error {
+	return kr.Set(ctx, makeStorageKey(mapValueBucket, lh), data)
+}
+
+func lookupMapValueByLeafHash(ctx context.Context, kr KeyReader, lh []byte) (*pb.LeafData, error) {
+	var m pb.LeafData
+	err := kr.Get(ctx, makeStorageKey(mapValueBucket, lh), &m)
+	if err == ErrNoSuchKey {
+		// values used to be kept with the data of the mutation log
+		return lookupDataByLeafHash(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, lh)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return &m, nil
+}
+
 // End pairs
 
 func lookupLogEntryHashes(ctx context.Context, kr KeyReader, lt pb.LogType, first, last int64) ([][]byte, error) {
-- 
2.43.0


From 21c89c4c8fcc2fe187994ff737fdbd2991c5a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 24/28] fix: inclusion proofs longer than the tree is deep were
 accepted

A log head that combines the size of a small tree with the root of a larger
one proved entries to be in the log that are not at any index it has.
---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..d52dd84 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -142,6 +142,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 { // the path is longer than the tree is deep
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From 491d42bf28cbc6507ff2f32fa5036e8bccf42105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 25/28] fix: batch mutator applies its mutations afresh when
 another writer got in between

It computed a batch on top of what a read-only transaction saw and then wrote
the result blindly, so that two servers on one database (or any other writer)
overwrote each other's entries.
---
 mutator/batch/mutator_batch.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e52a54f..d4b7e5d 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -79,6 +79,7 @@ type mapNoLockDB struct {
 	M      map[string][]byte
 	Parent verifiable.KeyReader
 	L      []*op
+	Muts   []*pb.Mutation
 }
 
 type batchMutatorImpl struct {
@@ -113,7 +114,7 @@ func (m *mapNoLockDB) Set(ctx context.Context, key []byte, value proto.Message)
 }
 
 // Keep reading and apply until timeout or any other reason
-func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWriter, startSize int64, seed *chObject) (int64, *chObject, error) {
+func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw *mapNoLockDB, startSize int64, seed *chObject) (int64, *chObject, error) {
 	curSize := startSize
 	var err error
 	obj := seed
@@ -131,6 +132,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 		if err != nil {
 			return 0, nil, err
 		}
+		kw.Muts = append(kw.Muts, obj.mut)
 		cnt--
 		if cnt == 0 {
 			return curSize, nil, nil
@@ -187,6 +189,20 @@ func (bm *batchMutatorImpl) consume() {
 
 		if nextSize > startSize { // save it out
 			err = bm.Conf.Writer.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
+				curSize, err := verifiable.ReadObjectSize(ctx, kw)
+				if err != nil {
+					return err
+				}
+				if curSize != startSize {
+					// Another writer has been here since we read, apply to what there is now.
+					for _, mut := range wrapper.Muts {
+						curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, mut)
+						if err != nil {
+							return err
+						}
+					}
+					return verifiable.WriteObjectSize(ctx, kw, curSize)
+				}
 				for _, o := range wrapper.L {
 					err := kw.Set(ctx, o.Key, o.Value)
 					if err != nil {
-- 
2.43.0


From b9e4d21194c5a98328b2cee81174cc19d1b2146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 26/28] fix: postgres storage connects again after its
 connection was closed

---
 storage/postgres/storage-postgres.go | 42 ++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 27c58a2..d029dad 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -21,6 +21,9 @@ type Storage struct {
 	// connMutex is held for each transaction, since a connection can only have one at a time.
 	connMutex sync.Mutex
 
+	// conn is the connection in use, guarded by connMutex. It starts out as that of Pool.
+	conn *pgx.Conn
+
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
 }
@@ -63,8 +66,25 @@ func (t *txWriter) Set(ctx context.Context, key []byte, value proto.Message) err
 	return err
 }
 
+// getConn returns a connection to use, a new one if need be: the driver closes a connection when it
+// fails, and also when the context of a request that is using it is cancelled.
+// connMutex must be held.
+func (pgs *Storage) getConn(ctx context.Context) (*pgx.Conn, error) {
+	if pgs.conn == nil {
+		pgs.conn = pgs.Pool.Conn()
+	}
+	if pgs.conn.IsClosed() {
+		conn, err := pgx.ConnectConfig(ctx, pgs.conn.Config())
+		if err != nil {
+			return nil, err
+		}
+		pgs.conn = conn
+	}
+	return pgs.conn, nil
+}
+
 // returns appropriate tablename for namespace
-func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string, error) {
+func (pgs *Storage) getOrCreateNS(ctx context.Context, conn *pgx.Conn, namespace []byte) (string, error) {
 	key := string(namespace)
 
 	// First see if we have it
@@ -82,7 +102,7 @@ func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string
 	sh := sha256.Sum256(namespace) // NOTE we just use the first 16 bytes of the SHA256 hash, else we hit PG identifier limits.
 	nameToUser := fmt.Sprintf("vds_%s", hex.EncodeToString(sh[:16]))
 
-	tx, err := pgs.Pool.Begin(ctx)
+	tx, err := conn.Begin(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -118,13 +138,18 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 	pgs.connMutex.Lock()
 	defer pgs.connMutex.Unlock()
 
-	tableName, err := pgs.getOrCreateNS(ctx, namespace)
+	conn, err := pgs.getConn(ctx)
+	if err != nil {
+		return err
+	}
+
+	tableName, err := pgs.getOrCreateNS(ctx, conn, namespace)
 	if err != nil {
 		return err
 	}
 
 	// All reads must be of the same snapshot
-	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{
+	tx, err := conn.BeginTx(ctx, pgx.TxOptions{
 		IsoLevel:   pgx.RepeatableRead,
 		AccessMode: pgx.ReadOnly,
 	})
@@ -145,12 +170,17 @@ func (pgs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(
 	pgs.connMutex.Lock()
 	defer pgs.connMutex.Unlock()
 
-	tableName, err := pgs.getOrCreateNS(ctx, namespace)
+	conn, err := pgs.getConn(ctx)
+	if err != nil {
+		return err
+	}
+
+	tableName, err := pgs.getOrCreateNS(ctx, conn, namespace)
 	if err != nil {
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	tx, err := conn.Begin(ctx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From afe4bdb289f368062209fe016ff5efe389a40b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 27/28] fix: badger storage failed updates that conflicted
 instead of running them one at a time

---
 storage/badger/storage_badger.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 8ac55d3..ac0e016 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -36,7 +36,16 @@ type Storage struct {
 	Path string
 
 	dbLock sync.RWMutex
-	dbs    map[string]*badger.DB
+	dbs    map[string]*database
+}
+
+// database is the database of one namespace.
+type database struct {
+	*badger.DB
+
+	// updateLock makes updates sequential, as is required of them. Without it badger fails
+	// those of them that conflict.
+	updateLock sync.Mutex
 }
 
 // Close calls the underlying Close method on the BoltDBs which releases file locks.
@@ -51,7 +60,7 @@ func (bbs *Storage) Close() {
 }
 
 // Returns nil if not found
-func (bbs *Storage) getDB(key string) *badger.DB {
+func (bbs *Storage) getDB(key string) *database {
 	bbs.dbLock.RLock()
 	defer bbs.dbLock.RUnlock()
 
@@ -68,7 +77,7 @@ func (bbs *Storage) getDB(key string) *badger.DB {
 }
 
 // getOrCreateDB gets and/or creates DB
-func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
+func (bbs *Storage) getOrCreateDB(ns []byte) (*database, error) {
 	key := hex.EncodeToString(ns)
 
 	// First try with simple read lock
@@ -82,7 +91,7 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	defer bbs.dbLock.Unlock()
 
 	if bbs.dbs == nil {
-		bbs.dbs = make(map[string]*badger.DB)
+		bbs.dbs = make(map[string]*database)
 	}
 
 	// Check again, as may have been added since last
@@ -96,9 +105,10 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	bbs.dbs[key] = db
+	rv = &database{DB: db}
+	bbs.dbs[key] = rv
 
-	return db, nil
+	return rv, nil
 }
 
 // ExecuteReadOnly executes a read only query
@@ -118,6 +128,8 @@ func (bbs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(
 	if err != nil {
 		return err
 	}
+	db.updateLock.Lock()
+	defer db.updateLock.Unlock()
 	return db.Update(func(tx *badger.Txn) error {
 		return f(ctx, &badgerReaderWriter{Tx: tx})
 	})
-- 
2.43.0


From dd368ffe94fd9617d62e7f6f1e860b842c42f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 28/28] fix: badger storage could not open a namespace again
 after a crash during a write

---
 storage/badger/storage_badger.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index ac0e016..51343bd 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -100,8 +100,9 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*database, error) {
 		return rv, nil
 	}
 
-	// Get or create on disk
-	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)))
+	// Get or create on disk. Truncate drops a write that a crash left unfinished (and thus was never
+	// acknowledged), without it the database could not be opened again.
+	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)).WithTruncate(true))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

