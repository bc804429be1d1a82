From f6cc3fe74e0d0bbd9990b5cc9f5b9198760f157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 01/29] fix: register an account again after its first block
 was rolled back

Deleting the unconfirmed first block of an account removed the account from the
store's overlay but not from the index cache, so the account was never
registered again and was missing from IterateAccounts.
---
 ledger/chain/index/account.go | 13 +++++++++++++
 ledger/chain/index/delete.go  |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/ledger/chain/index/account.go b/ledger/chain/index/account.go
index f6fe846..28432e4 100644
--- a/ledger/chain/index/account.go
+++ b/ledger/chain/index/account.go
@@ -82,6 +82,19 @@ func (iDB *IndexDB) createAccount(batch interfaces.Batch, addr *types.Address) u
 	return newAccountId
 }
 
+func (iDB *IndexDB) deleteAccount(batch interfaces.Batch, addr *types.Address) error {
+	accountId, err := iDB.GetAccountId(addr)
+	if err != nil {
+		return err
+	}
+	if accountId > 0 {
+		batch.Delete(chain_utils.CreateAccountAddressKey(addr).Bytes())
+		batch.Delete(chain_utils.CreateAccountIdKey(accountId).Bytes())
+	}
+	iDB.accountCache.Remove(*addr)
+	return nil
+}
+
 func (iDB *IndexDB) queryLatestAccountId() (uint64, error) {
 	startKey := chain_utils.CreateAccountIdKey(1)
 	endKey := chain_utils.CreateAccountIdKey(helper.MaxUint64)
diff --git a/ledger/chain/index/delete.go b/ledger/chain/index/delete.go
index 6a10fe4..35e1a68 100644
--- a/ledger/chain/index/delete.go
+++ b/ledger/chain/index/delete.go
@@ -87,6 +87,13 @@ func (iDB *IndexDB) deleteAccountBlocks(batch *leveldb.Batch, blocks []*ledger.A
 		// delete account block height index
 		iDB.deleteAccountBlockHeight(batch, block.AccountAddress, block.Height)
 
+		// the account was registered together with its first block
+		if block.Height == 1 {
+			if err := iDB.deleteAccount(batch, &block.AccountAddress); err != nil {
+				return err
+			}
+		}
+
 		if block.IsReceiveBlock() {
 			// if in send
 			if _, ok := sendBlockHashMap[block.FromBlockHash]; ok {
-- 
2.43.0


From ad89d7c7ba0b57900f7ac81d589a0df826caaca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 02/29] fix: keep the contract list of a consensus group in
 step with rollbacks

Rolling back a create block left the contract in the list of its group, and
re-applying one from the redo log wrote the list entry under a wrong key.
---
 ledger/chain/state/delete.go | 16 +++++++++++++++-
 ledger/chain/state/write.go  | 10 +++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 2445ad5..fd5b0ec 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -268,8 +268,9 @@ func (sDB *StateDB) rollbackByRedo(batch *leveldb.Batch, snapshotBlock *ledger.S
 			}
 
 			// delete contract meta
-			for contractAddr := range redoLog.ContractMeta {
+			for contractAddr, metaBytes := range redoLog.ContractMeta {
 				sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(contractAddr).Bytes())
+				sDB.deleteGidContract(batch, contractAddr, metaBytes)
 			}
 
 			// delete code
@@ -409,6 +410,7 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 	// delete contract meta
 	if accountBlock.BlockType == ledger.BlockTypeSendCreate {
 		sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(accountBlock.ToAddress).Bytes())
+		sDB.deleteGidContract(batch, accountBlock.ToAddress, accountBlock.Data)
 	}
 
 	// delete log hash
@@ -422,6 +424,7 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 
 		if sendBlock.BlockType == ledger.BlockTypeSendCreate {
 			sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(sendBlock.ToAddress).Bytes())
+			sDB.deleteGidContract(batch, sendBlock.ToAddress, sendBlock.Data)
 		}
 	}
 
@@ -635,6 +638,17 @@ func (sDB *StateDB) deleteContractMeta(batch interfaces.Batch, key []byte) {
 	sDB.cache.Delete(contractAddrPrefix + string(key))
 }
 
+// deleteGidContract deletes the contract from the list of its consensus group. Both the
+// serialized contract meta and the data of a create block start with the gid.
+func (sDB *StateDB) deleteGidContract(batch interfaces.Batch, addr types.Address, meta []byte) {
+	if len(meta) < types.GidSize {
+		return
+	}
+	if gid, err := types.BytesToGid(meta[:types.GidSize]); err == nil {
+		batch.Delete(chain_utils.CreateGidContractKey(gid, &addr).Bytes())
+	}
+}
+
 func (sDB *StateDB) deleteBalance(batch interfaces.Batch, key []byte) {
 	batch.Delete(key)
 
diff --git a/ledger/chain/state/write.go b/ledger/chain/state/write.go
index 036b0ad..5c913ca 100644
--- a/ledger/chain/state/write.go
+++ b/ledger/chain/state/write.go
@@ -158,15 +158,11 @@ func (sDB *StateDB) WriteByRedo(blockHash types.Hash, addr types.Address, redoLo
 	for addr, metaBytes := range unsavedContractMeta {
 		contractKey := chain_utils.CreateContractMetaKey(addr)
 
-		gidContractKey := make([]byte, 0, 1+types.AddressSize+types.GidSize)
-		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
-		gidContractKey = append(gidContractKey, addr.Bytes()...)
-		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
-
 		sDB.writeContractMeta(batch, contractKey.Bytes(), metaBytes)
 
-		batch.Put(gidContractKey, nil)
-		// set
+		if gid, err := types.BytesToGid(metaBytes[:types.GidSize]); err == nil {
+			batch.Put(chain_utils.CreateGidContractKey(gid, &addr).Bytes(), nil)
+		}
 	}
 
 	// write vm log
-- 
2.43.0


From c985808f75becbc010c21c04c55812a05b01d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 03/29] fix: return the headers of the requested producer

GetSnapshotHeadersAfterOrEqualTime dropped every matching header when a
producer was given.
---
 ledger/chain/snapshot_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index 8ea8531..e136544 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -407,7 +407,7 @@ func (c *chain) GetSnapshotHeadersAfterOrEqualTime(endHashHeight *ledger.HashHei
 		var result = make([]*ledger.SnapshotBlock, 0, len(snapshotHeaders)/75+3)
 		for _, snapshotHeader := range snapshotHeaders {
 			if snapshotHeader.Producer() == *producer {
-				result = append(result)
+				result = append(result, snapshotHeader)
 			}
 		}
 		return result, nil
-- 
2.43.0


From 8c8396c747ed07542ba1c98ba57de4c9444a0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 04/29] fix: track onroad callers per contract

Receiving the last call a caller had sent to one contract made its calls to
other contracts invisible.
---
 ledger/onroad/pool/storage.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..1c9ce9a 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -36,6 +36,12 @@ type OnRoadDB interface {
 	DeleteOnroad(tx OnroadTx) error
 }
 
+// callerKey is a caller with unreceived calls to a contract
+type callerKey struct {
+	contract types.Address
+	caller   types.Address
+}
+
 type onroadStorage struct {
 	db *leveldb.DB
 
@@ -50,12 +56,12 @@ func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
+func (storage *onroadStorage) addCaller(contract, caller types.Address) error {
+	storage.callers.Store(callerKey{contract, caller}, 0)
 	return nil
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+func (storage *onroadStorage) removeCaller(contract, caller types.Address) {
+	storage.callers.Delete(callerKey{contract, caller})
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +70,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +91,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -112,7 +118,11 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	var resultErr error
 
 	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+		k := key.(callerKey)
+		if k.contract != addr {
+			return true
+		}
+		caller := k.caller
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
 			resultErr = err
-- 
2.43.0


From a61dfd139a74c1319de79ca54913d9e25cc7fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 05/29] fix: count the unconfirmed sends of contracts as on the
 road

The on-road summary of an account ignored a contract's sends until the next
snapshot, and failed with a conflict once such a send had been received.
---
 ledger/chain/plugins/onroad_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ledger/chain/plugins/onroad_info.go b/ledger/chain/plugins/onroad_info.go
index 2aee7b5..1bdb66c 100644
--- a/ledger/chain/plugins/onroad_info.go
+++ b/ledger/chain/plugins/onroad_info.go
@@ -389,6 +389,8 @@ func (or *OnRoadInfo) addUnconfirmed(blocks []*ledger.AccountBlock) {
 			onRoadMap[v.Hash] = v
 			or.unconfirmedCache[addr] = onRoadMap
 		}
+		// the sends of a contract are on the road as well
+		or.addUnconfirmed(v.SendBlockList)
 	}
 }
 
@@ -412,6 +414,7 @@ func (or *OnRoadInfo) removeUnconfirmed(blocks []*ledger.AccountBlock) {
 			delete(onRoadMap, v.Hash)
 			or.unconfirmedCache[addr] = onRoadMap
 		}
+		or.removeUnconfirmed(v.SendBlockList)
 	}
 }
 
-- 
2.43.0


From 900848be7d4f5349d6f3d25345101214b19799e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:28 +0000
Subject: [PATCH 06/29] fix: refuse send blocks that carry a log hash

---
 ledger/verifier/account_verifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ledger/verifier/account_verifier.go b/ledger/verifier/account_verifier.go
index f5e2002..c18daca 100644
--- a/ledger/verifier/account_verifier.go
+++ b/ledger/verifier/account_verifier.go
@@ -234,6 +234,9 @@ func (v *AccountVerifier) verifySendBlockIntegrity(block *ledger.AccountBlock) e
 	if block.FromBlockHash != types.ZERO_HASH {
 		return errors.New("sendBlock.FromBlockHash must be ZERO_HASH")
 	}
+	if block.LogHash != nil {
+		return errors.New("sendBlock.LogHash must be nil")
+	}
 
 	if types.IsContractAddr(block.AccountAddress) {
 		if block.Height != 0 {
-- 
2.43.0


From 18d720750f6cc56c986c2eeb7a9d34e31cd3b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:08 +0000
Subject: [PATCH 07/29] fix: restart the quota window after a rollback to the
 genesis snapshot block

quotaList.build left usedStart on an element that had been removed from the
list (and globalUsed at its old sum) when the rollback emptied the list, so
that GetQuotaUsedList returned a stale item, and later nothing at all: every
account was out of quota until the node was restarted.
---
 ledger/chain/cache/quota_list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 5625588..e2c6807 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -223,6 +223,8 @@ func (ql *quotaList) build() (returnError error) {
 			return
 		}
 		if ql.list.Len() <= 0 {
+			ql.usedStart = nil
+			ql.globalUsed = types.QuotaInfo{}
 			return
 		}
 		ql.backElement = ql.list.Back().Value.(map[types.Address]*quotaInfo)
-- 
2.43.0


From 997ff814f0dd90e675be01059daf1f5588f33c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:08 +0000
Subject: [PATCH 08/29] fix: do not count a snapshot block twice in the quota
 window after a rollback

GetSubLedger includes the end height, which is already in the list when
quotaList.build extends a partly emptied list.
---
 ledger/chain/cache/quota_list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index e2c6807..dff0ca2 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -252,6 +252,7 @@ func (ql *quotaList) build() (returnError error) {
 		return nil
 	}
 
+	// the height of the first item in the list
 	endSbHeight := latestSbHeight + 1 - uint64(listLength)
 	startSbHeight := uint64(1)
 
@@ -293,14 +294,14 @@ func (ql *quotaList) build() (returnError error) {
 			ql.list.PushBack(newItem)
 		}
 	} else {
-		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight)
+		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight-1)
 		if err != nil {
 			return err
 		}
 
 		if snapshotSegments == nil {
 			return fmt.Errorf("ql.chain.GetSubLedger, snapshotSegments is nil, startSbHeight is %d, endSbHeight is %d",
-				startSbHeight, endSbHeight)
+				startSbHeight, endSbHeight-1)
 		}
 
 		segLength := len(snapshotSegments)
-- 
2.43.0


From 3e7311617df1c0d7f5226e6cdca845e59d9cebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:53 +0000
Subject: [PATCH 09/29] fix: the pool's tree keeps the branch it switches to

SwitchMainTo prunes its target first, and a target whose knots are all in the
branch it refers to was taken off the branch list by that, though it became
the main branch: later blocks could no longer find it.
---
 ledger/pool/tree/tree_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ledger/pool/tree/tree_impl.go b/ledger/pool/tree/tree_impl.go
index b858659..f1f002e 100644
--- a/ledger/pool/tree/tree_impl.go
+++ b/ledger/pool/tree/tree_impl.go
@@ -199,6 +199,8 @@ func (self *tree) SwitchMainTo(b Branch) error {
 
 	if target.Linked(self.root) {
 		self.main = target
+		// the prune above drops a branch whose knots are all in its root too
+		self.addBranch(target)
 	} else {
 		panic("new chain tail fail.")
 		return errors.New("new chain tail fail.")
-- 
2.43.0


From 682e907bbf8342c2225feb2c89dfb4cc26465863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 10/29] fix: the pool can leave a branch that forks right above
 genesis

The key point of a fork is the last snapshot block both branches have.
The rollback deleted it along with the branch, which fails for genesis:
a node whose first block lost could never join the longer chain.
---
 ledger/pool/pool_fork_checker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 28ea7c5..5ff8b99 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -123,7 +123,12 @@ func (pl *pool) findForkKeyPoint(longest tree.Branch) (*snapshotPoolBlock, error
 func (pl *pool) snapshotRollback(longest tree.Branch, keyPoint *snapshotPoolBlock) error {
 	pl.log.Info("rollback snapshot chain", "height", keyPoint.Height(), "hash", keyPoint.Hash())
 
-	snapshots, accounts, e := pl.pendingSc.rw.delToHeight(keyPoint.block.Height)
+	// both branches have the key point, it stays
+	height := keyPoint.Height() + 1
+	if height > pl.bc.GetLatestSnapshotBlock().Height {
+		return nil
+	}
+	snapshots, accounts, e := pl.pendingSc.rw.delToHeight(height)
 	if e != nil {
 		return e
 	}
-- 
2.43.0


From 3399e819f144b173c68c66776ef90bba418497ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 11/29] fix: the irreversible block is found when the first
 period is reached

No snapshot block precedes the first period, and the missing header was
dereferenced: a node crashed when a fork or the irreversible block was
looked at before enough producers had signed in a later period.
---
 ledger/pool/pool_fork_checker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 5ff8b99..7d224c7 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -273,6 +273,13 @@ func (pl *pool) getLatestIrreversible(lastIdx uint64, nodeCnt int, ti core.TimeI
 		if err != nil {
 			return nil, err
 		}
+		if block == nil {
+			// the period starts with the genesis block
+			block, err = pl.bc.GetSnapshotHeaderByHeight(types.GenesisHeight)
+			if err != nil {
+				return nil, err
+			}
+		}
 		point, err := pl.bc.GetSnapshotBlockByHeight(block.Height + 1)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From afe7a27bb1a3d95567ba921dc20d03b0b42f3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:47 +0000
Subject: [PATCH 12/29] fix: a contract call whose data lies beyond the memory
 in use must not crash the VM

The quota of CALL and CALL2 was computed from the data before memory was
resized: reading past the end of the memory panicked (the call could never be
executed), and a large size allocated the data before any quota was checked
(runtime: out of memory, which ends the node).
---
 vm/gas_table.go | 11 +++++++++++
 vm/memory.go    |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/vm/gas_table.go b/vm/gas_table.go
index bceddd5..8382a77 100644
--- a/vm/gas_table.go
+++ b/vm/gas_table.go
@@ -441,6 +441,17 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 		return 0, true, err
 	}
 	toAddrBig, tokenIDBig, amount, inOffset, inSize := stack.back(0), stack.back(1), stack.back(2), stack.back(3), stack.back(4)
+	if inSize.Sign() > 0 {
+		// The data is read before memory is resized, it may be larger than the
+		// memory in use. Do not read data whose quota cannot be paid anyway.
+		size, overflow := helper.BigUint64(inSize)
+		if overflow || inOffset.BitLen() > 63 {
+			return 0, true, util.ErrGasUintOverflow
+		}
+		if size > uint64(mem.len()) && size > c.quotaLeft {
+			return size, true, nil
+		}
+	}
 	toAddress, _ := types.BigToAddress(toAddrBig)
 	tokenID, _ := types.BigToTokenTypeId(tokenIDBig)
 	cost, err := gasRequiredForSendBlock(
diff --git a/vm/memory.go b/vm/memory.go
index 2f79437..69cee1b 100644
--- a/vm/memory.go
+++ b/vm/memory.go
@@ -37,8 +37,9 @@ func (m *memory) get(offset, size int64) (cpy []byte) {
 	}
 
 	if len(m.store) > int(offset) {
+		// bytes beyond the end of the memory read as zero
 		cpy = make([]byte, size)
-		copy(cpy, m.store[offset:offset+size])
+		copy(cpy, m.store[offset:])
 
 		return cpy
 	}
-- 
2.43.0


From fc5b7c4b6e4c06038f0912876ad959420480d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 13/29] fix: rolling back block files beyond the cached ones
 must not crash

---
 ledger/chain/file_manager/fd_manager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 72bca48..48f441a 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -158,8 +158,13 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			fdSet.writeFd = nil
 		}
 
-		cacheItem := fdSet.fileCache.Back().Value.(*fileCacheItem)
-		if cacheItem != nil {
+		// only the latest files are cached
+		back := fdSet.fileCache.Back()
+		if back == nil {
+			break
+		}
+
+		if cacheItem := back.Value.(*fileCacheItem); cacheItem.FileId == i {
 
 			delete(fdSet.fileFdCache, cacheItem.FileId)
 
@@ -170,7 +175,7 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			cacheItem.BufferLen = 0
 			cacheItem.Mu.Unlock()
 
-			fdSet.fileCache.Remove(fdSet.fileCache.Back())
+			fdSet.fileCache.Remove(back)
 		}
 	}
 
-- 
2.43.0


From 49985499c1c9c6db362f097835f067a5150fb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 14/29] fix: keep block files in the cache until their flush is
 finished

---
 ledger/chain/block/flush.go               |  2 ++
 ledger/chain/file_manager/fd_manager.go   | 10 +++++-----
 ledger/chain/file_manager/file_manager.go | 11 +++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ledger/chain/block/flush.go b/ledger/chain/block/flush.go
index 40eb617..814e9a7 100644
--- a/ledger/chain/block/flush.go
+++ b/ledger/chain/block/flush.go
@@ -106,6 +106,8 @@ func (bDB *BlockDB) Commit() error {
 
 // lock write
 func (bDB *BlockDB) AfterCommit() {
+	bDB.fm.FinishFlush()
+
 	bDB.flushStartLocation = nil
 	bDB.flushTargetLocation = nil
 
diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 48f441a..7753565 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -283,17 +283,17 @@ func (fdSet *fdManager) resetWriteFd(location *Location) error {
 		}
 	}
 
-	nextFlushStartLocation := fdSet.fileManager.NextFlushStartLocation()
+	flushedLocation := fdSet.fileManager.flushedLocation
 
 	var newItem *fileCacheItem
 
-	if nextFlushStartLocation != nil {
-		nextFlushStartFileId := nextFlushStartLocation.FileId
+	if flushedLocation != nil {
+		flushedFileId := flushedLocation.FileId
 
 		// remove stale cache
 		for fdSet.fileCache.Len() > fdSet.fileCacheLength {
 			item := fdSet.fileCache.Front().Value.(*fileCacheItem)
-			if item.FileId >= nextFlushStartFileId {
+			if item.FileId >= flushedFileId {
 				break
 			}
 
@@ -304,7 +304,7 @@ func (fdSet *fdManager) resetWriteFd(location *Location) error {
 		// ring buffer. reuse cache
 		if fdSet.fileCache.Len() >= fdSet.fileCacheLength {
 			newItem = fdSet.fileCache.Front().Value.(*fileCacheItem)
-			if newItem.FileId < nextFlushStartFileId {
+			if newItem.FileId < flushedFileId {
 				fdSet.fileCache.MoveToBack(fdSet.fileCache.Front())
 
 				delete(fdSet.fileFdCache, newItem.FileId)
diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index e55c8c7..46a5a57 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -16,6 +16,8 @@ type FileManager struct {
 	fdSet                  *fdManager
 	nextFlushStartLocation *Location
 	prevFlushLocation      *Location
+	// the files are complete up to flushedLocation, it is behind nextFlushStartLocation while flushing
+	flushedLocation *Location
 
 	fSyncWg sync.WaitGroup
 	log     log15.Logger
@@ -35,6 +37,7 @@ func NewFileManager(dirName string, fileSize int64, cacheCount int) (*FileManage
 	fm.fdSet = fdSet
 	fm.nextFlushStartLocation = fm.fdSet.LatestLocation()
 	fm.prevFlushLocation = fm.nextFlushStartLocation
+	fm.flushedLocation = fm.nextFlushStartLocation
 
 	return fm, nil
 }
@@ -50,6 +53,11 @@ func (fm *FileManager) SetNextFlushStartLocation(location *Location) {
 	fm.nextFlushStartLocation = NewLocation(location.FileId, location.Offset)
 }
 
+// FinishFlush is called when everything before nextFlushStartLocation is flushed
+func (fm *FileManager) FinishFlush() {
+	fm.flushedLocation = fm.nextFlushStartLocation
+}
+
 func (fm *FileManager) LatestLocation() *Location {
 	return fm.fdSet.LatestLocation()
 }
@@ -85,6 +93,9 @@ func (fm *FileManager) DeleteTo(location *Location) error {
 	if location.Compare(fm.nextFlushStartLocation) < 0 {
 		fm.nextFlushStartLocation = location
 	}
+	if location.Compare(fm.flushedLocation) < 0 {
+		fm.flushedLocation = location
+	}
 
 	// FOR DEBUG
 	//fm.log.Info(fmt.Sprintf("file manager delete to %+v, fm.nextFlushStartLocation is %+v, latest location is %+v", location, fm.nextFlushStartLocation, fm.LatestLocation()), "method", "DeleteTo")
-- 
2.43.0


From 04cd071f26b250bb30ca1dec4da8c5518ce46083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:20 +0000
Subject: [PATCH 15/29] fix: flushing into the middle of a block file must not
 truncate it

---
 ledger/chain/file_manager/fd.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ledger/chain/file_manager/fd.go b/ledger/chain/file_manager/fd.go
index bd02062..c1c7d07 100644
--- a/ledger/chain/file_manager/fd.go
+++ b/ledger/chain/file_manager/fd.go
@@ -98,14 +98,23 @@ func (fd *fileDescription) Flush(startOffset int64, buf []byte) (int, error) {
 	}
 
 	if cacheItem.FileWriter == nil {
-		fd, err := fd.fdSet.createNewFile(cacheItem.FileId)
-		if err != nil {
-			return 0, fmt.Errorf("fdSet.createNewFile failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+		var file *os.File
+		var err error
+		if startOffset > 0 {
+			// the file already holds what precedes startOffset, do not truncate it
+			if file, err = fd.fdSet.getFileFd(cacheItem.FileId); err != nil {
+				return 0, fmt.Errorf("fdSet.getFileFd failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+			}
+		}
+		if file == nil {
+			if file, err = fd.fdSet.createNewFile(cacheItem.FileId); err != nil {
+				return 0, fmt.Errorf("fdSet.createNewFile failed, fileId is %d. Error: %s,", cacheItem.FileId, err)
+			}
 		}
-		if fd == nil {
+		if file == nil {
 			return 0, errors.New("fd is nil")
 		}
-		cacheItem.FileWriter = fd
+		cacheItem.FileWriter = file
 	}
 
 	file := cacheItem.FileWriter
-- 
2.43.0


From e3be7763c27493bdffae51c7a1adeec41d6ca87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:13 +0000
Subject: [PATCH 16/29] fix: a store removed from the wallet by its relative
 name is forgotten

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index fc78e87..5a44285 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -272,7 +272,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 	manager, ok := m.entropyStoreManager[absPath]
 	if ok {
 		manager.Lock()
-		delete(m.entropyStoreManager, entropyStore)
+		delete(m.entropyStoreManager, absPath)
 	}
 }
 
-- 
2.43.0


From 2459db444bad4be9e13f0516aa2bb4dfdff0f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:13 +0000
Subject: [PATCH 17/29] fix: a second lock event listener of the wallet must
 not replace the first

---
 wallet/manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 5a44285..f7935b5 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -337,7 +337,7 @@ func (m *Manager) Stop() {
 	m.entropyStoreManager = nil
 }
 
-func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
+func (m *Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
 	m.mutex.Lock()
 	defer m.mutex.Unlock()
 
@@ -346,7 +346,7 @@ func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent))
 	return m.unlockChangedIndex
 }
 
-func (m Manager) RemoveUnlockChangeChannel(id int) {
+func (m *Manager) RemoveUnlockChangeChannel(id int) {
 	m.mutex.Lock()
 	defer m.mutex.Unlock()
 	delete(m.unlockChangedLis, id)
-- 
2.43.0


From 16f6a48c4cf026aeeb53ca9409c83cda700b7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:13 +0000
Subject: [PATCH 18/29] fix: find an address by passphrase although another
 store has a different one

---
 wallet/manager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index f7935b5..fb3a2ed 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -176,18 +176,21 @@ func (m Manager) GlobalFindAddr(targetAdr types.Address) (path string, key *deri
 
 // Deprecated
 func (m Manager) GlobalFindAddrWithPassphrase(targetAdr types.Address, pass string) (path string, key *derivation.Key, index uint32, err error) {
+	findErr := walleterrors.ErrAddressNotFound
 	for path, em := range m.entropyStoreManager {
 		key, index, err = em.FindAddrWithPassphrase(pass, targetAdr)
 		if err == walleterrors.ErrAddressNotFound {
 			continue
 		}
 		if err != nil {
-			return "", nil, 0, err
+			// the passphrase may be that of another store
+			findErr = err
+			continue
 		}
 		return path, key, index, nil
 
 	}
-	return "", nil, 0, walleterrors.ErrAddressNotFound
+	return "", nil, 0, findErr
 }
 
 func (m Manager) ListEntropyFilesInStandardDir() ([]string, error) {
-- 
2.43.0


From db972bd92af72692f688da22f066dbda5fc604e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:13 +0000
Subject: [PATCH 19/29] fix: a recovered store searches as many addresses as
 the wallet is configured to

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index fb3a2ed..c1ff78a 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -280,7 +280,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 }
 
 func (m *Manager) RecoverEntropyStoreFromMnemonic(mnemonic string, passphrase string) (em *entropystore.Manager, err error) {
-	sm, e := entropystore.StoreNewEntropy(m.config.DataDir, mnemonic, passphrase, entropystore.DefaultMaxIndex)
+	sm, e := entropystore.StoreNewEntropy(m.config.DataDir, mnemonic, passphrase, m.config.MaxSearchIndex)
 	if e != nil {
 		return nil, e
 	}
-- 
2.43.0


From 2e27a9890458ee8b1ca2edd8466f02ed4fd2d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:42 +0000
Subject: [PATCH 20/29] fix: a restart must not remove the finished files of
 the sync cache

---
 ledger/chain/sync_cache/sync_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/sync_cache/sync_cache.go b/ledger/chain/sync_cache/sync_cache.go
index 7a3e295..ab2c88c 100644
--- a/ledger/chain/sync_cache/sync_cache.go
+++ b/ledger/chain/sync_cache/sync_cache.go
@@ -98,7 +98,7 @@ func (cache *syncCache) loadCaches() (err error) {
 			cache.caches[i] = nil
 			cache.cleanItem(item)
 		} else {
-			keepFiles[item.filename] = struct{}{}
+			keepFiles[path.Base(item.filename)] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From b5abde49b22a3e27c8d96c2f99926f29cce4da9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:49:43 +0000
Subject: [PATCH 21/29] fix: deliver chain events to subscribers in the order
 they happen

New and removed blocks went through different channels, and the event loop
picks one of the ready channels at random, so that a subscriber could be told
of a block's removal before its insertion (and keep a block that is gone).
One channel per chain keeps the order.
---
 rpcapi/api/filters/chain_subscribe.go | 10 +++----
 rpcapi/api/filters/event_system.go    | 42 ++++++++++++++-------------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/rpcapi/api/filters/chain_subscribe.go b/rpcapi/api/filters/chain_subscribe.go
index 92a744e..c1e50a5 100644
--- a/rpcapi/api/filters/chain_subscribe.go
+++ b/rpcapi/api/filters/chain_subscribe.go
@@ -73,7 +73,7 @@ func (c *ChainSubscribe) InsertAccountBlocks(blocks []*interfaces.VmAccountBlock
 	for i, b := range blocks {
 		acEvents[i] = NewAccountChainEvent(b.AccountBlock, b.VmDb.GetLogList())
 	}
-	c.es.acCh <- acEvents
+	c.es.acCh <- acChange{acEvents, false}
 	return nil
 }
 
@@ -85,7 +85,7 @@ func (c *ChainSubscribe) InsertSnapshotBlocks(chunks []*ledger.SnapshotChunk) er
 	for _, chunk := range chunks {
 		sbEvents = append(sbEvents, &SnapshotChainEvent{chunk.SnapshotBlock.Hash, chunk.SnapshotBlock.Height})
 	}
-	c.es.sbCh <- sbEvents
+	c.es.sbCh <- sbChange{sbEvents, false}
 	return nil
 }
 func (c *ChainSubscribe) PrepareDeleteAccountBlocks(blocks []*ledger.AccountBlock) error {
@@ -107,7 +107,7 @@ func (c *ChainSubscribe) PrepareDeleteAccountBlocks(blocks []*ledger.AccountBloc
 func (c *ChainSubscribe) DeleteAccountBlocks(blocks []*ledger.AccountBlock) error {
 	deletedBlocks := c.preDeleteAccountBlocks
 	c.preDeleteAccountBlocks = nil
-	c.es.acDelCh <- deletedBlocks
+	c.es.acCh <- acChange{deletedBlocks, true}
 	return nil
 }
 func (c *ChainSubscribe) PrepareDeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
@@ -135,12 +135,12 @@ func (c *ChainSubscribe) DeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) er
 			sbEvents = append(sbEvents, &SnapshotChainEvent{b.SnapshotBlock.Hash, b.SnapshotBlock.Height})
 		}
 	}
-	c.es.sbDelCh <- sbEvents
+	c.es.sbCh <- sbChange{sbEvents, true}
 
 	if len(c.preDeleteAccountBlocks) > 0 {
 		deletedBlocks := c.preDeleteAccountBlocks
 		c.preDeleteAccountBlocks = nil
-		c.es.acDelCh <- deletedBlocks
+		c.es.acCh <- acChange{deletedBlocks, true}
 	}
 	return nil
 }
diff --git a/rpcapi/api/filters/event_system.go b/rpcapi/api/filters/event_system.go
index 17b5b67..503da07 100644
--- a/rpcapi/api/filters/event_system.go
+++ b/rpcapi/api/filters/event_system.go
@@ -43,24 +43,32 @@ type subscription struct {
 	onroadMsgCh              chan []*OnroadMsg
 }
 
+// acChange holds account blocks that were inserted together or, when the chain forks, removed together
+type acChange struct {
+	events  []*AccountChainEvent
+	removed bool
+}
+
+// sbChange holds snapshot blocks that were inserted together or, when the chain forks, removed together
+type sbChange struct {
+	events  []*SnapshotChainEvent
+	removed bool
+}
+
 type EventSystem struct {
 	vite      *vite.Vite
 	chain     *ChainSubscribe
-	install   chan *subscription        // install filter
-	uninstall chan *subscription        // remove filter
-	acCh      chan []*AccountChainEvent // Channel to receive new account chain event
-	acDelCh   chan []*AccountChainEvent // Channel to receive new account chain delete event when account chain fork
-	sbCh      chan []*SnapshotChainEvent
-	sbDelCh   chan []*SnapshotChainEvent
+	install   chan *subscription // install filter
+	uninstall chan *subscription // remove filter
+	acCh      chan acChange      // Channel to receive account chain events, in the order of the chain's changes
+	sbCh      chan sbChange      // Channel to receive snapshot chain events, in the order of the chain's changes
 	stop      chan struct{}
 	log       log15.Logger
 }
 
 const (
 	acChanSize    = 100
-	acDelChanSize = 10
 	sbChanSize    = 10
-	sbDelChanSize = 10
 	installSize   = 10
 	uninstallSize = 10
 )
@@ -68,10 +76,8 @@ const (
 func NewEventSystem(v *vite.Vite) *EventSystem {
 	es := &EventSystem{
 		vite:      v,
-		acCh:      make(chan []*AccountChainEvent, acChanSize),
-		acDelCh:   make(chan []*AccountChainEvent, acDelChanSize),
-		sbCh:      make(chan []*SnapshotChainEvent, sbChanSize),
-		sbDelCh:   make(chan []*SnapshotChainEvent, sbDelChanSize),
+		acCh:      make(chan acChange, acChanSize),
+		sbCh:      make(chan sbChange, sbChanSize),
 		install:   make(chan *subscription, installSize),
 		uninstall: make(chan *subscription, uninstallSize),
 		stop:      make(chan struct{}),
@@ -99,14 +105,10 @@ func (es *EventSystem) eventLoop() {
 
 	for {
 		select {
-		case acEvent := <-es.acCh:
-			es.handleAcEvent(index, acEvent, false)
-		case acDelEvent := <-es.acDelCh:
-			es.handleAcEvent(index, acDelEvent, true)
-		case sbEvent := <-es.sbCh:
-			es.handleSbEvent(index, sbEvent, false)
-		case sbDelEvent := <-es.sbDelCh:
-			es.handleSbEvent(index, sbDelEvent, true)
+		case ac := <-es.acCh:
+			es.handleAcEvent(index, ac.events, ac.removed)
+		case sb := <-es.sbCh:
+			es.handleSbEvent(index, sb.events, sb.removed)
 		case i := <-es.install:
 			es.log.Info("install ", "id", i.id)
 			index[i.typ][i.id] = i
-- 
2.43.0


From d462afae97961ff2f61827b67d4611270e2b51fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:49:43 +0000
Subject: [PATCH 22/29] fix: log query over several addresses

With more than one address every log was reported with the address visited
last (the loop variable's address was taken), the addresses were visited in
random order, so that pages overlapped and missed logs, and a page could
exceed its size, as only the loop of the current address ended.
---
 rpcapi/api/ledger_v2.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rpcapi/api/ledger_v2.go b/rpcapi/api/ledger_v2.go
index b8b212c..09aa8f4 100644
--- a/rpcapi/api/ledger_v2.go
+++ b/rpcapi/api/ledger_v2.go
@@ -1,8 +1,10 @@
 package api
 
 import (
+	"bytes"
 	"fmt"
 	"math/big"
+	"sort"
 
 	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/errors"
 	"github.com/vitelabs/go-vite/v2/common/types"
@@ -455,9 +457,21 @@ func GetLogs(c chain.Chain, rangeMap map[string]*Range, topics [][]types.Hash, p
 
 	skipCount := uint64(pageIndex * pageSize)
 
+	// go through the addresses in a fixed order, so that the pages fit together
+	addrs := make([]types.Address, 0, len(filterParam.AddrRange))
+	for addr := range filterParam.AddrRange {
+		addrs = append(addrs, addr)
+	}
+	sort.Slice(addrs, func(i, j int) bool { return bytes.Compare(addrs[i][:], addrs[j][:]) < 0 })
+
 	var logs []*Logs
 	var maxSizeReached bool
-	for addr, hr := range filterParam.AddrRange {
+	for i := range addrs {
+		if maxSizeReached {
+			break
+		}
+		addr := addrs[i]
+		hr := filterParam.AddrRange[addr]
 		startHeight := hr.FromHeight
 		endHeight := hr.ToHeight
 		acc, err := c.GetLatestAccountBlock(addr)
-- 
2.43.0


From 4d8aa335a227e250a2dcef9ba40fd2374a4ee194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:25 +0000
Subject: [PATCH 23/29] fix: list a transferred genesis token once for its
 owner

GetTokenInfoListByOwner (contract_getTokenInfoListByOwner and the
deprecated mintage query) adds the genesis tokens an address owns to
those in the asset contract's list of the owner.  Once the ownership of
a genesis token was transferred it is in that list already, and was
answered twice.
---
 rpcapi/api/mintage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rpcapi/api/mintage.go b/rpcapi/api/mintage.go
index e38d219..c8dee11 100644
--- a/rpcapi/api/mintage.go
+++ b/rpcapi/api/mintage.go
@@ -94,6 +94,14 @@ func (m MintageAPI) GetChangeTokenTypeData(tokenId types.TokenTypeId) ([]byte, e
 func checkGenesisToken(db interfaces.VmDb, owner types.Address, genesisTokenInfoMap map[string]*config.TokenInfo, tokenList []*RpcTokenInfo) ([]*RpcTokenInfo, error) {
 	for tidStr := range genesisTokenInfoMap {
 		tid, _ := types.HexToTokenTypeId(tidStr)
+		// a genesis token is in the owner's list once its ownership was transferred
+		listed := false
+		for _, token := range tokenList {
+			listed = listed || token.TokenId == tid
+		}
+		if listed {
+			continue
+		}
 		info, err := abi.GetTokenByID(db, tid)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 5f0d81f33e9c2f9d259fd9789e21517b24615828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 24/29] fix: reading a file of blocks beyond its end is an
 error, not a crash

A sub-ledger read beside a roll back could ask for more bytes than the file
still has; the negative length made the node panic.
---
 ledger/chain/file_manager/file_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index 46a5a57..c55d129 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -294,6 +294,10 @@ func (fm *FileManager) GetCacheStatusList() []interfaces.DBStatus {
 }
 
 func (fm *FileManager) readFile(fd *fileDescription, fromLocation *Location, toLocation *Location) ([]byte, error) {
+	if toLocation.Offset < fromLocation.Offset {
+		// rolled back since the range was determined
+		return nil, fmt.Errorf("location %s is behind the end %s", fromLocation, toLocation)
+	}
 	buf := make([]byte, toLocation.Offset-fromLocation.Offset)
 
 	readN, rErr := fd.ReadAt(buf, fromLocation.Offset)
-- 
2.43.0


From 973775e1ae31baa5178654c0d53831a23d07b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 25/29] fix: listing account blocks beside a roll back does not
 run out of bounds

The locations found can become fewer than the heights asked for while blocks
are rolled back; the difference was indexed without a check.
---
 ledger/chain/account_block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/account_block.go b/ledger/chain/account_block.go
index 88278df..f4f5b83 100644
--- a/ledger/chain/account_block.go
+++ b/ledger/chain/account_block.go
@@ -347,9 +347,13 @@ func (c *chain) getAccountBlocks(addr types.Address, locations []*chain_file_man
 	index := 0
 
 	for currentHeight >= startHeight {
+		if len(locations) <= index {
+			// rolled back while the locations were read
+			return nil, nil
+		}
 		block := c.cache.GetAccountBlockByHeight(addr, currentHeight)
 		if block == nil {
-			if len(locations) <= index || locations[index] == nil {
+			if locations[index] == nil {
 				return nil, nil
 			}
 			var err error
-- 
2.43.0


From 747bf02a5b9f85458582820270516c1a73a628b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 26/29] fix: switch the state cache on and off atomically

The flag is set under the chain's write lock but read by queries without it.
---
 ledger/chain/state/cache.go    | 15 +++++++++++----
 ledger/chain/state/state_db.go |  6 +++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/ledger/chain/state/cache.go b/ledger/chain/state/cache.go
index b9f3220..10f059e 100644
--- a/ledger/chain/state/cache.go
+++ b/ledger/chain/state/cache.go
@@ -1,6 +1,8 @@
 package chain_state
 
 import (
+	"sync/atomic"
+
 	"github.com/patrickmn/go-cache"
 
 	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
@@ -39,11 +41,16 @@ func (sDB *StateDB) initCache() error {
 }
 
 func (sDB *StateDB) disableCache() {
-	sDB.useCache = false
+	atomic.StoreUint32(&sDB.useCache, 0)
 }
 
 func (sDB *StateDB) enableCache() {
-	sDB.useCache = true
+	atomic.StoreUint32(&sDB.useCache, 1)
+}
+
+// cacheEnabled tells readers, which may run beside a roll back, whether to use the cache.
+func (sDB *StateDB) cacheEnabled() bool {
+	return atomic.LoadUint32(&sDB.useCache) == 1
 }
 
 func (sDB *StateDB) initSnapshotValueCache() error {
@@ -84,7 +91,7 @@ func (sDB *StateDB) initContractMetaCache() error {
 func (sDB *StateDB) getValue(key []byte, cachePrefix string) ([]byte, error) {
 	ok := false
 	var value interface{}
-	if sDB.useCache {
+	if sDB.cacheEnabled() {
 		value, ok = sDB.cache.Get(cachePrefix + string(key))
 	}
 	if !ok {
@@ -98,7 +105,7 @@ func (sDB *StateDB) getValue(key []byte, cachePrefix string) ([]byte, error) {
 }
 
 func (sDB *StateDB) getValueInCache(key []byte, cachePrefix string) ([]byte, error) {
-	if !sDB.useCache {
+	if !sDB.cacheEnabled() {
 		return sDB.getValue(key, cachePrefix)
 	}
 	value, ok := sDB.cache.Get(cachePrefix + string(key))
diff --git a/ledger/chain/state/state_db.go b/ledger/chain/state/state_db.go
index bc9d3a1..6c19345 100644
--- a/ledger/chain/state/state_db.go
+++ b/ledger/chain/state/state_db.go
@@ -40,7 +40,7 @@ type StateDB struct {
 	log log15.Logger
 
 	redo     *Redo
-	useCache bool
+	useCache uint32 // accessed atomically
 
 	consensusCacheLevel uint32
 	roundCache          *RoundCache
@@ -75,7 +75,7 @@ func NewStateDBWithStore(chain Chain, chainCfg *config.Chain, store *chain_db.St
 		vmLogAll:            chainCfg.VmLogAll,
 		log:                 log15.New("module", "stateDB"),
 		store:               store,
-		useCache:            false,
+		useCache:            0,
 		consensusCacheLevel: ConsensusNoCache,
 		redo:                storageRedo,
 	}
@@ -310,7 +310,7 @@ func (sDB *StateDB) GetSnapshotBalanceList(balanceMap map[types.Address]*big.Int
 
 func (sDB *StateDB) GetSnapshotValue(snapshotBlockHeight uint64, addr types.Address, key []byte) ([]byte, error) {
 
-	if sDB.useCache && sDB.shouldCacheContractData(addr) && snapshotBlockHeight == sDB.chain.GetLatestSnapshotBlock().Height {
+	if sDB.cacheEnabled() && sDB.shouldCacheContractData(addr) && snapshotBlockHeight == sDB.chain.GetLatestSnapshotBlock().Height {
 		return sDB.getValueInCache(append(addr.Bytes(), key...), snapshotValuePrefix)
 	}
 
-- 
2.43.0


From dab1b0f2b5645077a1c528b216124747a2acffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 27/29] fix: read the latest location of the block files under
 its lock

LatestLocation read the cache item that a concurrent write changes.
---
 ledger/chain/file_manager/fd_manager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 7753565..0e31f6f 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -86,8 +86,12 @@ func newFdManager(fileManager *FileManager, dirName string, fileSize int, cacheL
 }
 
 func (fdSet *fdManager) LatestLocation() *Location {
-	writeFd := fdSet.GetWriteFd()
-	return NewLocation(writeFd.cacheItem.FileId, writeFd.cacheItem.BufferLen)
+	cacheItem := fdSet.GetWriteFd().cacheItem
+
+	cacheItem.Mu.RLock()
+	defer cacheItem.Mu.RUnlock()
+
+	return NewLocation(cacheItem.FileId, cacheItem.BufferLen)
 }
 
 func (fdSet *fdManager) GetFd(fileId uint64) (*fileDescription, error) {
-- 
2.43.0


From ad040600fcf5b3c1405382f192456ca63dd127f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 28/29] fix: use the sequence number drawn for an entry of the
 memdb

Two writers could both store under the sequence number drawn last.
---
 common/db/memdb.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/db/memdb.go b/common/db/memdb.go
index a74c742..15fb0a5 100644
--- a/common/db/memdb.go
+++ b/common/db/memdb.go
@@ -40,17 +40,17 @@ func (mDb *MemDB) Put(key, value []byte) {
 	//mDb.copyMu.RLock()
 	//defer mDb.copyMu.RUnlock()
 
-	atomic.AddUint64(&mDb.seq, 1)
+	seq := atomic.AddUint64(&mDb.seq, 1)
 
-	mDb.storage.Put(leveldb.MakeInternalKey(nil, key, mDb.seq, leveldb.KeyTypeVal), value)
+	mDb.storage.Put(leveldb.MakeInternalKey(nil, key, seq, leveldb.KeyTypeVal), value)
 }
 
 func (mDb *MemDB) Delete(key []byte) {
 	//mDb.copyMu.RLock()
 	//defer mDb.copyMu.RUnlock()
 
-	atomic.AddUint64(&mDb.seq, 1)
-	mDb.storage.Put(leveldb.MakeInternalKey(nil, key, mDb.seq, leveldb.KeyTypeDel), nil)
+	seq := atomic.AddUint64(&mDb.seq, 1)
+	mDb.storage.Put(leveldb.MakeInternalKey(nil, key, seq, leveldb.KeyTypeDel), nil)
 }
 
 func (mDb *MemDB) Len() int {
-- 
2.43.0


From 944f9b31c366805d41a9451efd904e8db155f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 29/29] fix: build the cache of rounds from the redo logs in
 the order of height

The chain returns the snapshot blocks of a round latest first, so after a
restart the votes and balances of a round were those of its first snapshot
block that changed them, not of its last.
---
 ledger/chain/state/round_cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/state/round_cache.go b/ledger/chain/state/round_cache.go
index 0442517..55a32b5 100644
--- a/ledger/chain/state/round_cache.go
+++ b/ledger/chain/state/round_cache.go
@@ -3,6 +3,7 @@ package chain_state
 import (
 	"fmt"
 	"math/big"
+	"sort"
 	"sync"
 
 	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
@@ -736,10 +737,19 @@ func (cache *RoundCache) getRoundSnapshotBlocks(roundIndex uint64) ([]*ledger.Sn
 		panic(fmt.Sprintf("nextFirstSbRoundIndex should be smaller than roundIndex. nextFirstSbRoundIndex: %d, roundIndex: %d", nextFirstSbRoundIndex, roundIndex))
 	}
 
-	return cache.chain.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{
+	snapshotBlocks, err := cache.chain.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{
 		Hash:   currentLastSb.Hash,
 		Height: currentLastSb.Height,
 	}, &startTime, nil)
+	if err != nil {
+		return nil, err
+	}
+
+	// the chain returns the latest snapshot block first, the redo logs must be applied in the order of height
+	sort.Slice(snapshotBlocks, func(i, j int) bool {
+		return snapshotBlocks[i].Height < snapshotBlocks[j].Height
+	})
+	return snapshotBlocks, nil
 }
 
 func (cache *RoundCache) setAllBalanceToCache(roundData *memdb.DB, snapshotHash types.Hash) error {
-- 
2.43.0

