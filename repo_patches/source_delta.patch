From 9336c355ea333b6b89ecdfb06f6e83f667b1bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 01/33] fix: reject batch configs whose threshold overflows int

int(Threshold) is negative for thresholds of 2^63 and more, so EnsureValid
accepted them; the negative number of required votes then let a single
keyper decide every later config vote.
---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From 3003bf19bade04991bd111d26e54616a3275a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 02/33] fix: do not carry votes for starting a batch config
 over to the next one

StartedVotes was kept when a new config was accepted, so votes naming the
old config (cast by keypers of an even older one) started the new config.
---
 shuttermint/app/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..a86cb31 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,8 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	// Votes for starting the previous config must not count for the new one.
+	app.StartedVotes = make(map[common.Address]struct{})
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From 3a02391be0ff267ae8c6826993a18e7f7a963340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 03/33] fix: keyper never reconnects to shuttermint while main
 chain blocks arrive

SyncShutter restarted the idle timeout for every filter it received, so a
broken event subscription was never noticed.
---
 shuttermint/keyper/observe/shutter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..afc7ec3 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -560,6 +560,9 @@ func SyncShutter(ctx context.Context, shmcl client.Client, shutter *Shutter, shu
 		}
 	}
 
+	// The timeout must not be restarted when a filter is applied: filters keep coming in as long
+	// as there are main chain blocks.
+	timeout := time.After(shuttermintTimeout)
 	for {
 		select {
 		case <-ctx.Done():
@@ -567,6 +570,7 @@ func SyncShutter(ctx context.Context, shmcl client.Client, shutter *Shutter, shu
 		case f := <-filter:
 			shutter = shutter.ApplyFilter(f)
 		case <-events:
+			timeout = time.After(shuttermintTimeout)
 			newShutter, err := shutter.SyncToHead(ctx, shmcl)
 			if err != nil {
 				if err != context.Canceled {
@@ -581,9 +585,10 @@ func SyncShutter(ctx context.Context, shmcl client.Client, shutter *Shutter, shu
 
 				shutter = newShutter
 			}
-		case <-time.After(shuttermintTimeout):
+		case <-timeout:
 			log.Println("No Shuttermint blocks received in a long time")
 			reconnect()
+			timeout = time.After(shuttermintTimeout)
 		}
 	}
 }
-- 
2.43.0


From 1b409dec38ac64f841c054cd40edf0f7f18323e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 04/33] fix: applying a filter drops epoch secret key shares
 not yet handled

---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index afc7ec3..24ae429 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From 242b5130b355855f85ce0b8df6207589bfae2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 05/33] fix: nil dereference when the main chain node cannot be
 reached before sending a tx

---
 shuttermint/keyper/fx/runenv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..c92016d 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -66,11 +66,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var auth *bind.TransactOpts
 
 	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
+
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
-- 
2.43.0


From 8e4804ed85990a45539d76f8795ad8f3e2470ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 06/33] fix: keyper rejects the DKG messages it receives after
 a restart

gob turns the nil polynomial evaluations and commitments in the stored state
into zero values, and puredkg takes those for already received messages.
---
 shuttermint/keyper/decide.go | 22 ++++++++++++++++++++++
 shuttermint/keyper/keyper.go |  1 +
 2 files changed, 23 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3b2e1df..dcfe966 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -273,6 +273,28 @@ func NewState() *State {
 	}
 }
 
+// restoreNilValues undoes what gob does to nil pointers in a slice when a State object has been
+// encoded and decoded: it turns them into pointers to zero values. The puredkg package uses nil for
+// polynomial evaluations and commitments that haven't been received.
+func (st *State) restoreNilValues() {
+	for i := range st.DKGs {
+		pure := st.DKGs[i].Pure
+		if pure == nil {
+			continue
+		}
+		for j, eval := range pure.Evals {
+			if eval != nil && eval.Sign() == 0 {
+				pure.Evals[j] = nil
+			}
+		}
+		for j, gammas := range pure.Commitments {
+			if gammas != nil && len(*gammas) == 0 {
+				pure.Commitments[j] = nil
+			}
+		}
+	}
+}
+
 // GetShutterFilter returns the shutter filter to be applied to the Shutter state.
 func (st *State) GetShutterFilter(mainChain *observe.MainChain) observe.ShutterFilter {
 	return observe.ShutterFilter{
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..35ffef3 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -329,6 +329,7 @@ func (kpr *Keyper) LoadState() error {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
+	st.State.restoreNilValues()
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
-- 
2.43.0


From 4b4e155eee0659fd91263aedb7636ca0f982f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 07/33] fix: keyper decrypts a batch before it has seen all of
 its transactions

If the main chain view of a keyper lags behind those of the others, the epoch
secret key was applied to a partial or missing batch. The keyper signed the
wrong result, executed it without signatures if it believed the batch to be
empty, and accused those who executed the right one.
---
 shuttermint/keyper/decide.go | 41 ++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index dcfe966..d297397 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -243,6 +243,12 @@ func (dkg *DKG) syncApologies(syncHeight int64, eon observe.Eon) {
 	}
 }
 
+// EpochSecretKeyToHandle is an epoch secret key together with the epoch it belongs to.
+type EpochSecretKeyToHandle struct {
+	Epoch uint64
+	Key   *shcrypto.EpochSecretKey
+}
+
 // State is the keyper's internal state.
 type State struct {
 	CheckInMessageSent       bool
@@ -256,6 +262,10 @@ type State struct {
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
 
+	// EpochSecretKeysToHandle holds the epoch secret keys of batches that we haven't decrypted
+	// yet, because our view of the main chain does not contain the whole batch.
+	EpochSecretKeysToHandle []EpochSecretKeyToHandle
+
 	// We store the actions that should be executed together with a counter. When starting the
 	// program, we feed these actions into runenv, which can use the counter to identify the
 	// actions.
@@ -683,12 +693,31 @@ func (dcdr *Decider) syncEKGWithEon(syncHeight int64, ekg *EKG, eon *observe.Eon
 		}
 		if key, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
 			log.Printf("Epoch secret key generated for epoch %d", share.Epoch)
-			dcdr.decryptTransactions(key, share.Epoch)
-			if !dcdr.executionTimeoutReachedOrInactive(share.Epoch) {
-				dcdr.sendDecryptionSignature(share.Epoch)
-			}
+			dcdr.State.EpochSecretKeysToHandle = append(
+				dcdr.State.EpochSecretKeysToHandle,
+				EpochSecretKeyToHandle{Epoch: share.Epoch, Key: key},
+			)
+		}
+	}
+}
+
+// handleEpochSecretKeys decrypts the batches we have the epoch secret key for. It defers handling
+// those batches that are not complete in our view of the main chain, which may lag behind the one
+// of the keypers who have sent the shares.
+func (dcdr *Decider) handleEpochSecretKeys() {
+	var deferred []EpochSecretKeyToHandle
+	for _, k := range dcdr.State.EpochSecretKeysToHandle {
+		config, ok := dcdr.MainChain.ConfigForBatchIndex(k.Epoch)
+		if ok && dcdr.MainChain.CurrentBlock < config.BatchEndBlock(k.Epoch) {
+			deferred = append(deferred, k)
+			continue
+		}
+		dcdr.decryptTransactions(k.Key, k.Epoch)
+		if !dcdr.executionTimeoutReachedOrInactive(k.Epoch) {
+			dcdr.sendDecryptionSignature(k.Epoch)
 		}
 	}
+	dcdr.State.EpochSecretKeysToHandle = deferred
 }
 
 // Add a prefix to avoid accidentally signing data with special meaning in different context, in
@@ -746,8 +775,7 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 	batchIndex := epoch
 	batch, ok := dcdr.MainChain.Batches[batchIndex]
 	if !ok {
-		// We may run into this case if our main chain node is lagging behind or if the
-		// batch is empty. XXX The former case is not being handled here.
+		// We run into this case if the batch is empty.
 		log.Printf("Batch missing for batch index=%d", batchIndex)
 		batch = &observe.Batch{BatchIndex: batchIndex}
 	}
@@ -841,6 +869,7 @@ func (dcdr *Decider) executionTimeoutReachedOrInactive(batchIndex uint64) bool {
 
 func (dcdr *Decider) handleEpochKG() {
 	dcdr.syncEKGs()
+	dcdr.handleEpochSecretKeys()
 	dcdr.publishEpochSecretKeyShares()
 }
 
-- 
2.43.0


From 2b8f2a2f3dfadb28cb3b15a7ce2f1702424b46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 08/33] fix: wrong execution is never accused if it happens
 before the batch is decrypted

---
 shuttermint/keyper/decide.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index d297397..82b1ff7 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -261,6 +261,7 @@ type State struct {
 	NextEpochSecretShare     uint64
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
+	HalfStepsToCheck         []uint64 // executed before we have decrypted their batch
 
 	// EpochSecretKeysToHandle holds the epoch secret keys of batches that we haven't decrypted
 	// yet, because our view of the main chain does not contain the whole batch.
@@ -1154,7 +1155,13 @@ func (dcdr *Decider) maybeAppeal() {
 }
 
 func (dcdr *Decider) maybeAccuse() {
+	halfSteps := dcdr.State.HalfStepsToCheck
+	dcdr.State.HalfStepsToCheck = nil
 	for halfStep := dcdr.State.HalfStepsChecked; halfStep < dcdr.MainChain.NumExecutionHalfSteps; halfStep++ {
+		halfSteps = append(halfSteps, halfStep)
+	}
+
+	for _, halfStep := range halfSteps {
 		if halfStep%2 != 0 {
 			continue // only accuse for cipher execution half steps, not plain ones
 		}
@@ -1169,6 +1176,8 @@ func (dcdr *Decider) maybeAccuse() {
 
 		stBatch, ok := dcdr.State.Batches[batchIndex]
 		if !ok {
+			// check it again once we have the epoch secret key
+			dcdr.State.HalfStepsToCheck = append(dcdr.State.HalfStepsToCheck, halfStep)
 			continue
 		}
 
-- 
2.43.0


From 57c11ea64eaa797027b798a6645bfa89297df28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 09/33] fix: events are applied twice after the main chain node
 has fallen behind

---
 shuttermint/keyper/observe/mainchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..8e53d93 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -344,6 +344,12 @@ func (mainchain *MainChain) SyncToHead(
 		syncUntilBlockNumber = 0
 	}
 
+	if syncUntilBlockNumber < mainchain.CurrentBlock {
+		// The node has fallen behind. We must not apply the events of those blocks again when it
+		// catches up.
+		return mainchain, nil
+	}
+
 	mainchain = mainchain.Clone()
 
 	opts := &bind.CallOpts{
-- 
2.43.0


From 738e97f01d277e90ef69d5c7b52068ed201e9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 10/33] fix: skipping a cipher batch overwrites the receipt of
 half step 0

---
 shuttermint/keyper/observe/mainchain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 8e53d93..6d3f1de 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,6 +223,9 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
+		if !receipt.Executed {
+			continue // the half step was skipped, there's no receipt
+		}
 		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
-- 
2.43.0


From 03764438f15a9db8089b7776eaf6181974510c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 11/33] fix: shuttermint node falling behind must not crash the
 keyper

SyncToHead panicked in fetchAndApplyEvents when the node's last committed
height was lower than the height the keyper had already synced to, which
happens when the RPC endpoint is switched to a node that is a few blocks
behind or the node is restored from an older state.
---
 shuttermint/keyper/observe/shutter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index 24ae429..5592ab0 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -492,7 +492,9 @@ func (shutter *Shutter) SyncToHead(ctx context.Context, shmcl client.Client) (*S
 	if err != nil {
 		return nil, err
 	}
-	if height == shutter.CurrentBlock {
+	if height <= shutter.CurrentBlock {
+		// There's nothing new, or the node has fallen behind. In the latter case we keep what we
+		// know until it catches up.
 		return shutter, nil
 	}
 	return shutter.SyncToHeight(ctx, shmcl, height)
-- 
2.43.0


From e9582b24e4a2636c2a86932bb02ed691cb3f3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 12/33] fix: follow unscheduled batch configs

The main chain view only ever appended configs. When the config contract's
owner unscheduled a config and scheduled another one in its place, the keyper
kept the unscheduled one and never learnt about its replacement.
---
 shuttermint/keyper/observe/mainchain.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 6d3f1de..995a4f2 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -153,7 +153,16 @@ func (mainchain *MainChain) syncConfigs(cc *contract.Caller, opts *bind.CallOpts
 	if err != nil {
 		return errors.Wrap(err, "failed to get number of configs from contract")
 	}
-	for configIndex := uint64(len(mainchain.BatchConfigs)); configIndex < numConfigs; configIndex++ {
+
+	// Configs that had not started at the last synced block may have been unscheduled, and others
+	// may have taken their place. Fetch them again.
+	known := len(mainchain.BatchConfigs)
+	for known > 0 && mainchain.BatchConfigs[known-1].StartBlockNumber > mainchain.CurrentBlock {
+		known--
+	}
+	mainchain.BatchConfigs = mainchain.BatchConfigs[:known]
+
+	for configIndex := uint64(known); configIndex < numConfigs; configIndex++ {
 		config, err := cc.ConfigContract.GetConfigByIndex(opts, configIndex)
 		if err != nil {
 			return errors.Wrap(err, "failed to get config by index from contract")
-- 
2.43.0


From e2b16bd8f6e56d5857efd51f4b28835b78c48c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 13/33] fix: gas limit of batch execution ignores the size of
 the transactions

The gas limit was a constant plus what the transactions may use themselves. It
didn't cover the calldata (16 gas per byte), nor copying and hashing the
transactions. A batch with more than about 10 kB of transactions was rejected
by the node ('intrinsic gas too low') or ran out of gas, and was tried again
forever; no further batch could be executed.
---
 shuttermint/keyper/fx/actions.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/actions.go b/shuttermint/keyper/fx/actions.go
index ac3dfb8..8346e19 100644
--- a/shuttermint/keyper/fx/actions.go
+++ b/shuttermint/keyper/fx/actions.go
@@ -19,8 +19,27 @@ const (
 	executeCipherBatchBaseLimit = uint64(250_000)
 	executePlainBatchBaseLimit  = uint64(250_000) // XXX check if we can lower that value
 	skipCipherExecutionLimit    = uint64(200_000)
+
+	// gas needed per transaction and per byte of transaction data, in addition to the gas the
+	// transactions may use themselves
+	executeTransactionOverhead = uint64(6_000)
+	executeGasPerByte          = uint64(18)
 )
 
+// executionGasLimit computes the gas limit for the execution of a batch. The executor contract does
+// not only run the transactions: they are sent to it as calldata (16 gas per byte), and it copies
+// them to memory and hashes them, the cost of which grows quadratically with their size.
+func executionGasLimit(base uint64, transactions [][]byte, transactionGasLimit uint64) uint64 {
+	limit := base
+	size := uint64(0)
+	for _, tx := range transactions {
+		limit += transactionGasLimit + executeTransactionOverhead
+		size += uint64(len(tx))
+	}
+	memoryWords := 3 * size / 32
+	return limit + size*executeGasPerByte + memoryWords*memoryWords/512
+}
+
 // IAction describes an action to run as determined by the Decider's Decide method.
 type IAction interface {
 	// IsExpired checks if the action expired because some time limit is reached or because the
@@ -83,7 +102,7 @@ type ExecuteCipherBatch struct {
 }
 
 func (a ExecuteCipherBatch) gasLimit() uint64 {
-	return executeCipherBatchBaseLimit + uint64(len(a.Transactions))*a.TransactionGasLimit
+	return executionGasLimit(executeCipherBatchBaseLimit, a.Transactions, a.TransactionGasLimit)
 }
 
 func (a ExecuteCipherBatch) SendTX(caller *contract.Caller, auth *bind.TransactOpts) (*types.Transaction, error) {
@@ -110,7 +129,7 @@ type ExecutePlainBatch struct {
 }
 
 func (a ExecutePlainBatch) gasLimit() uint64 {
-	return executePlainBatchBaseLimit + uint64(len(a.Transactions))*a.TransactionGasLimit
+	return executionGasLimit(executePlainBatchBaseLimit, a.Transactions, a.TransactionGasLimit)
 }
 
 func (a ExecutePlainBatch) SendTX(caller *contract.Caller, auth *bind.TransactOpts) (*types.Transaction, error) {
-- 
2.43.0


From 95420645acb554d9cc67721e065886132539efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 14/33] fix: reject decryption signatures that the slasher
 contract rejects

A keyper can turn its signature into another valid one with an s value in the
upper half of the range. It was accepted and used in appeals, which the
contract rejects ('invalid signature s value'). The appeal was retried
forever, and no main chain transaction after it was sent.
---
 shuttermint/keyper/decide.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 82b1ff7..d01a400 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -44,8 +44,17 @@ type Batch struct {
 	IsEmpty                  bool
 }
 
-// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
+// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash. Signatures with an
+// s value in the upper half of the range are valid, but the keyper slasher contract rejects them.
 func (batch *Batch) VerifySignature(sender common.Address, signature []byte) bool {
+	if len(signature) != crypto.SignatureLength {
+		return false
+	}
+	r := new(big.Int).SetBytes(signature[:32])
+	s := new(big.Int).SetBytes(signature[32:64])
+	if !crypto.ValidateSignatureValues(signature[crypto.RecoveryIDOffset], r, s, true) {
+		return false
+	}
 	pubkey, err := crypto.SigToPub(batch.DecryptionSignatureHash, signature)
 	if err != nil {
 		return false
-- 
2.43.0


From 18ed32b6a328ece0a7025acbb222ac7b7715d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 15/33] fix: keep polynomial evaluations of zero when the state
 is saved

gob doesn't tell nil pointers in a slice from pointers to zero values, and an
evaluation of zero is valid. A keyper that restarted lost it and, after the
accusing phase, failed to compute the result of the DKG that succeeded for the
others.
---
 shuttermint/keyper/decide.go | 24 +++++++++++++++++++++---
 shuttermint/keyper/keyper.go |  1 +
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index d01a400..b6a110d 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -79,6 +79,7 @@ type DKG struct {
 	Pure                 *puredkg.PureDKG
 	OutgoingPolyEvalMsgs []puredkg.PolyEvalMsg
 	PhaseLength          PhaseLength
+	ReceivedEvals        []bool // tells which of Pure.Evals are not nil, see recordNilValues
 }
 
 // EKG is used to store local state about the epoch key generation process.
@@ -293,17 +294,34 @@ func NewState() *State {
 	}
 }
 
+// recordNilValues must be called before a State object is encoded with gob, see restoreNilValues.
+func (st *State) recordNilValues() {
+	for i := range st.DKGs {
+		dkg := &st.DKGs[i]
+		if dkg.Pure == nil {
+			continue
+		}
+		dkg.ReceivedEvals = make([]bool, len(dkg.Pure.Evals))
+		for j, eval := range dkg.Pure.Evals {
+			dkg.ReceivedEvals[j] = eval != nil
+		}
+	}
+}
+
 // restoreNilValues undoes what gob does to nil pointers in a slice when a State object has been
 // encoded and decoded: it turns them into pointers to zero values. The puredkg package uses nil for
-// polynomial evaluations and commitments that haven't been received.
+// polynomial evaluations and commitments that haven't been received. Zero is a valid evaluation, so
+// we have to keep track of those that have been received.
 func (st *State) restoreNilValues() {
 	for i := range st.DKGs {
-		pure := st.DKGs[i].Pure
+		dkg := &st.DKGs[i]
+		pure := dkg.Pure
 		if pure == nil {
 			continue
 		}
 		for j, eval := range pure.Evals {
-			if eval != nil && eval.Sign() == 0 {
+			received := j < len(dkg.ReceivedEvals) && dkg.ReceivedEvals[j]
+			if eval != nil && eval.Sign() == 0 && !received {
 				pure.Evals[j] = nil
 			}
 		}
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 35ffef3..45397dc 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -349,6 +349,7 @@ func (kpr *Keyper) saveState() error {
 	}
 	defer file.Close()
 	world := kpr.CurrentWorld()
+	kpr.State.recordNilValues()
 	st := storedState{
 		State:     kpr.State,
 		Shutter:   world.Shutter,
-- 
2.43.0


From 02b473de570ea003ac98cb12f0a1fb338984161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 16/33] fix: a failed DKG that has been superseded is not
 restarted once more

---
 shuttermint/keyper/decide.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index b6a110d..33ad1a8 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -600,11 +600,27 @@ func (dcdr *Decider) startPhase3Apologizing(dkg *DKG, phaseAtNextBlockHeight pur
 	}
 }
 
+// isSupersededDKG checks if another DKG has been started for the same batches later on.
+func (dcdr *Decider) isSupersededDKG(dkg *DKG) bool {
+	for i := range dcdr.Shutter.Eons {
+		eon := &dcdr.Shutter.Eons[i]
+		if eon.Eon > dkg.Eon && eon.StartEvent.BatchIndex == dkg.StartBatchIndex {
+			return true
+		}
+	}
+	return false
+}
+
 func (dcdr *Decider) dkgFinalize(dkg *DKG) {
 	dkg.Pure.Finalize()
 	dkgresult, err := dkg.Pure.ComputeResult()
 	if err != nil {
 		log.Printf("Error: DKG process failed for %s: %+v", dkg.ShortInfo(), err)
+		if dcdr.isSupersededDKG(dkg) {
+			// The vote would only help to start yet another DKG. If the threshold is at most
+			// half the number of keypers, the number of DKGs would double with each failure.
+			return
+		}
 		dcdr.sendShuttermintMessage(
 			"requesting DKG restart",
 			shmsg.NewEonStartVote(dkg.StartBatchIndex),
-- 
2.43.0


From a595079a58f321bb8d5af64501da2509e21c25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 17/33] fix: do not use a failed main chain subscription when
 told to stop

---
 shuttermint/keyper/observe/mainchain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 995a4f2..e6b3ec7 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -449,15 +449,17 @@ func SyncMain(
 		sub.Unsubscribe()
 		for {
 			log.Println("Attempting reconnection to main chain")
-			sub, err = caller.Ethclient.SubscribeNewHead(ctx, headers)
+			newSub, err := caller.Ethclient.SubscribeNewHead(ctx, headers)
 			if err != nil {
 				select {
 				case <-time.After(mainChainReconnectInterval):
 					continue
 				case <-ctx.Done():
+					// keep the old subscription, a failed one must not be used
 					return
 				}
 			} else {
+				sub = newSub
 				log.Println("Main chain connection regained")
 				return
 			}
-- 
2.43.0


From d10358ad03d1625adfab1f23631b0c7a4e86ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 18/33] fix: the keyper did not stop when told to while sending
 a main chain transaction

---
 shuttermint/keyper/fx/runenv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index c92016d..167e73a 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -76,7 +76,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 		return err
 	}
 	runenv.PendingActions.SetMainChainTXHash(id, tx.Hash())
-	runenv.inFlightMainChainTXs <- id
+	select {
+	case runenv.inFlightMainChainTXs <- id:
+	case <-ctx.Done():
+		// nobody waits for the transaction any more. This is taken up again after a restart.
+	}
 	return nil
 }
 
-- 
2.43.0


From 41172ffe694a766fb5d3907ad028a33027d57021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 19/33] fix: shlib decoded malformed points as the point at
 infinity

Uncompress returns nil for invalid data, but its result was ignored and the
receiver, which can't be nil, was checked instead. GobDecode of truncated gammas
panicked in addition.
---
 shlib/shcrypto/encoding.go | 18 ++++++------------
 shlib/shcrypto/feldman.go  |  6 ++++--
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..1972758 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -51,8 +51,7 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 	if m.C1 == nil {
 		m.C1 = new(blst.P2Affine)
 	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
+	if m.C1.Uncompress(d[1:1+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 		return errors.New("failed to deserialize C1")
 	}
 	if !m.C1.InG2() {
@@ -93,8 +92,7 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key share")
 	}
 	if !p.InG2() {
@@ -111,8 +109,7 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key")
 	}
 	if !p.InG2() {
@@ -143,8 +140,7 @@ func (epochID *EpochID) Marshal() []byte {
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch id")
 	}
 	if !p.InG1() {
@@ -162,8 +158,7 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key share")
 	}
 	if !p.InG1() {
@@ -180,8 +175,7 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key")
 	}
 	if !p.InG1() {
diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..cd3af52 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -171,10 +171,12 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
+	if len(data)%blst.BLST_P2_COMPRESS_BYTES != 0 {
+		return errors.New("invalid length of gammas")
+	}
 	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
 		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
+		if p.Uncompress(data[i:i+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 			return errors.New("failed to deserialize gammas")
 		}
 		if !p.InG2() {
-- 
2.43.0


From 147d749ece401315e0c58ce6dd9152252be348b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 20/33] fix: shlib's PadMessage overwrote the bytes behind the
 message

If the message is a part of a bigger buffer, append writes the padding to it.
---
 shlib/shcrypto/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..1fdad26 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,7 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	m = append(m[:len(m):len(m)], padding...) // copy, the rest of m's array belongs to the caller
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From f84576d1bcf9f8b6525507274ec0038ff5ca979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 21/33] fix: shlib's Block accepted text of any length

---
 shlib/shcrypto/encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 1972758..9753bc7 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -206,8 +206,14 @@ func (block Block) MarshalText() ([]byte, error) { //nolint:unparam
 // UnmarshalText deserializes the block from hex.
 func (block *Block) UnmarshalText(b []byte) error {
 	decoded, err := hexutil.Decode(string(b))
+	if err != nil {
+		return err
+	}
+	if len(decoded) != BlockSize {
+		return fmt.Errorf("invalid length %d of block", len(decoded))
+	}
 	copy(block[:], decoded)
-	return err
+	return nil
 }
 
 // MarshalText serializes the encrypted message to hex.
-- 
2.43.0


From 10ab552e02f074f58b3aa46374bcce177edf6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:40 +0000
Subject: [PATCH 22/33] fix: a PureDKG that is stored by gob rejected messages
 after it was read

gob turns the nil commitments and evaluations, which stand for messages that have
not been received, into zero values, and PureDKG takes those for received ones.
---
 shlib/puredkg/puredkg.go | 70 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/shlib/puredkg/puredkg.go b/shlib/puredkg/puredkg.go
index e080078..f901fb4 100644
--- a/shlib/puredkg/puredkg.go
+++ b/shlib/puredkg/puredkg.go
@@ -3,7 +3,9 @@
 package puredkg
 
 import (
+	"bytes"
 	"crypto/rand"
+	"encoding/gob"
 	"fmt"
 	"math/big"
 
@@ -99,6 +101,74 @@ func NewPureDKG(eon uint64, numKeypers uint64, threshold uint64, keyper KeyperIn
 	}
 }
 
+// storedPureDKG is the form in which a PureDKG is stored by gob. In a slice, gob turns nil pointers
+// into pointers to zero values, but here nil stands for a message that hasn't been received.
+type storedPureDKG struct {
+	Phase       Phase
+	Eon         uint64
+	NumKeypers  uint64
+	Threshold   uint64
+	Keyper      KeyperIndex
+	Polynomial  *shcrypto.Polynomial
+	Commitments map[KeyperIndex]*shcrypto.Gammas
+	Evals       map[KeyperIndex]*big.Int
+	Accusations map[accusationKey]struct{}
+	Apologies   map[accusationKey]*big.Int
+}
+
+// GobEncode encodes a PureDKG value. See https://golang.org/pkg/encoding/gob/#GobEncoder
+func (pure *PureDKG) GobEncode() ([]byte, error) {
+	stored := storedPureDKG{
+		Phase:       pure.Phase,
+		Eon:         pure.Eon,
+		NumKeypers:  pure.NumKeypers,
+		Threshold:   pure.Threshold,
+		Keyper:      pure.Keyper,
+		Polynomial:  pure.Polynomial,
+		Commitments: make(map[KeyperIndex]*shcrypto.Gammas),
+		Evals:       make(map[KeyperIndex]*big.Int),
+		Accusations: pure.Accusations,
+		Apologies:   pure.Apologies,
+	}
+	for i, c := range pure.Commitments {
+		if c != nil {
+			stored.Commitments[KeyperIndex(i)] = c
+		}
+	}
+	for i, eval := range pure.Evals {
+		if eval != nil {
+			stored.Evals[KeyperIndex(i)] = eval
+		}
+	}
+	buff := bytes.Buffer{}
+	err := gob.NewEncoder(&buff).Encode(stored)
+	return buff.Bytes(), err
+}
+
+// GobDecode decodes a PureDKG value. See https://golang.org/pkg/encoding/gob/#GobDecoder
+func (pure *PureDKG) GobDecode(data []byte) error {
+	stored := storedPureDKG{}
+	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(&stored); err != nil {
+		return err
+	}
+	*pure = NewPureDKG(stored.Eon, stored.NumKeypers, stored.Threshold, stored.Keyper)
+	pure.Phase = stored.Phase
+	pure.Polynomial = stored.Polynomial
+	for i, c := range stored.Commitments {
+		pure.Commitments[i] = c
+	}
+	for i, eval := range stored.Evals {
+		pure.Evals[i] = eval
+	}
+	for key := range stored.Accusations {
+		pure.Accusations[key] = struct{}{}
+	}
+	for key, eval := range stored.Apologies {
+		pure.Apologies[key] = eval
+	}
+	return nil
+}
+
 func (pure *PureDKG) setPhase(p Phase) {
 	if p != pure.Phase+1 {
 		panic("wrong phase")
-- 
2.43.0


From 29aab3759d0f0277bf47b2ff35ce27f7fb09b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 23/33] fix: shlib ignored all but the last byte of an
 encrypted message's padding

An encrypted message could be altered in these bytes and was still decrypted
without an error.
---
 shlib/shcrypto/encryption.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 1fdad26..a71e2e5 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -197,6 +197,11 @@ func UnpadMessage(blocks []Block) ([]byte, error) {
 	if paddingLength > BlockSize {
 		return nil, fmt.Errorf("invalid padding length %d (greater than block size %d)", paddingLength, BlockSize)
 	}
+	for _, b := range lastBlock[BlockSize-paddingLength:] {
+		if int(b) != paddingLength {
+			return nil, fmt.Errorf("invalid padding byte %d (padding length is %d)", b, paddingLength)
+		}
+	}
 
 	m := make([]byte, len(blocks)*BlockSize-paddingLength)
 	// copy unpadded blocks
-- 
2.43.0


From a95eef3ff422a42a693c01f9195bb971ca6ad9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 24/33] fix: take the block of the saved view for the sync
 height only if a DKG has been started

LoadState sets State.SyncHeight to the block of the saved view if it is 0, because older
versions did not store it. It is also 0 as long as the keyper has not made a decision yet, for
instance because its main chain node is still syncing. If the keyper was restarted then, it
never looked at the messages of the blocks up to that one: it missed the commitments,
evaluations and accusations of a DKG that had already begun, and came to another result than
the others or did not answer accusations against it.
---
 shuttermint/keyper/keyper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 45397dc..f8b9547 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -325,7 +325,7 @@ func (kpr *Keyper) LoadState() error {
 		return err
 	}
 
-	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 {
+	if st.State.SyncHeight == 0 && st.State.LastEonStarted > 0 && st.Shutter.CurrentBlock > 0 {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
-- 
2.43.0


From 154137163b604046662119ed681e68c8015d86fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 25/33] fix: wait for pending transactions before setting the
 next batch config

SetNextBatchConfig only sends transactions for fields that differ from the
contract's next config. It read that config from the latest block, although
its transactions are executed after those that are already pending. When
set-next was interrupted and run again with another file, fields that the
pending transactions changed were taken to be right already and the command
reported success for a mix of both files.
---
 shuttermint/cmd/config/setnext.go     | 11 ++++++-----
 shuttermint/medley/medley.go          | 18 ++++++++++++++++++
 shuttermint/medley/txbatch/txbatch.go |  6 ++++++
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 76108c4..08c68ec 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -96,6 +96,12 @@ func setNext(ctx context.Context) error {
 		return err
 	}
 
+	batch, err := txbatch.New(ctx, client, ownerKey)
+	if err != nil {
+		return err
+	}
+	batch.TransactOpts.GasPrice = gasPrice
+
 	if batchConfig.StartBlockNumber == 0 {
 		startBlock, startBatch, err := chooseStartBlockAndBatch(ctx, client, configContract)
 		if err != nil {
@@ -106,11 +112,6 @@ func setNext(ctx context.Context) error {
 		log.Printf("Using StartBlockNumber %d, StartBatchIndex %d", startBlock, startBatch)
 	}
 
-	batch, err := txbatch.New(ctx, client, ownerKey)
-	if err != nil {
-		return err
-	}
-	batch.TransactOpts.GasPrice = gasPrice
 	err = configContract.SetNextBatchConfig(ctx, batch, batchConfig)
 	if err != nil {
 		return err
diff --git a/shuttermint/medley/medley.go b/shuttermint/medley/medley.go
index 45ffa60..7ed754a 100644
--- a/shuttermint/medley/medley.go
+++ b/shuttermint/medley/medley.go
@@ -63,6 +63,24 @@ func WaitMined(ctx context.Context, client *ethclient.Client, txHash common.Hash
 	}
 }
 
+// WaitNonce waits until all transactions of an account with a nonce smaller than the given one have
+// been mined.
+func WaitNonce(ctx context.Context, client *ethclient.Client, account common.Address, nonce uint64) error {
+	for {
+		mined, err := client.NonceAt(ctx, account, nil)
+		if err != nil {
+			return err
+		}
+		if mined >= nonce {
+			return nil
+		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+		Sleep(ctx, receiptPollInterval)
+	}
+}
+
 func WaitMinedMany(ctx context.Context, client *ethclient.Client, txHashes []common.Hash) ([]*types.Receipt, error) {
 	defer fmt.Print("\n")
 	var res []*types.Receipt
diff --git a/shuttermint/medley/txbatch/txbatch.go b/shuttermint/medley/txbatch/txbatch.go
index f268210..1ebc231 100644
--- a/shuttermint/medley/txbatch/txbatch.go
+++ b/shuttermint/medley/txbatch/txbatch.go
@@ -25,11 +25,17 @@ type TXBatch struct {
 	transactions []*types.Transaction
 }
 
+// New creates a batch of transactions. It waits until no transactions of the account are pending,
+// e.g. those of an interrupted earlier run, since what to send may depend on their outcome.
 func New(ctx context.Context, client *ethclient.Client, key *ecdsa.PrivateKey) (*TXBatch, error) {
 	opts, err := InitTransactOpts(ctx, client, key)
 	if err != nil {
 		return nil, err
 	}
+	err = medley.WaitNonce(ctx, client, opts.From, opts.Nonce.Uint64())
+	if err != nil {
+		return nil, err
+	}
 	return &TXBatch{
 		Ethclient:    client,
 		TransactOpts: opts,
-- 
2.43.0


From 605f40fb64a8bd2abcb27e912c2715a39c2fb2ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 26/33] fix: remove all keypers of the next batch config before
 adding new ones

SetNextBatchConfig removed as many keypers as the deduplicated list had, so
some of the old ones stayed in the contract if it held duplicates. It also
left duplicates in place if the deduplicated list was the wanted one.
---
 shuttermint/contract/config.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..a0fbf06 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -313,6 +313,12 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		return err
 	}
 
+	// GetNextConfig leaves out duplicates
+	curKeypers, err := cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
+
 	txopts := batch.TransactOpts
 	var tx *types.Transaction
 	if newbc.StartBatchIndex != curbc.StartBatchIndex {
@@ -381,9 +387,9 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		}
 		batch.Add(tx)
 	}
-	if !addressesEqual(newbc.Keypers, curbc.Keypers) {
+	if !addressesEqual(newbc.Keypers, curKeypers) {
 		// TODO: remove and keypers in groups if there are too many of them
-		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curbc.Keypers))); err != nil {
+		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curKeypers))); err != nil {
 			return err
 		}
 		batch.Add(tx)
-- 
2.43.0


From 17dd2170e59656a50f8da9e01de67d30220a1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 27/33] fix: respect the batch span of the last config when
 choosing a start block

scheduleNextConfig requires the start block to be later than the current
block by the batch span of the last config or the heads up, whichever is
greater. The chosen start block only respected the heads up, so that
scheduling a config after one with a long batch span always reverted.
---
 shuttermint/cmd/config/setnext.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 08c68ec..8aedb0f 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -77,6 +77,10 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to get header")
 	}
+	// the config contract wants the batch span of the last config to be respected, too
+	if batchSpan > headsUp {
+		headsUp = batchSpan
+	}
 	minStartBlock := header.Number.Uint64() + headsUp + 20
 
 	if batchSpan == 0 {
-- 
2.43.0


From e18b8b7e6928b6f0808af256e56a1529bf27d67b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 28/33] fix: choose a start block after that of a last config
 in the future

If the last config starts later than the earliest possible start block, the
difference of the two underflowed and a huge start batch index was chosen.
Scheduling the config then reverted.
---
 shuttermint/cmd/config/setnext.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 8aedb0f..230529f 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -82,6 +82,10 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 		headsUp = batchSpan
 	}
 	minStartBlock := header.Number.Uint64() + headsUp + 20
+	if minStartBlock < startBlockNumber {
+		// the last config has not started yet
+		minStartBlock = startBlockNumber
+	}
 
 	if batchSpan == 0 {
 		return minStartBlock, startBatchIndex, nil
-- 
2.43.0


From a96530c8bf82269018af53100883d408876d0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 29/33] fix: wait for pending payments before determining how
 much to fund

Running the fund command again while the transactions of an earlier run were
still pending sent the funds twice.
---
 shuttermint/cmd/prepare/fund.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/shuttermint/cmd/prepare/fund.go b/shuttermint/cmd/prepare/fund.go
index 93586a4..6edaa72 100644
--- a/shuttermint/cmd/prepare/fund.go
+++ b/shuttermint/cmd/prepare/fund.go
@@ -175,15 +175,21 @@ func fundAddresses(ctx context.Context, client *ethclient.Client, addresses []co
 	highAmount := big.NewInt(params.Ether)
 	lowAmount := big.NewInt(params.Ether / 2)
 
-	fundings, err := determineFundings(ctx, client, addresses, lowAmount, highAmount)
+	ownerKey, err := crypto.HexToECDSA(fundFlags.OwnerKey)
+	if err != nil {
+		return errors.Errorf("invalid owner key")
+	}
+	// This waits for pending transactions, which may be payments of an earlier run.
+	batch, err := txbatch.New(ctx, client, ownerKey)
 	if err != nil {
 		return err
 	}
-	report(fundings)
-	ownerKey, err := crypto.HexToECDSA(fundFlags.OwnerKey)
+
+	fundings, err := determineFundings(ctx, client, addresses, lowAmount, highAmount)
 	if err != nil {
-		return errors.Errorf("invalid owner key")
+		return err
 	}
+	report(fundings)
 
 	chainID, err := client.ChainID(ctx)
 	if err != nil {
@@ -197,11 +203,6 @@ func fundAddresses(ctx context.Context, client *ethclient.Client, addresses []co
 
 	signer := types.NewEIP155Signer(chainID)
 
-	batch, err := txbatch.New(ctx, client, ownerKey)
-	if err != nil {
-		return err
-	}
-
 	for _, f := range fundings {
 		if f.amount.Sign() <= 0 {
 			continue
-- 
2.43.0


From 0b1435d4af32bda6b61b7e6befdf318b1bfc08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 30/33] fix: unfund crashed if a config file has no signing key

viper ignores errors when it reads a file, so this also happens when the disk
fails.
---
 shuttermint/cmd/prepare/unfund.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/cmd/prepare/unfund.go b/shuttermint/cmd/prepare/unfund.go
index 66caf08..0fc45d7 100644
--- a/shuttermint/cmd/prepare/unfund.go
+++ b/shuttermint/cmd/prepare/unfund.go
@@ -157,6 +157,9 @@ func readKeyFromConfig(path string) (*ecdsa.PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	if config.SigningKey == nil {
+		return nil, errors.Errorf("no signing key in %s", path)
+	}
 	return config.SigningKey, nil
 }
 
-- 
2.43.0


From 209c5bf82a5f3b29396fdf3d45e23ac72b1e3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:37 +0000
Subject: [PATCH 31/33] fix: sending a message succeeded although the mempool
 rejected it

---
 shuttermint/keyper/fx/messagesender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..282db79 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,11 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		return &RemoteError{
+			msg: fmt.Sprintf("message rejected by the mempool: %s", res.CheckTx.Log),
+		}
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From 0efd314ccdafc261d8c742a00126b2c317b7e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:25 +0000
Subject: [PATCH 32/33] fix: init could not complete a directory in which it
 was interrupted after writing the validator key

---
 shuttermint/cmd/init.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/cmd/init.go b/shuttermint/cmd/init.go
index 0a6eeb4..92189e7 100644
--- a/shuttermint/cmd/init.go
+++ b/shuttermint/cmd/init.go
@@ -135,6 +135,10 @@ func initFilesWithConfig(config *cfg.Config, appState app.GenesisAppState) error
 	privValStateFile := config.PrivValidatorStateFile()
 	var pv *privval.FilePV
 	if tmos.FileExists(privValKeyFile) {
+		if !tmos.FileExists(privValStateFile) && !tmos.FileExists(config.GenesisFile()) {
+			// An earlier run has been interrupted before it could write the state file.
+			privval.LoadFilePVEmptyState(privValKeyFile, privValStateFile).Save()
+		}
 		pv = privval.LoadFilePV(privValKeyFile, privValStateFile)
 		logger.Info("Found private validator", "keyFile", privValKeyFile,
 			"stateFile", privValStateFile)
-- 
2.43.0


From 8b715222b7e3f53fdfdd7c89ab8b03509d8e98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:26 +0000
Subject: [PATCH 33/33] fix: an interrupted init left a truncated node key or
 genesis file, which the next run took for complete

---
 shuttermint/cmd/init.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/shuttermint/cmd/init.go b/shuttermint/cmd/init.go
index 92189e7..af39d09 100644
--- a/shuttermint/cmd/init.go
+++ b/shuttermint/cmd/init.go
@@ -16,9 +16,12 @@ import (
 	"github.com/spf13/cobra"
 	"github.com/tendermint/go-amino"
 	cfg "github.com/tendermint/tendermint/config"
+	"github.com/tendermint/tendermint/crypto/ed25519"
+	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/libs/log"
 	tmos "github.com/tendermint/tendermint/libs/os"
 	tmrand "github.com/tendermint/tendermint/libs/rand"
+	"github.com/tendermint/tendermint/libs/tempfile"
 	"github.com/tendermint/tendermint/p2p"
 	"github.com/tendermint/tendermint/privval"
 	"github.com/tendermint/tendermint/types"
@@ -129,6 +132,15 @@ func adjustPort(address string, keyperIndex int) (string, error) {
 	return strings.Join(substrings[:len(substrings)-1], ":") + ":" + portStrAdjusted, nil
 }
 
+// saveJSON stores v in a file that either does not exist or is complete, even if we're interrupted.
+func saveJSON(path string, v interface{}, perm os.FileMode) error {
+	d, err := tmjson.MarshalIndent(v, "", "  ")
+	if err != nil {
+		return err
+	}
+	return tempfile.WriteFileAtomic(path, d, perm)
+}
+
 func initFilesWithConfig(config *cfg.Config, appState app.GenesisAppState) error {
 	// private validator
 	privValKeyFile := config.PrivValidatorKeyFile()
@@ -153,7 +165,8 @@ func initFilesWithConfig(config *cfg.Config, appState app.GenesisAppState) error
 	if tmos.FileExists(nodeKeyFile) {
 		logger.Info("Found node key", "path", nodeKeyFile)
 	} else {
-		if _, err := p2p.LoadOrGenNodeKey(nodeKeyFile); err != nil {
+		nodeKey := &p2p.NodeKey{PrivKey: ed25519.GenPrivKey()}
+		if err := saveJSON(nodeKeyFile, nodeKey, 0o600); err != nil {
 			return err
 		}
 		logger.Info("Generated node key", "path", nodeKeyFile)
@@ -184,7 +197,7 @@ func initFilesWithConfig(config *cfg.Config, appState app.GenesisAppState) error
 			Power:   10,
 		}}
 
-		if err := genDoc.SaveAs(genFile); err != nil {
+		if err := saveJSON(genFile, genDoc, 0o644); err != nil {
 			return err
 		}
 		logger.Info("Generated genesis file", "path", genFile)
-- 
2.43.0

